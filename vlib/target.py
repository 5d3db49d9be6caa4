"""Access to the checked tree. Imports cmdis from CMDIS_ROOT (default /repo) or a built copy."""
import os
import sys
import types

ROOT = os.environ.get('CMDIS_ROOT', '/repo')
ROOT_CODE_DIR = os.path.join(ROOT, 'cmdis') + os.sep


def extra_code_dirs():
    b = os.environ.get('CMDIS_BUILT')
    return [os.path.join(b, 'cmdis') + os.sep] if b else []


def prepare():
    """Puts the tree on the path. The version module is generated by the build; stand in for it."""
    root = ROOT
    if os.environ.get('CMDIS_USE_BUILT'):
        root = os.environ['CMDIS_BUILT']
    sys.path.insert(0, root)
    if not os.path.exists(os.path.join(root, 'cmdis', '_version.py')):
        m = types.ModuleType('cmdis._version')
        m.version = '0.1'
        sys.modules['cmdis._version'] = m
