"""Check driver.

  main.py CHECK ID [quick|thorough]     run the check of one property
  main.py SHARD ID tier seed k n OUT    one shard (internal)
  main.py REPLAY FILE                   run one saved case again

Environment: VERIF_SEED, VERIF_TIER, CMDIS_ROOT (tree to check, default /repo), VERIF_SHARDS.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from array import array

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'     # never use byte code left in the checked tree

from vlib import engine, target     # noqa: E402

LEVEL = 'exploration'


def load(pid):
    return importlib.import_module('vlib.props.' + pid.lower()).PROP


def known_sigs(pid):
    """Signatures listed as known findings (never written at run time)."""
    out = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('KNOWN-FINDING:'):
                words = line.split()
                kv = dict(w.split('=', 1) for w in words if '=' in w)
                if kv.get('property') == pid and 'sig' in kv:
                    out[kv['sig']] = line.strip()
    return out


def regress_cases(pid):
    path = os.path.join(HERE, 'regress', pid + '.json')
    return json.load(open(path)) if os.path.exists(path) else []


def run_shard(pid, tier, seed, k, n, out):
    target.prepare()
    prop = load(pid)
    known = known_sigs(pid)
    r = engine.Runner([target.ROOT_CODE_DIR] + target.extra_code_dirs(), known)
    r.start_watchdog()
    deadline = time.time() + float(os.environ.get('VERIF_CAP', prop.cap or (240 if tier == 'quick' else 780)))
    res = dict(tests={}, labels={}, samples=[], violations=[], known={}, timed_out=False)
    hashes = set()
    evaluations = 0

    def one(test, case, choices, key):
        """Runs a case; returns False when this test should stop."""
        ctx = engine.Ctx()
        v = r.evaluate(test, case, ctx)
        t = res['tests'].setdefault(test.name, dict(cases=0, nontrivial=0))
        t['cases'] += 1
        if ctx.nt:
            t['nontrivial'] += 1
            hashes.add(hash(key))
        for l, c in ctx.labels.items():
            l = test.name + '.' + l
            res['labels'][l] = res['labels'].get(l, 0) + c
        if v is None:
            if ctx.nt and t['nontrivial'] in (1, 40, 400) and k == 0 and len(json.dumps(case)) < 3000:
                res['samples'].append(dict(test=test.name, case=case))
            return True
        if v.sig in known:
            res['known'][v.sig] = str(v)
            return True
        if choices is not None:
            ch, case, v = r.shrink(test, choices, v)
        else:
            ch = None
        res['violations'].append(dict(test=test.name, case=case, choices=ch, msg=str(v), sig=v.sig))
        return False

    stop = False
    tests = {t.name: t for t in prop.tests}
    if k == 0:
        for c in regress_cases(pid):
            evaluations += 1
            t = tests.get(c['test'])
            if t is not None and not one(t, c['case'], None, ('regress', json.dumps(c['case'], sort_keys=True))):
                stop = True
                break
    for ti, test in enumerate(prop.tests):
        if stop:
            break
        if test.enum is not None:
            for key, case in test.enum(k, n, tier):
                evaluations += 1
                if not one(test, case, None, ('enum', ti, key)):
                    stop = True
                    break
                if evaluations & 255 == 0 and time.time() > deadline:
                    res['timed_out'] = True
                    break
        if stop:
            break
        count = test.quick if tier == 'quick' else test.thorough
        rng = engine.rng_for(seed, pid, test.name, k)
        for i in range(count):
            d = engine.Data(rng)
            case = test.gen(d)
            evaluations += 1
            if not one(test, case, d.choices, (ti, tuple(d.choices))):
                stop = True
                break
            if i & 63 == 0 and time.time() > deadline:
                res['timed_out'] = True
                break
    res['evaluations'] = evaluations
    with open(out + '.h', 'wb') as f:
        array('q', sorted(hashes)).tofile(f)
    with open(out, 'w') as f:
        json.dump(res, f)


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = load(pid)
    n = int(os.environ.get('VERIF_SHARDS', '8'))
    scratch = tempfile.mkdtemp(prefix='cmdis-%s-' % pid)
    try:
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_SCRATCH=scratch)
        if prop.setup:
            env.update(prop.setup(scratch))
        procs = []
        for k in range(n):
            out = os.path.join(scratch, 'shard%d' % k)
            err = open(out + '.err', 'wb')
            procs.append((out, subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), 'SHARD', pid, tier, str(seed), str(k), str(n), out],
                env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=scratch)))
        bad = []
        for out, p in procs:
            if p.wait() != 0:
                bad.append(open(out + '.err', 'rb').read().decode('utf-8', 'replace')[-4000:])
        shards = []
        distinct = set()
        for out, p in procs:
            if os.path.exists(out):
                shards.append(json.load(open(out)))
                a = array('q')
                with open(out + '.h', 'rb') as f:
                    a.frombytes(f.read())
                distinct.update(a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    tests, labels, samples, violations, known = {}, {}, [], [], {}
    for s in shards:
        for name, t in s['tests'].items():
            u = tests.setdefault(name, dict(cases=0, nontrivial=0))
            for f in t:
                u[f] += t[f]
        for l, c in s['labels'].items():
            labels[l] = labels.get(l, 0) + c
        samples += s['samples']
        violations += s['violations']
        known.update(s['known'])
    listed = known_sigs(pid)
    for sig, line in sorted(listed.items()):
        print(line)
    best = {}
    for v in violations:
        key = (v['test'], v['sig'])
        if key not in best or len(json.dumps(v['case'])) < len(json.dumps(best[key]['case'])):
            best[key] = v
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for i, (key, v) in enumerate(sorted(best.items())):
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, **v), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  test %s [%s]: %s' % (v['test'], v['sig'], v['msg']))
        print('  case: %s' % engine.short(v['case'], 1500))
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL,
              coverage=dict(evaluations=sum(s['evaluations'] for s in shards),
                            distinct_nontrivial=len(distinct), rule=prop.rule,
                            samples=samples[:12], per_test=tests,
                            classes=dict(sorted(labels.items())),
                            stopped_by_time=any(s['timed_out'] for s in shards),
                            exhaustive=False),
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(best))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s'
          % (pid, tier, seed, ev['coverage']['evaluations'], len(distinct), len(best), ev['wall_s']))
    if best:
        return 1
    if bad:
        print('harness error in %d shard(s):\n%s' % (len(bad), bad[0]))
        return 2
    if len(shards) != n or not distinct:
        print('no result from some shard')
        return 2
    return 0


def replay(path):
    rep = json.load(open(path))
    prop = load(rep['property'])
    scratch = tempfile.mkdtemp(prefix='cmdis-replay-')
    try:
        os.environ['VERIF_SCRATCH'] = scratch
        if prop.setup:
            os.environ.update(prop.setup(scratch))
        target.prepare()
        r = engine.Runner([target.ROOT_CODE_DIR] + target.extra_code_dirs())
        r.start_watchdog()
        test = [t for t in prop.tests if t.name == rep['test']][0]
        v = r.evaluate(test, rep['case'], engine.Ctx())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print('passes')
        return 0
    print('VIOLATION property=%s replay=%s' % (rep['property'], path))
    print('  [%s] %s' % (v.sig, v))
    return 1


def selftest():
    """Setup: every check module loads, and the interpreter and tree are there."""
    target.prepare()
    ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'vlib', 'props')) if f.startswith('c'))
    for pid in ids:
        load(pid)
    import cmdis.disasm     # noqa: F401
    print('%d checks load' % len(ids))
    return 0


def main(argv):
    if argv[0] == 'CHECK' and argv[1] == 'SELFTEST':
        return selftest()
    if argv[0] == 'CHECK':
        return check(argv[1], argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    if argv[0] == 'SHARD':
        return run_shard(argv[1], argv[2], int(argv[3]), int(argv[4]), int(argv[5]), argv[6])
    if argv[0] == 'REPLAY':
        return replay(argv[1])
    raise SystemExit('usage: main.py CHECK ID [tier] | REPLAY FILE')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
