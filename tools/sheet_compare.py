"""Compares the reference's encodings with /repo/arm_instructions.xlsx (a one-time validation of the oracle)."""
import os, re, sys, zipfile, xml.etree.ElementTree as E
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
Z = zipfile.ZipFile('/repo/arm_instructions.xlsx')
from vlib import ref
ns={'m':'http://schemas.openxmlformats.org/spreadsheetml/2006/main'}
ss=[''.join(t.text or '' for t in si.iter('{%s}t'%ns['m'])) for si in E.parse(Z.open('xl/sharedStrings.xml')).getroot().findall('m:si',ns)]
def cells(row):
    d={}
    for c in row.findall('m:c',ns):
        v=c.find('m:v',ns)
        col=re.match('[A-Z]+',c.get('r')).group()
        if v is not None: d[col]=ss[int(v.text)] if c.get('t')=='s' else v.text
    return d
def parse(s):
    out=''
    for t in s.split():
        m=re.match(r'^([A-Za-z_0-9]+)\((\d+)\)$',t)
        if m and not re.match('^[01]+$',m.group(1)): out+='x'*int(m.group(2))
        elif re.match('^[01]+$',t): out+=t
        elif re.match('^[A-Za-z][A-Za-z0-9]*$',t): out+='x'
        else: return None
    return out
def pat(e):
    return ''.join(('1' if e.match>>b&1 else '0') if e.mask>>b&1 else 'x' for b in range(e.bits-1,-1,-1))
have={pat(e):e.name for e in ref.ENCODINGS}
used=set()
r=E.parse(Z.open('xl/worksheets/sheet1.xml')).getroot()
for row in r.findall('.//m:row',ns)[1:]:
    d=cells(row)
    if 'D' not in d and 'E' not in d: print('row',d); continue
    done='A' in d
    p1=parse(d.get('E',''));p2=parse(d.get('F','')) if d.get('F') else ''
    p=None if p1 is None or p2 is None else p1+p2
    m=have.get(p)
    if m: used.add(m)
    ov=[n for q,n in have.items() if p and len(q)==len(p) and all(a==b or 'x' in (a,b) for a,b in zip(p,q))]
    if done and not m: print('DONE not in ref:',d.get('B'),d.get('D'),p,d.get('E'),d.get('F'),ov)
    if not done and (m or ov): print('NOTDONE overlap:',d.get('B'),d.get('D'),p,m,ov)
print('unused', [ (n,q) for q,n in have.items() if n not in used])
