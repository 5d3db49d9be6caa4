# Compares cmdis' decoding and text with LLVM's disassembler (llvm-mc), by class of difference.
# Not part of a check: it validates the reference decoder (vlib/ref.py), with which the checks agree, independently.
# Usage: /opt/venv-pypy/bin/python tools/llvm_compare.py [words per encoding]
import os
import sys,subprocess,re,random,collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import target; target.prepare()
from vlib import ref,cpu,dec
from vlib.engine import Data
def by(w,b): return tuple(ref.to_bytes(w,b))
def llvm(words):
    inp='\n'.join('['+' '.join('0x%02x'%x for x in by(w,b))+']' for w,b in words)+'\n'
    p=subprocess.run(['llvm-mc','-disassemble','-triple=thumbv7m-none-eabi','-show-encoding'],input=inp,stdout=subprocess.PIPE,stderr=subprocess.PIPE,universal_newlines=True)
    out={}
    for l in p.stdout.splitlines():
        m=re.match(r'\s*(.*?)\s*@ encoding: \[(.*)\]',l)
        if m: out[tuple(int(x,16) for x in m.group(2).split(','))]=re.sub(r'\s+',' ',m.group(1))
    undef=set()
    warn=[]
    L=p.stderr.splitlines()
    for a,b_ in zip(L,L[1:]):
        if 'potentially undefined' in a: undef.add(tuple(int(x,16) for x in b_.strip().strip('[]').split()))
    return out,undef
F=cpu.cm()['formatter'].Formatter(None)
def mine(w,b):
    d=bytearray(ref.to_bytes(w,b))
    o=dec.outcome(d,0)
    if o[0]!='ok': return o
    t=o[5]
    return ' '.join(t.split(';')[0].split()[b//16:])
def ops(s):
    s=s.strip()
    out=[];depth=0;cur=''
    for ch in s:
        if ch in '[{': depth+=1
        if ch in ']}': depth-=1
        if ch==',' and depth==0: out.append(cur.strip());cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out
def norm(t):
    t=t.lower()
    mn,_,r=t.partition(' ')
    mn=mn.replace('.w','')
    o=ops(r)
    n=[]
    for x in o:
        x=x.replace(' ','')
        if x.startswith('{'):
            regs=[]
            N=cpu_names
            for p in x[1:-1].split(','):
                if '-' in p:
                    a,b=p.split('-'); regs+=N[N.index(a):N.index(b)+1]
                else: regs.append(p)
            x='{'+','.join(regs)+'}'
        x=re.sub(r'^\.([+-])',lambda m:'.'+m.group(1),x)
        n.append(x)
    return mn,n
cpu_names=['r%d'%i for i in range(13)]+['sp','lr','pc']
def canon(t,isl,w,b):
    mn,o=norm(t)
    m=[]
    for x in o:
        # numbers
        x=re.sub(r'#(-?)(0x[0-9a-f]+|\d+)',lambda k:'#'+str(int(k.group(1)+k.group(2),0) if not k.group(2).startswith('0x') else int(k.group(2),16)),x)
        m.append(x)
    o=m
    if mn in('b','bl','adr') or (mn[0]=='b' and mn[1:] in 'eq ne cs hs cc lo mi pl vs vc hi ls ge lt gt le'.split()):
        l=o[-1]
        if l.startswith('.'): v=int(l[1:])-4
        else: v=int(l.strip('#'))
        if mn=='adr' and not isl: pass
        o=o[:-1]+['L%d'%v]
    mn={'bhs':'bcs','blo':'bcc'}.get(mn,mn)
    return mn,o
def show(W):
    out,undef=llvm(W)
    cat=collections.defaultdict(list)
    for w,b in W:
        m=mine(w,b); l=out.get(by(w,b)); u=' (unpredictable)' if by(w,b) in undef else ''
        if isinstance(m,tuple): m=m[0]
        if m in('undefined','unpredictable'):
            cat[(m,'llvm '+('none' if l is None else norm(l)[0]+u))].append((hex(w),l))
        elif l is None:
            cat[('ok',norm(m)[0],'llvm none')].append((hex(w),m))
        else:
            a,z=canon(m,0,w,b),canon(l,1,w,b)
            if a!=z: cat[('diff',a[0],z[0]+u,len(a[1]),len(z[1]))].append((hex(w),m,l))
            else: cat[('same'+u,)].append((hex(w),m))
    print(len(W),'words')
    for k in sorted(cat,key=str): print(k,len(cat[k]),cat[k][:2])
show([(w,16) for w in range(65536) if not ref.is32(w) and not (w>>8==0xbf and w&15)])
r=random.Random(5); W=set()
for e in ref.ENC32:
    for _ in range(int(sys.argv[1]) if len(sys.argv)>1 else 500):
        w=e.make(cpu.gen_fields(Data(r),e))
        if r.random()<.25: w^=1<<r.randrange(27)
        W.add((w,32))
show(sorted(W))
