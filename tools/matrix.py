import os,subprocess,sys,json,shutil,time
from concurrent.futures import ThreadPoolExecutor
# usage: matrix.py [own|all] ids...
mode=sys.argv[1]; ids=sys.argv[2:] or sorted(os.listdir('/verif/seeded'))
CH=['C%02d'%i for i in range(1,34)]
def tree(id):
    d='/tmp/matrix/'+id
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply /verif/seeded/%s/patch.diff'%(d,d,id),shell=True)
    return d
def run(id,c,d):
    e=dict(os.environ,CMDIS_ROOT=d,VERIF_SEED='1',VERIF_TIER='quick',VERIF_EVIDENCE_DIR='/tmp/matrix/ev-'+id)
    r=subprocess.run(['./check',c,'quick'],cwd='/verif',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,universal_newlines=True)
    hit=r.returncode==1 and 'VIOLATION property='+c in r.stdout
    return id,c,r.returncode,hit,r.stdout
jobs=[]
res={}
with ThreadPoolExecutor(4) as ex:
    for id in ids:
        d=tree(id); p=json.load(open('/verif/seeded/%s/meta.json'%id))['property']
        for c in ([p] if mode=='own' else CH):
            jobs.append(ex.submit(run,id,c,d))
    for j in jobs:
        id,c,rc,hit,out=j.result()
        res.setdefault(id,[]).append((c,rc,hit))
        if rc not in (0,1): print('ODD',id,c,rc,out[-400:],flush=True)
for id in ids:
    p=json.load(open('/verif/seeded/%s/meta.json'%id))['property']
    hits=[c for c,rc,h in res[id] if h]
    print('%-14s %s %s  %s'%(id,p,'CAUGHT' if p in hits else 'MISSED',' '.join(hits)),flush=True)
    shutil.rmtree('/tmp/matrix/'+id,ignore_errors=True)
