"""catch.py id... : apply each seed in a scratch copy and run its check (VERIF_REPO) quick"""
import json, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
def run(id):
    W='/tmp/catch_%s'%id
    if os.path.exists(W): shutil.rmtree(W)
    subprocess.run(['cp','-a','/repo',W]); 
    assert subprocess.run(['git','-C',W,'apply','/verif/seeded/%s/patch.diff'%id]).returncode==0
    prop=json.load(open('/verif/seeded/%s/meta.json'%id))['property']
    out=[]
    for seed in os.environ.get('SEEDS','1').split():
        r=subprocess.run(['/verif/check',prop,'quick'],env=dict(os.environ,VERIF_REPO=W,VERIF_SEED=seed),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,universal_newlines=True)
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        m=re.search(r"(\d+) cases .*?'violation': (\d+)",r.stdout)
        out.append('%d:%s'%(r.returncode,'/'.join(m.groups()[::-1]) if m else len(v)))
    shutil.rmtree(W)
    return '%-26s %s %s %s'%(id,prop,' '.join(out),'' if r.returncode==1 else '*** MISSED '+r.stdout[-300:])
for i in sys.argv[1:] or sorted(os.listdir('/verif/seeded')):
    print(run(i),flush=True)
