import sys,os,subprocess,shutil,tempfile,json
from concurrent.futures import ThreadPoolExecutor
V="/verif"; PY="/opt/venv/bin/python"
ns={}
exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
def one(m):
    name,props,edits=m
    w=tempfile.mkdtemp(prefix="hm-",dir="/tmp")
    try:
        repo=w+"/repo"; os.mkdir(repo)
        for x in ("procmon_parser","tests","setup.py","README.md"):
            s="/repo/"+x
            if os.path.isdir(s): shutil.copytree(s,repo+"/"+x)
            elif os.path.exists(s): shutil.copy(s,repo+"/"+x)
        for f,a,b in edits:
            p=repo+"/procmon_parser/"+f; t=open(p,newline="").read()
            if t.count(a)!=1: return "%s: EDIT %s matches %d: %r"%(name,f,t.count(a),a[:60])
            open(p,"w",newline="").write(t.replace(a,b))
        env=dict(os.environ,PYTHONDONTWRITEBYTECODE="1")
        t=subprocess.run([PY,"-m","pytest","-q","-x","tests","-p","no:cacheprovider"],cwd=repo,env=dict(env,PYTHONPATH=repo),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        tl=t.stdout.strip().splitlines()[-1]
        r=[]
        for i in props:
            c=subprocess.run(["python3",V+"/run.py",i],cwd=V,env=dict(env,VERIF_REPO=repo,VERIF_SEED=os.environ.get("VERIF_SEED","1"),VERIF_TIER="quick",VERIF_NOEVIDENCE="1"),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            r.append("%s=%s"%(i,"caught" if c.returncode==1 and "VIOLATION" in c.stdout else "MISSED" if c.returncode==0 else "rc%d"%c.returncode))
        return "%-28s %s  [%s]"%(name," ".join(r),tl)
    finally: shutil.rmtree(w)
ms=[m for m in ns["M"] if not only or m[0] in only]
with ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex:
    for o in ex.map(one,ms): print(o,flush=True)
