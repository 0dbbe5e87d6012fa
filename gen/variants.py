"""variants: run(list of (name, ids, expect, [(file, old, new)]))"""
import os,subprocess,sys,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
def one(v):
    name,ids,exp,edits=v
    d=tempfile.mkdtemp(prefix='var-',dir='/tmp/w')
    try:
        subprocess.run('cd /repo && cp -a $(ls -A | grep -Ev "^(_build|.git)$") '+d,shell=True,check=True)
        for f,old,new in edits:
            p=d+'/'+f; s=open(p).read()
            if s.count(old)!=1: return name,'EDIT FAILS %s count %d'%(f,s.count(old)),''
            open(p,'w').write(s.replace(old,new))
        e=dict(os.environ,VERIF_REPO=d)
        out='';res={}
        ids_=ids.split() if isinstance(ids,str) else ids
        # private copy of verif so evidence is not clobbered
        v_=tempfile.mkdtemp(prefix='vv-',dir='/tmp/w')
        subprocess.run('cp -a /verif/lib /verif/checks /verif/check.py /verif/tool /verif/build /verif/known-findings.txt '+v_,shell=True,check=True)
        try:
            r=subprocess.run([sys.executable,v_+'/check.py']+ids_,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=1500)
            out=r.stdout
            rc=r.returncode if r.returncode!=1 or 'VIOLATION' in r.stdout else 'crash'
            res={'all':rc,'by':sorted(set(__import__('re').findall('property=(C..)',out)))}
        finally: shutil.rmtree(v_)
        ok=rc==exp
        return name,('ok  ' if ok else 'BAD ')+'expect %d got %s'%(exp,res),out
    except Exception as x:
        return name,'ERROR %r'%x,''
    finally:
        shutil.rmtree(d)
def run(vs,j=7):
    sel=sys.argv[1:]
    verbose='-v' in sel; sel=[x for x in sel if x!='-v']
    vs=[v for v in vs if not sel or any(s in v[0] for s in sel)]
    bad=0
    with ThreadPoolExecutor(j) as ex:
        for n,s,out in ex.map(one,vs):
            print(s,n,flush=True)
            if not s.startswith('ok') or verbose:
                bad+=1
                ls=[l for l in out.splitlines() if ' ok: ' not in l]
                for l in ls[:40 if verbose else 6]: print('      ',l[:400 if verbose else 260])
    print('bad:',bad)
