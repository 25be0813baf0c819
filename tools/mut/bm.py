#!/usr/bin/env python3
# batch: list of (name, [(file, old, new)...], props, expect) ; expects 1=alarm,0=quiet
import subprocess,sys,os,shutil,re
def run(cases, only=None, jobs=5):
    from concurrent.futures import ThreadPoolExecutor
    import io
    todo=[c for c in cases if not only or any(o in c[0] for o in only)]
    def f(ic):
        out=io.StringIO()
        _one(ic[1], '/tmp/bmrepo%d'%ic[0], lambda *a: print(*a,file=out))
        shutil.rmtree('/tmp/bmrepo%d'%ic[0],ignore_errors=True)
        return out.getvalue()
    with ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(f, enumerate(todo)): print(o,end='',flush=True)
def _one(case, d, print):
    for name,edits,props,exp in [case]:
        subprocess.run(['rsync','-a','--delete','--exclude','.git','/repo/',d+'/'],check=True)
        ok=True
        for f,o,n in edits:
            p=f'{d}/{f}'
            s=open(p).read()
            if o is None: s=s+n
            elif s.count(o)<1: print(name,'PATTERN NOT FOUND',o[:50]); ok=False; continue
            else: s=s.replace(o,n,1)
            open(p,'w').write(s)
        if not ok: continue
        b=subprocess.run(['go','build','./...'],cwd=d,capture_output=True,text=True)
        if b.returncode: print(name,'BUILD FAIL',b.stderr[:500]); continue
        for pr in props:
            r=subprocess.run(['/tmp/sa','-repo',d,'-property',pr,'-findings',os.environ.get('KF','/verif/known_findings.txt'),'-replay','/tmp/rp'],capture_output=True,text=True)
            st='ok ' if (r.returncode!=0)==bool(exp) else 'BAD'
            print(st,name,pr,'rc',r.returncode)
            for l in [x for x in r.stdout.splitlines() if not x.startswith('VIOL')][:5]:
                if l.startswith('VIOL') or l.startswith('KNOWN'): continue
                if r.returncode and len(l)<400: print('      ',l)
