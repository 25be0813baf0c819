#!/usr/bin/env python3
"""bugs: dict id -> (prop, edits[(file,old,new)], body(go main body or (filename,content)), needs, breaks). Builds, tests, demos, stores."""
import subprocess,sys,os,json,shutil,re
R='/tmp/seedrepo'; OUT='/verif/seeded'
HEAD='''package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
)

var _ = strings.ToUpper
var _ = time.Second

func fail(f string, a ...any) { fmt.Printf("FAIL: "+f+"\\n", a...); os.Exit(1) }

// parse parses one text, turning a panic into a failure.
func parse(s string) (st []p.Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			fail("parsing %q panicked: %v", s, r)
		}
	}()
	return p.NewParser(s).ParseStmts()
}

func must(s string) p.Expr {
	st, err := parse(s)
	if err != nil || len(st) != 1 {
		fail("%q: %d statements, error %v", s, len(st), err)
	}
	return st[0]
}

func reject(s string) {
	if st, err := parse(s); err == nil {
		fail("%q was accepted as %d statements", s, len(st))
	}
}

func beauty(e p.Expr) string {
	f := p.NewFormatter().WithBeautify()
	f.WriteExpr(e)
	return f.String()
}

func main() {
'''
DEMO='''#!/bin/bash
# Runs main.go.txt against the parser in the current directory.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
cp "$D/main.go.txt" "$T/main.go"
cat > "$T/go.mod" <<M
module demo

go 1.21.0

require github.com/AfterShip/clickhouse-sql-parser v0.0.0

replace github.com/AfterShip/clickhouse-sql-parser => $R
M
cd "$T" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off timeout 200 go run .
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def demo(d,repo):
    return sh('bash %s/demo.sh'%d,cwd=repo)
def stable(repo):
    # stable tests pass?
    base=json.load(open('/opt/vp/BASELINE.json'))
    r=sh('go test -json ./... ',cwd=repo)
    res={}
    for l in r.stdout.splitlines():
        try: j=json.loads(l)
        except: continue
        if j.get('Test') and j['Action'] in('pass','fail'): res[j['Test']]=j['Action']
    return [t for t,a in res.items() if a=='fail'], len(res)
def go(bugs,only=None):
    for id,(prop,edits,body,needs,breaks) in bugs.items():
        if only and only not in id: continue
        d=OUT+'/'+id
        sh('rsync -a --delete /repo/ %s/ && git -C %s checkout -q -- .'%(R,R))
        os.makedirs('/tmp/seedw/'+id,exist_ok=True); w='/tmp/seedw/'+id
        if isinstance(body,dict):
            for k,v in body.items(): open(w+'/'+k,'w').write(v)
        else:
            src=HEAD+'\n'.join('\t'+l if l.strip() else l for l in body.strip('\n').split('\n'))+'\n}\n'
            open(w+'/main.go.txt','w').write(src); open(w+'/demo.sh','w').write(DEMO)
        os.chmod(w+'/demo.sh',0o755)
        a=demo(w,R)
        if a.returncode: print(id,'DEMO FAILS ON CLEAN',a.stdout,a.stderr[-500:]); continue
        ok=True
        for f,o,n in edits:
            q=R+'/'+f; s=open(q).read()
            if s.count(o)!=1: print(id,'PATTERN COUNT',s.count(o),o[:60]); ok=False; break
            open(q,'w').write(s.replace(o,n))
        if not ok: continue
        b=sh('go build ./...',cwd=R)
        if b.returncode or b.stdout.strip(): print(id,'BUILD',b.stdout,b.stderr[-400:]); continue
        bad,n=stable(R)
        if bad or n<1044: print(id,'TESTS FAIL',n,len(bad),bad[:4]); continue
        a2=demo(w,R)
        if a2.returncode==0: print(id,'DEMO PASSES WITH BUG'); continue
        diff=sh('git diff',cwd=R).stdout
        r=sh('/tmp/sa -repo %s -property %s -findings /verif/known_findings.txt -replay /tmp/rp'%(R,prop))
        lines=[l for l in r.stdout.splitlines() if not l.startswith('VIOL') and not l.startswith('KNOWN')]
        print(id,prop,'CAUGHT' if r.returncode==1 else 'MISSED rc %d'%r.returncode,'| tests',n,'| demo:',a2.stdout.strip()[:110].replace('\n',' '))
        print('      ',' / '.join(lines)[:260])
        os.makedirs(d,exist_ok=True)
        for k in os.listdir(w): shutil.copy(w+'/'+k,d+'/'+k)
        open(d+'/patch.diff','w').write(diff)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
