#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: makes, verifies and keeps planted bugs in seeded/ (development aid; no check uses it).
DEFS.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source, files={name: text})."""
import sys, os, re, subprocess, json, shutil, importlib.util
here=os.path.dirname(os.path.abspath(__file__)); W='/tmp/plant/repo'; OUT=os.path.join(here,'..','..','seeded')
spec=importlib.util.spec_from_file_location('defs',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
only=sys.argv[2:]
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
def build():
    r=sh('bash /tmp/plant/build.sh'); return r.returncode==0, (r.stdout+r.stderr)[-3000:]
def demo(d):
    r=subprocess.run(['bash',os.path.join(d,'demo.sh')],cwd=W,capture_output=True,text=True,timeout=300)
    return r.returncode,(r.stdout+r.stderr)[-600:]
for b in m.BUGS:
    if only and b['id'] not in only: continue
    sh(f'git -C {W} checkout -q -- .')
    d=os.path.join(OUT,b['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copy(os.path.join(here,'h.py'),d)
    open(os.path.join(d,'demo.py'),'w').write('from h import *\n'+b['demo'].strip()+'\ndone()\n')
    open(os.path.join(d,'demo.sh'),'w').write('#!/bin/bash\n'+b.get('pre','')+'exec python3 -B "$(dirname "$0")/demo.py"\n'); os.chmod(os.path.join(d,'demo.sh'),0o755)
    for n,t in b.get('files',{}).items(): open(os.path.join(d,n),'w').write(t)
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(os.path.join(d,'meta.json'),'w'),indent=1)
    ok,log=build()
    c0=demo(d); 
    bad=None
    for f,old,new in b['edits']:
        p=os.path.join(W,f); s=open(p).read()
        if s.count(old)!=1: bad=f'edit matches {s.count(old)} times in {f}: {old[:60]!r}'; break
        open(p,'w').write(s.replace(old,new))
    # only lines of the original repository may change
    if not bad:
        for f in {f for f,_,_ in b['edits']}:
            mine={int(l.split(')')[0].split()[-1]) for l in sh(f'git -C {W} blame -s HEAD -- {f}').stdout.splitlines() if not l.startswith('^0d62c36')}
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',sh(f'git -C {W} diff -U0 -- {f}').stdout,re.M):
                n=1 if h[2] is None else int(h[2]); r=set(range(int(h[1]),int(h[1])+n))&mine
                if h[2]=='0': r={int(h[1])}&mine if int(h[1])+1 in mine else r
                if r: bad=f'changes lines that are not original: {f} {sorted(r)}'
    if not bad:
        open(os.path.join(d,'patch.diff'),'w').write(sh(f'git -C {W} diff').stdout)
        ok,log=build()
        if not ok: bad='no build '+log
    if not bad:
        c1=demo(d); sh('bash /tmp/plant/test.sh /tmp/plant/o.json')
        miss=[x for x in base if x not in json.load(open('/tmp/plant/o.json'))['passed']]
        if c0[0]!=0: bad=f'clean demo {c0}'
        elif c1[0]==0: bad=f'patched demo passes {c1}'
        elif miss: bad=f'tests fail {miss}'
    if bad: shutil.rmtree(d)
    print(b['id'],b['property'],'BAD '+bad if bad else 'kept: '+c1[1].strip().splitlines()[-1][:150],flush=True)
sh(f'git -C {W} checkout -q -- .'); build()
