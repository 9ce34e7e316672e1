#!/usr/bin/env python3
"""Lists planted bugs whose patch touches lines that /repo's own commits added (such a bug may not count)."""
import os,re,subprocess,functools
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
@functools.cache
def mine(f):
    out=subprocess.run(['git','-C','/repo','blame','-s','HEAD','--',f],capture_output=True,text=True).stdout
    return {i for i,l in enumerate(out.splitlines(),1) if not l.startswith('^0d62c36')}
for b in sorted(os.listdir(V+'/seeded')):
    f=None; bad=[]
    for l in open(f'{V}/seeded/{b}/patch.diff'):
        if m:=re.match(r'--- a/(.*)',l): f=m[1]; continue
        if l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
        if m:=re.match(r'@@ -(\d+)',l): n=int(m[1]); continue
        if l[0]=='-':
            if n in mine(f): bad.append((f,n,'-'))
            n+=1
        elif l[0]=='+':
            if n in mine(f) and n-1 in mine(f): bad.append((f,n,'+'))
        else: n+=1
    if bad: print(b,sorted(set(bad)))
