#!/usr/bin/env python3
"""Copies the parts of /repo the harnesses compile into /verif/build/repo, writing a file
only when its content differs (so cargo rebuilds exactly when the content changed), and
removing what /repo no longer has."""
import os, sys, shutil
SRC=os.environ.get('VP_REPO','/repo')
ROOT=os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST=os.path.join(ROOT,'build','repo')
PARTS=['crates','editors/zed','xtask','docs','artifacts','Cargo.toml','dist-workspace.toml']
SKIP={'target','node_modules','.git'}
def files(base):
    out={}
    for part in PARTS:
        p=os.path.join(base,part)
        if os.path.isfile(p): out[part]=p
        for d,ds,fs in os.walk(p):
            ds[:]=[x for x in ds if x not in SKIP]
            for f in fs:
                q=os.path.join(d,f)
                out[os.path.relpath(q,base)]=q
    return out
def main():
    os.makedirs(DST,exist_ok=True)
    a,b=files(SRC),files(DST)
    for r,p in a.items():
        data=open(p,'rb').read()
        q=os.path.join(DST,r)
        if r in b and open(q,'rb').read()==data: continue
        os.makedirs(os.path.dirname(q),exist_ok=True)
        open(q,'wb').write(data)
    for r,q in b.items():
        if r not in a: os.remove(q)
main()
