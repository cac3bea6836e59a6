#!/usr/bin/env python3
"""replay.py PROPERTY FILE: runs a replay file against /repo's current tree; exit 1 if the violation named in it shows again."""
import os, re, sys, tempfile, shutil
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import build as B, check as C
from props import PROPS
def main():
    prop,path=sys.argv[1:3]; P=PROPS[prop]; text=open(path).read()
    want=re.search(r'^# violation (.*)$',text,re.M); h=re.search(r'^# hash (.*)$',text,re.M)
    binary=B.build(P['bin'],P['scn'],P.get('modules'),only=P.get('only')); os.makedirs(C.OUT,exist_ok=True); tmp=tempfile.mkdtemp(prefix='rep-',dir=C.OUT)
    try: r=C.replay_many(binary,[text],300,tmp)[0]
    finally: shutil.rmtree(tmp,ignore_errors=True)
    vs=C.violations(binary,r); print('status',r['status'],'hash',r.get('hash'),'(as recorded)' if h and h.group(1)==r.get('hash') else '(recorded %s: another tree or build)'%(h.group(1) if h else '?'))
    for v in vs: print(v['sig'],'\n  ',v['detail'],'\n   '+'\n   '.join(v['where']))
    again=any(v['sig']==want.group(1) for v in vs) if want else bool(vs)
    print('reproduced' if again else 'not reproduced'); return 1 if again else 0
if __name__=='__main__': sys.exit(main())
