#!/usr/bin/env python3
"""replay.py <property> <native unit> <case seed>: rebuild the unit from /repo's current tree and run that one case."""
import sys,os,shutil
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import run,registry
def main():
    prop,unit,seed=sys.argv[1:4]
    u=[u for u in registry.PROPS[prop]['native'] if u['id']==unit][0]
    work='%s/.work/replay-%d'%(run.V,os.getpid()); os.makedirs(work)
    try:
        rc,o,e,why=run.one(u,work,seed); print(o+e+why); return 0 if rc==0 else 1
    finally: shutil.rmtree(work,ignore_errors=True)
sys.exit(main())
