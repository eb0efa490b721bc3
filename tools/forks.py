"""Debugging aid: where does a job fork?  forks.py C10 jobname [seconds]"""
import collections
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pysym.core import E
from harness import run, ctx as C, env
pid, name = sys.argv[1:3]
secs = float(sys.argv[3]) if len(sys.argv) > 3 else 20
mod = run.prop_module(pid)
job = [j for t in ('quick', 'thorough') for j in mod.jobs(t)
       if j.name == name][0]
env.loader()
E.reset_all()
E.set_orders = job.set_orders
sites = collections.Counter()


class D(dict):
    def __setitem__(self, k, v):
        if k == 'forks' and v > self.get(k, 0):
            st = traceback.extract_stack()[:-1]
            s = [f for f in st if '/repo/' in f.filename][-1:]
            h = [f for f in st if '/harness/' in f.filename][-1:]
            f = (s or h)
            sites[' <- '.join('%s:%d %s' % (os.path.basename(x.filename),
                                            x.lineno, x.line)
                              for x in (h + s)[-2:])] += 1
        dict.__setitem__(self, k, v)


E.stats = D(E.stats)
n = [0]


def fn():
    try:
        job.fn(C.Ctx(), **job.params)
    except C.Inconclusive:
        pass


def on(st):
    n[0] += 1


E.explore(fn, on, deadline=time.time() + secs)
print(n[0], 'paths')
for k, v in sites.most_common(25):
    print(v, k)
