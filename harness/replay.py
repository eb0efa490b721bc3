"""Replays a counterexample on the unmodified code:
   python3-vt -m harness.replay FILE    (exit 1: the violation happens)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
    with open(sys.argv[1]) as f:
        c = json.load(f)
    from harness import run
    mod = run.prop_module(c['property'])
    job = [j for j in mod.jobs(c['tier']) if j.name == c['job']][0]
    special = getattr(mod, 'replay', None)
    if special is not None:
        r = special(c, job)
        if r is not None:
            print(r[1])
            sys.exit(r[0])
    cx, st, msg = run.run_concrete(job, c['values'])
    if st == 'oracle':
        print('FAILS: ' + msg)
        sys.exit(1)
    if st == 'done' and cx.failed:
        for x in cx.failed[:5]:
            print('FAILS: ' + str(x)[:600])
        sys.exit(1)
    print('holds: %s %s (%d checks)' % (st, msg, len(cx.checks)))
    sys.exit(0)


if __name__ == '__main__':
    main()
