"""Runs the check of one property:  python3-vt -m harness.run C01 quick"""
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import z3  # noqa: E402
from pysym.core import (E, EngineSignal, SymBool, Unsupported,  # noqa: E402
                        s_and, s_not)
from harness import ctx as C  # noqa: E402
from harness import env  # noqa: E402


class Job:
    """One shape: a harness function and its concrete parameters."""

    def __init__(self, name, fn, budget=None, max_paths=None, validate=None,
                 set_orders=False, **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.budget = budget
        self.max_paths = max_paths
        self.validate = validate
        self.set_orders = set_orders


def prop_module(pid):
    return importlib.import_module('harness.props.' + pid.lower())


def input_values(cx):
    return {k: E.ev(v).as_long() for k, v in cx.inputs.items()
            if not isinstance(v, int)}


def run_concrete(job, values):
    cx = C.Ctx(values)
    try:
        job.fn(cx, **job.params)
    except C.AssumeFailed as e:
        return cx, 'assume', str(e)
    except C.Inconclusive as e:
        return cx, 'inconclusive', str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return cx, 'oracle', 'oracle raised %s: %s (%s:%d)' % (
            type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename),
            tb[-1].lineno)
    return cx, 'done', ''


def run_job(args):
    pid, tier, idx, deadline, seed = args
    mod = prop_module(pid)
    job = mod.jobs(tier)[idx]
    E.reset_all()
    E.functions.clear()
    env.loader()
    E.set_orders = job.set_orders
    t0 = time.time()
    budget = job.budget or (60 if tier == 'quick' else 600)
    dl = min(deadline, t0 + budget)
    out = dict(job=job.name, cands=[], covers=[], samples=[], mismatches=[],
               validated=0, inconclusive=[], oracle=[], labels={})
    covers = set()
    rnd = random.Random(seed * 1000 + idx)
    nval = job.validate if job.validate is not None else (
        4 if tier == 'quick' else 12)
    cur = {}

    def fn():
        cx = C.Ctx()
        cur['cx'] = cx
        cur['oracle'] = None
        cur['inc'] = None
        try:
            job.fn(cx, **job.params)
        except EngineSignal:
            raise
        except C.Inconclusive as e:
            cur['inc'] = str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            cur['oracle'] = 'oracle raised %s: %s (%s:%d)' % (
                type(e).__name__, str(e)[:200],
                os.path.basename(tb[-1].filename), tb[-1].lineno)

    def cand(label, vals=None):
        v = input_values(cur['cx']) if vals is None else vals
        if len(out['cands']) < 3:
            out['cands'].append(dict(property=pid, tier=tier, job=job.name,
                                     label=label, values=v))

    def on_path(status):
        cx = cur['cx']
        if status == 'infeasible':
            return None
        if status != 'done':
            # the path left the modelled fragment: replay its model for real
            vals = input_values(cx)
            c2, st, msg = run_concrete(job, vals)
            if st == 'done' and c2.failed:
                cand(c2.failed[0], vals)
            elif st == 'oracle':
                cand(msg, vals)
            return 'stop' if len(out['cands']) >= 3 else None
        if cur['inc']:
            out['inconclusive'].append(cur['inc'])
            return None
        covers.update(cx.covers)
        C.GLOBAL_COVER.update(cx.covers)
        pend = []
        for label, cond in cx.checks:
            out['labels'][label] = out['labels'].get(label, 0) + 1
            E.stats['obligations'] += 1
            if cond is True:
                E.stats['trivially_true'] += 1
                E.stats['discharged'] += 1
            elif cond is False:
                cand(label)
            else:
                pend.append((label, cond.e))
        if cur['oracle']:
            cand(cur['oracle'])
        vals0 = None
        if pend:
            bad = [l for l, e in pend if not z3.is_true(E.ev(e))]
            if bad:
                cand(bad[0])
            else:
                vals0 = input_values(cx)
                obs0 = None
                neg = z3.Or(*[z3.Not(e) for _, e in pend]) if len(pend) > 1 \
                    else z3.Not(pend[0][1])
                keep = E.model
                r, m = E._check(neg)
                if r == 'unsat':
                    E.stats['discharged'] += len(pend)
                elif r == 'sat':
                    E.model = m
                    bad = [l for l, e in pend if not z3.is_true(E.ev(e))]
                    cand(bad[0] if bad else pend[0][0])
                    E.model = keep
                else:
                    # one by one
                    for l, e in pend:
                        r, m = E._check(z3.Not(e))
                        if r == 'unsat':
                            E.stats['discharged'] += 1
                        elif r == 'sat':
                            E.model = m
                            cand(l)
                            E.model = keep
                        else:
                            out['inconclusive'].append('unknown: ' + l)
        n = E.stats['paths']
        if nval and (n <= 2 or rnd.random() < 3.0 * nval / (n + 3 * nval)) \
                and out['validated'] < nval * 3:
            vals = input_values(cx)
            c2, st, msg = run_concrete(job, vals)
            out['validated'] += 1
            if len(out['samples']) < 3:
                out['samples'].append(dict(job=job.name, inputs=vals,
                                           checks=len(cx.checks)))
            if st == 'done' and c2.failed:
                cand(c2.failed[0], vals)
            elif st == 'oracle':
                cand(msg, vals)
            elif st == 'done' and not job.set_orders:
                a = [(k, C.evalm(v)) for k, v in cx.observed]
                b = [(k, C.evalm(v)) for k, v in c2.observed]
                if a != b and len(out['mismatches']) < 3:
                    d = [k for (k, x), (k2, y) in zip(a, b) if x != y][:3]
                    out['mismatches'].append(dict(job=job.name, inputs=vals,
                                                  differ=d))
                    if os.environ.get('VERIF_DEBUG'):
                        for (k, x), (k2, y) in zip(a, b):
                            if x != y:
                                print('MISMATCH', job.name, vals, k,
                                      _diff(x, y), file=sys.stderr)
            elif st == 'assume':
                out['mismatches'].append(dict(job=job.name, inputs=vals,
                                              differ=['assume ' + msg]))
        return 'stop' if len(out['cands']) >= 3 else None

    try:
        complete = E.explore(fn, on_path, max_paths=job.max_paths,
                             deadline=dl)
    except EngineSignal as e:
        complete = False
        out['inconclusive'].append('engine: %r' % (e,))
    out['complete'] = bool(complete)
    out['covers'] = sorted(covers)
    out['stats'] = dict(E.stats)
    out['unsupported'] = dict(E.unsupported_msgs)
    out['functions'] = sorted(E.functions)
    out['wall'] = time.time() - t0
    return out


def _diff(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return {k: (x.get(k), y.get(k)) for k in set(x) | set(y)
                if x.get(k) != y.get(k)}
    if isinstance(x, str) and isinstance(y, str):
        for i, (a, b) in enumerate(zip(x.split('\n'), y.split('\n'))):
            if a != b:
                return (i, a, b)
    return (x, y)


# Time after which no further job is explored (0: none), set when a violation
# is confirmed.
STOP = mp.Value('d', 0.0)
GRACE = 60


def confirmed(cands, pid, tier):
    """One of the first counterexamples fails on the unmodified code."""
    for c in cands[:2]:
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%s-early.json'
                            % (pid, tier))
        with open(path, 'w') as f:
            json.dump(c, f, indent=1)
        try:
            if replay_file(path, 60)[0] == 1:
                return True
        except subprocess.TimeoutExpired:
            pass
    return False


def _work(a):
    try:
        if STOP.value:
            a = a[:3] + (min(a[3], STOP.value),) + a[4:]
        return run_job(a)
    except BaseException as e:
        return dict(job='#%d' % a[2], error='%s\n%s' % (
            e, traceback.format_exc()))


def replay_file(path, timeout=240):
    env_ = dict(os.environ)
    p = subprocess.run([sys.executable, '-m', 'harness.replay', path],
                       cwd=HERE, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, env=env_,
                       text=True)
    return p.returncode, p.stdout


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    total = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick'
                                 else 7200))
    mod = prop_module(pid)
    jobs = mod.jobs(tier)
    idxs = [i for i, j in enumerate(jobs) if only is None or only in j.name]
    load_err = None
    try:
        env.loader()
    except Exception as e:
        load_err = 'cannot load the code under test: %r' % (e,)
    results = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    if load_err is None:
        nproc = int(os.environ.get('VERIF_PROCS', '8'))
        args = [(pid, tier, i, t0 + total, seed) for i in idxs]
        if nproc <= 1:
            results = [_work(a) for a in args]
        else:
            with mp.get_context('fork').Pool(min(nproc, max(1, len(args)))) \
                    as pool:
                for r in pool.imap_unordered(_work, args, chunksize=1):
                    results.append(r)
                    if not STOP.value and r.get('cands') and confirmed(
                            r['cands'], pid, tier):
                        STOP.value = time.time() + GRACE
    else:
        print('ERROR: ' + load_err)
        sys.exit(2)
    errors = [r for r in results if 'error' in r]
    results = [r for r in results if 'error' not in r]
    results.sort(key=lambda r: r['job'])

    # replay the counterexamples on the unmodified code in a fresh process
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    violations, spurious = [], []
    for r in results:
        for c in r['cands']:
            if len(violations) >= 5 or time.time() > t0 + total + (
                    40 if violations else 90):
                break
            n = len(violations) + len(spurious)
            path = os.path.join(HERE, 'evidence', 'replay', '%s-%s-%d.json'
                                % (pid, tier, n))
            with open(path, 'w') as f:
                json.dump(c, f, indent=1)
            try:
                rc, txt = replay_file(path, max(20, min(
                    240, t0 + total + 90 - time.time())))
            except subprocess.TimeoutExpired:
                rc, txt = 99, 'replay timed out'
            c['replay'] = path
            c['replay_output'] = txt[-600:]
            (violations if rc == 1 else spurious).append(c)

    covers = set()
    for r in results:
        covers.update(r['covers'])
    want = set(getattr(mod, 'COVERS', []))
    missing = sorted(want - covers) if only is None else []
    agg = {}
    for r in results:
        for k, v in r['stats'].items():
            agg[k] = agg.get(k, 0) + v
    validated = sum(r['validated'] for r in results)
    mism = [m for r in results for m in r['mismatches']]
    incomplete = [r['job'] for r in results if not r['complete']]
    unsup = {}
    for r in results:
        for k, v in r['unsupported'].items():
            unsup[k] = unsup.get(k, 0) + v
    inc = [x for r in results for x in r['inconclusive']]
    funcs = sorted({f for r in results for f in r['functions']})
    samples = [s for r in results for s in r['samples']]
    random.Random(seed).shuffle(samples)
    known = list(getattr(mod, 'KNOWN', []))
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg.get('paths', 0),
            transitions=agg.get('branches', 0),
            traces_validated_against_impl=validated,
            samples=samples[:8] + [
                dict(counterexample=c) for c in violations[:3]],
            solver=dict(name='z3 ' + z3.get_version_string(),
                        queries=agg.get('queries', 0),
                        seconds=round(agg.get('solver_s', 0.0), 2),
                        unknown=agg.get('unknown', 0)),
            obligations=agg.get('obligations', 0),
            obligations_discharged=agg.get('discharged', 0),
            forks=agg.get('forks', 0),
            jobs=[dict(job=r['job'], paths=r['stats']['paths'],
                       queries=r['stats']['queries'],
                       complete=r['complete'], wall_s=round(r['wall'], 1))
                  for r in results],
            functions_encoded=funcs,
            bounds=getattr(mod, 'BOUNDS', ''),
            outside=getattr(mod, 'OUTSIDE', ''),
            reached=sorted(covers), not_reached=missing,
            incomplete_jobs=incomplete, unsupported=unsup,
            inconclusive=inc[:10], model_mismatches=mism[:5],
            spurious=[{k: c[k] for k in ('job', 'label', 'values')}
                      for c in spurious[:3]]),
        assumptions=[
            'acetime.ZoneProcessor is a stub (package not installed)',
            'logging has no effect; files are in-memory while symbolic',
            'Python semantics as encoded by /verif/pysym, cross-checked by '
            'the validated traces'] + list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s %s: %d jobs, %d paths, %d branches, %d obligations '
          '(%d discharged), %d queries, %.1f s solver, %d traces validated, '
          '%.1f s' % (pid, tier, len(results), agg.get('paths', 0),
                      agg.get('branches', 0), agg.get('obligations', 0),
                      agg.get('discharged', 0), agg.get('queries', 0),
                      agg.get('solver_s', 0.0), validated,
                      time.time() - t0))
    if os.environ.get('VERIF_JOBS'):
        for r in results:
            print('  job %s paths=%d queries=%d complete=%s %.1fs' % (
                r['job'], r['stats']['paths'], r['stats']['queries'],
                r['complete'], r['wall']))
    for r in results:
        if not r['stats']['paths'] and r['complete']:
            print('EMPTY: job %s has no feasible path' % r['job'])
    for x in incomplete:
        print('INCOMPLETE: job %s was not explored to the end' % x)
    for k, v in sorted(unsup.items()):
        print('UNSUPPORTED (%d paths): %s' % (v, k))
    for x in sorted(set(inc))[:5]:
        print('INCONCLUSIVE: %s' % x)
    for x in missing:
        print('NOT-REACHED: %s' % x)
    for m in mism[:3]:
        print('MODEL-MISMATCH: %s' % json.dumps(m))
    for c in spurious[:3]:
        print('SPURIOUS (does not replay): job %s: %s %s\n%s' % (
            c['job'], c['label'], json.dumps(c['values']),
            c.get('replay_output', '')))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for c in violations:
        print('  %s: %s with %s' % (c['job'], c['label'],
                                    json.dumps(c['values'])))
        print('VIOLATION property=%s replay=%s' % (pid, c['replay']))
    if violations:
        sys.exit(1)
    for e in errors:
        print('ERROR: %s' % e['error'])
    if errors or not results:
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
