"""Discharge the proof obligations of one property from the current sources.

python3-vt -m pyvc.prove C01 --tier quick --seed 0 --out FILE

contracts/c01.py holds the contracts: each function decorated with @item sets up arbitrary symbolic
inputs, calls the real function (mechanically loaded from VERIF_REPO) and proves the postconditions.
Every item is run on all paths through the real code (Engine.explore).
"""
import argparse
import ast
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

import z3

from . import core
from .core import Abort, ENG, Infeasible, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
ITEMS = []


def item(name, functions=(), maxpaths=4000, budget=None):
    """register a contract; functions: qualified names of the repository functions it verifies"""
    def deco(f):
        ITEMS.append(dict(name=name, fn=f, functions=list(functions), maxpaths=maxpaths, budget=budget))
        return f
    return deco


class Rejected(Exception):
    pass


def in_repo(tb):
    """does the exception come from a raise or assert statement of the repository's own code"""
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    path = last.tb_frame.f_code.co_filename
    if not path.startswith(REPO.rstrip('/') + '/'):
        return False
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    n = last.tb_lineno
    return any(isinstance(x, (ast.Raise, ast.Assert)) and x.lineno <= n <= x.end_lineno for x in ast.walk(tree))


def by_python(e):
    """an error of the language itself in a statement of the repository: unbound local, use of None"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(REPO.rstrip('/') + '/'):
        return False
    return isinstance(e, UnboundLocalError) or (isinstance(e, (AttributeError, TypeError)) and 'NoneType' in str(e))


def returns(fn, what='returns normally'):
    """call fn; an exception raised by the repository's own statements fails an obligation"""
    try:
        return fn()
    except Exception as e:
        if not in_repo(e.__traceback__):
            raise Unsupported('%s: %s (in the model of a library call)\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-6:])))
        feas = ENG.solver.check()
        ENG.obligations.append(dict(
            name=what, result='refuted' if feas == z3.sat else 'proved' if feas == z3.unsat else 'unknown', back_end='z3', time=0.0,
            why='%s: %s; path: %s' % (type(e).__name__, e, '; '.join(str(p)[:200] for p in ENG.pc[-8:]))))
        raise Infeasible()


def raises(fn, what='raises an error', kinds=(Exception,)):
    """call fn; the obligation is that it does not return normally"""
    try:
        fn()
    except kinds as e:
        if in_repo(e.__traceback__) or by_python(e):
            ENG.obligations.append(dict(name=what, result='proved', back_end='path', time=0.0))
            ENG.back_ends['path'] = ENG.back_ends.get('path', 0) + 1
            return e
        raise Unsupported('%s: %s (in the model of a library call)' % (type(e).__name__, e))
    feas = ENG.solver.check()
    ENG.obligations.append(dict(
        name=what, result='refuted' if feas == z3.sat else 'proved' if feas == z3.unsat else 'unknown', back_end='z3', time=0.0,
        why='returned normally; path: ' + '; '.join(str(p)[:200] for p in ENG.pc[-8:])))
    return None


def run_item(it, tier, seed, deadline):
    from . import load, loops
    t0 = time.time()
    ENG.tier = tier
    ENG.deadline = min(deadline, t0 + it['budget']) if it['budget'] else deadline
    z3.set_param('smt.random_seed', seed % 1000)
    done = []
    sane = []
    err = ''
    status = 'ok'

    def path():
        L = load.Loader(REPO)
        L.package()
        it['fn'](L)
        # reached the end of the contract: this path counts, and must be consistent
        r = ENG.solver.check()
        done.append(str(r))
        if len(sane) < 3:
            sane.append(r != z3.unsat and ENG.contradictory())

    try:
        ENG.explore(path, it['maxpaths'])
    except (loops.StaleUse, loops.NeedUnroll, loops.WrongGuess) as e:
        status, err = 'unsupported', 'unsupported: loop state (%s)' % type(e).__name__
    except Unsupported as e:
        status, err = 'unsupported', '%sunsupported: %s' % (''.join(traceback.format_tb(e.__traceback__)[-6:]), e)
    except Abort as e:
        status, err = 'timeout', 'out of time: %s' % e
    except Exception as e:
        status, err = 'error', '%s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-8:]))
    obs = [dict(o, name=it['name'] + ' / ' + o['name']) for o in ENG.obligations]
    if status == 'ok':
        if not done or all(d == 'unsat' for d in done):
            status, err = 'vacuous', 'no feasible path reaches the postcondition'
        elif any(sane):
            status, err = 'vacuous', 'inconsistent facts: False was provable'
        elif not obs:
            status, err = 'vacuous', 'no obligation generated'
    return dict(
        name=it['name'], status=status, error=err, obligations=obs, functions=sorted(set(it['functions']) | ENG.functions),
        trusted=sorted(ENG.trusted), assumed=sorted(ENG.assumed), bounded=list(ENG.bounded), back_ends=ENG.back_ends,
        solver_time=ENG.solver_time, paths=ENG.paths, done=len(done), wall=time.time() - t0)


def empty(i, status, error):
    return dict(name=ITEMS[i]['name'], status=status, error=error, obligations=[], functions=[], trusted=[], assumed=[], bounded=[],
                back_ends={}, solver_time=0, paths=0, done=0, wall=0)


def worker(args):
    i, tier, seed, deadline = args
    try:
        return run_item(ITEMS[i], tier, seed, deadline)
    except BaseException as e:
        return empty(i, 'error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))


def run_pool(jobs, n, deadline):
    """all items in parallel; what is not finished soon after the deadline (or after another item failed) is given up"""
    with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
        waiting = {j[0]: pool.apply_async(worker, (j,)) for j in jobs}
        res = {}
        stop = deadline + 15
        while waiting and time.time() < stop:
            for i, r in list(waiting.items()):
                if r.ready():
                    res[i] = r.get()
                    del waiting[i]
                    if res[i]['status'] != 'ok' or any(o['result'] != 'proved' for o in res[i]['obligations']):
                        stop = min(stop, time.time() + 90)
            time.sleep(0.05)
        for i in waiting:
            res[i] = empty(i, 'timeout', 'given up')
        pool.terminate()
    return [res[j[0]] for j in jobs]


GENERAL = [
    'machine arithmetic is treated as exact real arithmetic (floating-point rounding of the computed values is not modelled)',
    'the library calls listed as trusted behave as modelled in pyvc (numpy/pandas/scipy semantics are assumed contracts)',
    'the rewriting of pyvc/load.py preserves the meaning of the source (float literals as exact decimals, loops routed through '
    'the invariant engine); CPython executes the rewritten text',
    'the SMT solver answers are trusted (z3; in the thorough tier cross-checked with cvc5)',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--out', default='')
    ap.add_argument('--item', default='')
    ap.add_argument('--limit', type=float, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    limit = a.limit or (640 if a.tier == 'thorough' else 380)
    # one module object, whether started as a script or imported by the contracts
    sys.modules['pyvc.prove'] = sys.modules['__main__']
    importlib.import_module('contracts.' + a.prop.lower())
    idx = [i for i, it in enumerate(ITEMS) if a.item in it['name']]
    deadline = t0 + limit
    jobs = [(i, a.tier, a.seed, deadline) for i in idx]
    n = min(len(jobs), int(os.environ.get('PYVC_JOBS', '6')))
    if a.v and len(jobs) == 1:
        res = [worker(j) for j in jobs]
    else:
        res = run_pool(jobs, n, deadline)
    obs = [o for r in res for o in r['obligations']]
    bad = [o for o in obs if o['result'] != 'proved']
    stat = 'proved'
    if any(o['result'] == 'refuted' for o in bad):
        stat = 'refuted'
    elif bad:
        stat = 'not-discharged'
    for r in res:
        if r['status'] != 'ok' and stat == 'proved':
            stat = r['status']
    be = {}
    for r in res:
        for k, v in r['back_ends'].items():
            be[k] = be.get(k, 0) + v
    rep = dict(
        property=a.prop, status=stat, obligations=obs, functions=sorted({f for r in res for f in r['functions']}),
        trusted_base=sorted({t for r in res for t in r['trusted']}),
        assumptions=GENERAL + sorted({t for r in res for t in r['assumed']}),
        bounded=sorted({t for r in res for t in r['bounded']}), back_ends=be,
        solver_time_s=round(sum(r['solver_time'] for r in res), 2), paths=sum(r['paths'] for r in res),
        vacuity={r['name']: dict(paths=r['paths'], completed=r['done'], obligations=len(r['obligations'])) for r in res},
        items={r['name']: dict(status=r['status'], wall=round(r['wall'], 1)) for r in res},
        error='\n'.join('%s: %s' % (r['name'], r['error']) for r in res if r['error']), wall_s=round(time.time() - t0, 2),
    )
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(rep, f, indent=1, default=repr)
    if a.v or not a.out:
        print('%s %s: %d/%d obligations, %d paths, %.1f s (solver %.1f s)' % (
            a.prop, stat, len(obs) - len(bad), len(obs), rep['paths'], rep['wall_s'], rep['solver_time_s']))
        for r in res:
            print('  %-60s %-10s %4d obl %3d paths (%d done) %.1fs' % (r['name'], r['status'], len(r['obligations']), r['paths'], r['done'], r['wall']))
            if r['error']:
                print('     ' + r['error'][-int(os.environ.get('W', '250')):])
        seen = set()
        for o in bad:
            if o['name'] not in seen and len(seen) < 6:
                seen.add(o['name'])
                print('  ', o['result'], o['name'], str(o.get('why'))[:int(os.environ.get('W', '250'))])
    return 0


if __name__ == '__main__':
    sys.exit(main())
