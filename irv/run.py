"""Verify all contracts of a spec module; prints obligations.  (developer tool)"""
import importlib
import multiprocessing as mp
import re
import sys, os
import time
import traceback

from . import build
from .sym import Exec, Unsupported, Obl
from .ir import IRError

_G = {}


def work(arg):
    fn, ci, budget = arg
    spec, mod = _G['spec'], _G['mod']
    c = spec.contracts[ci]
    ex = Exec(mod, spec, solver_timeout=_G.get('timeout', 8000))
    ex.deadline = time.time() + budget
    t0 = time.time()
    try:
        ob = ex.verify(fn, c)
        return dict(fn=mod.dem[fn], label=c.label, obls=[o.as_dict() for o in ob], err=None, wall=time.time() - t0,
                    solver=ex.solver_time, assumptions=sorted(ex.assumptions), backends=ex.backends, paths=ex.paths)
    except (Unsupported, IRError) as e:
        return dict(fn=mod.dem[fn], label=c.label, obls=[o.as_dict() for o in ex.obls], err='unsupported: %s' % e, wall=time.time() - t0,
                    solver=ex.solver_time, assumptions=[], backends=ex.backends, paths=ex.paths)
    except Exception as e:
        return dict(fn=mod.dem[fn], label=c.label, obls=[o.as_dict() for o in ex.obls], err='internal: %s' % traceback.format_exc()[-1500:],
                    wall=time.time() - t0, solver=ex.solver_time, assumptions=[], backends=ex.backends, paths=ex.paths)


def run_spec(modname, only=None, timeout=8000, budget=240, jobs=8, select=None):
    modname, _, sub = modname.partition(':')
    m = importlib.import_module('irv.specs.' + modname)
    out = []
    specs = m.SPEC if isinstance(m.SPEC, (list, tuple)) else [m.SPEC]
    if sub:
        specs = [c for c in specs if c.__name__ == sub]
    for sc in specs:
        spec = sc()
        mod = build.compile_tu(spec.tu, spec, spec.flags)
        spec.attach(mod)
        tasks = []
        seen = set()
        for fn in sorted(mod.funcs):
            d = mod.dem[fn]
            c = spec.match(d)
            if c is None:
                continue
            seen.add(id(c))
            if not c.verify or c.trusted:
                continue
            if select is not None and not re.search(select, c.label or ''):
                continue
            # C1/C2 constructor duplicates are the same code
            if only and not any(o in (c.label or '') or o in d for o in only):
                continue
            tasks.append((fn, spec.contracts.index(c), budget))
        _G.update(spec=spec, mod=mod, timeout=timeout)
        missing = [c.label or c.name for c in spec.contracts if id(c) not in seen and c.verify and not c.trusted
                   and (select is None or re.search(select, c.label or ''))]
        if len(tasks) > 1 and jobs > 1:
            ctx = mp.get_context('fork')
            with ctx.Pool(min(jobs, len(tasks))) as pool:
                res = pool.map(work, tasks, chunksize=1)
        else:
            res = [work(t) for t in tasks]
        out.append((spec, mod, res, missing if not only else []))
    return out


def main():
    only = sys.argv[2:]
    t0 = time.time()
    for spec, mod, res, missing in run_spec(sys.argv[1], only):
        for r in res:
            bad = [o for o in r['obls'] if o['status'] != 'ok']
            print('%-50s %3d obl, %d bad, %.1fs paths=%d %s' % (r['label'], len(r['obls']), len(bad), r['wall'], r['paths'], r['err'] or ''))
            for o in bad:
                print('     ', o['status'], o['label'], o['loc'], o['detail'][:(600 if only else 100)])
        if missing:
            print('MISSING', missing)
    print('total %.1f' % (time.time() - t0))


if __name__ == '__main__':
    main()
