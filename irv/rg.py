"""Rely/guarantee layer: sequentially consistent interleaving of atomic steps with an
unbounded number of other threads, per-function.

Before every atomic access of a shared cell (and every blocking primitive) the
environment takes an arbitrary number of steps: all shared cells and shared ghosts
are replaced by arbitrary ones related to the old by rely() and satisfying inv().
After every write of a shared cell the ghost state is updated and inv() and the
transition (guarantee) are obligations.  A weak compare-exchange may fail spuriously.
Memory orders are obligations at the places where data is published or taken over;
plain (non atomic) accesses must satisfy may_access() (ownership), which is what makes
them free of data races.
"""
import re

import z3

from .sym import Split, P2I, Unsupported, PathEnd, NULL, Ptr, fresh, I, B, ARR
from .spec import Spec, Con

REL = ('release', 'acq_rel', 'seq_cst')
ACQ = ('acquire', 'acq_rel', 'seq_cst')


class RG(Spec):
    shared = ()          # keys of shared atomic cells
    env_cells = ()       # other cells the environment may change
    env_ghosts = ()      # ghosts the environment may change
    ghost_sorts = {}     # name -> sort (all ghosts)
    handlers = ()        # [(regex over demangled name, method name)]  assumed primitives
    assumptions = ('shared memory is sequentially consistent apart from the memory-order obligations stated in the contracts',)

    def shared_keys(self):
        return list(self.shared)

    def init_state(self, ex, S):
        for n, so in self.ghost_sorts.items():
            S.ghost[n] = z3.Const('gh0_' + n, so)

    # to be supplied -------------------------------------------------------------------
    def inv(self, S, E=None):
        return []

    def rely(self, S0, S):
        return []

    def on_write(self, ex, S, pre, p, old, new, order, op):
        """ghost update after an atomic write; obligations via ex.prove"""

    def on_read(self, ex, S, p, val, order):
        pass

    def on_cas_fail(self, ex, S, p, val, order):
        pass

    # ----------------------------------------------------------------------------------
    def is_shared(self, p):
        return (p.cls, p.off) in {(k[0], k[1]) for k in self.shared_keys()}

    def frame_exempt(self, k):
        return k in self.shared_keys() or k in self.env_cells

    def interfere(self, ex, S):
        S0 = S.clone()
        for k in list(self.shared_keys()) + list(self.env_cells):
            S.havoc(k)
        for g in self.env_ghosts:
            S.ghost[g] = fresh('gh_' + g, S.ghost[g].sort())
        for lab, f in self.rely(S0, S):
            ex.assume(S, f)
        for lab, f in self.inv(S):
            ex.assume(S, f)

    def check(self, ex, S, what):
        for lab, f in self.inv(S):
            ex.prove(S, f, '%s keeps invariant: %s' % (what, lab), ex.cur_loc, 'invariant')

    def wrote(self, ex, S, pre, p, old, new, order, op):
        self.on_write(ex, S, pre, p, old, new, order, op)
        self.check(ex, S, op)

    def shared_load(self, ex, S, p, ty, order):
        if not self.is_shared(p):
            return None
        if order is None:
            ex.prove(S, z3.BoolVal(False), 'shared cell is read atomically', ex.cur_loc, 'race')
        self.interfere(ex, S)
        v = ex.raw_load(S, p, ty)
        self.on_read(ex, S, p, v, order)
        return v

    def shared_store(self, ex, S, p, ty, v, order):
        if not self.is_shared(p):
            return False
        if order is None:
            ex.prove(S, z3.BoolVal(False), 'shared cell is written atomically', ex.cur_loc, 'race')
        self.interfere(ex, S)
        old = ex.raw_load(S, p, ty)
        pre = S.clone()
        ex.raw_store(S, p, ty, v)
        self.wrote(ex, S, pre, p, old, v, order, 'store')
        return True

    def shared_cmpxchg(self, ex, S, p, ty, cmp, new, order, ins):
        if not self.is_shared(p):
            return Spec.shared_cmpxchg(self, ex, S, p, ty, cmp, new, order, ins)
        succ, fail, weak = ins.extra
        self.interfere(ex, S)
        old = ex.raw_load(S, p, ty)
        eq = ex.peq(old, cmp) if ty == 'ptr' else old == cmp
        alts = [(eq, True), (z3.BoolVal(True) if weak else z3.Not(eq), False)]
        alts = [(c, v) for c, v in alts if ex.feasible(S, c)]

        def apply(c2, S2, v):
            c2.fr[ins.dst] = [P2I(old) if getattr(ins, 'as_int', False) else old, z3.BoolVal(v)]

            def later(ex2, S3):
                ex2.cur_loc = self_loc
                if v:
                    pre = S3.clone()
                    ex2.raw_store(S3, p, ty, new)
                    self.wrote(ex2, S3, pre, p, old, new, succ, 'compare-exchange')
                else:
                    self.on_cas_fail(ex2, S3, p, old, fail)
            S2.pending.append(later)
        self_loc = ex.cur_loc
        raise Split(alts, apply)

    def shared_rmw(self, ex, S, p, ty, op, v, order):
        if not self.is_shared(p):
            return Spec.shared_rmw(self, ex, S, p, ty, op, v, order)
        self.interfere(ex, S)
        old = ex.raw_load(S, p, ty)
        pre = S.clone()
        Spec.shared_rmw(self, ex, S, p, ty, op, v, order)
        new = v if op == 'xchg' else ex.raw_load(S, p, ty)
        self.wrote(ex, S, pre, p, old, new, order, 'atomic ' + op)
        return old

    def order(self, ex, S, order, kind, what):
        ok = order in (REL if kind == 'release' else ACQ)
        ex.prove(S, z3.BoolVal(ok), '%s: at least %s (is %s)' % (what, kind, order), ex.cur_loc, 'order')

    def builtin(self, name):
        d = self.dem(name)
        for rx, m in self.handlers:
            if re.fullmatch(rx, d):
                return getattr(self, m)
        return Spec.builtin(self, name)


def cursor(E, start):
    """the variable (loop phi or local) which held `start` when the loop was entered"""
    for d, v in E.phi0.items():
        if isinstance(v, Ptr) and v.base.eq(start):
            return E.phis[d]
    for k, (t, v) in E.L.locals.items():
        if isinstance(v, Ptr) and v.base.eq(start) and k in E.S.locals:
            return E.S.locals[k][1]
    raise Unsupported('no loop variable starts at %s' % start)


class RCon(Con):
    def modifies(self, E):
        return None
