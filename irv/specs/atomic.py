"""Atomic<T>: each method is exactly one atomic operation on the value - the named one, with
at least the named memory order - and returns what its name says, for every value, with
wrap-around arithmetic of the type."""
import re

from z3 import And, Or, Not, If, Implies, Int, IntVal, Select, BoolVal
from ..spec import *
from ..rg import RG, RCon

ORD = {'Relaxed': ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'), 'Acquire': ('acquire', 'acq_rel', 'seq_cst'),
       'Release': ('release', 'acq_rel', 'seq_cst'), 'AcqRel': ('acq_rel', 'seq_cst'), '': ('seq_cst',)}
TYPES = {'AtomicU8': 8, 'AtomicU16': 16, 'AtomicU32': 32, 'AtomicU64': 64, 'AtomicI8': 8, 'AtomicI16': 16, 'AtomicI32': 32, 'AtomicI64': 64,
         'AtomicBool': 8, 'AtomicVoidPtr': 64}


class AtSpec(RG):
    tu = 'atomic.cpp'
    ghost_sorts = dict(n=I, w=I, seen=I, left=I)
    assumptions = ('std::atomic operations are what the C++ standard says (compiled to LLVM atomic instructions)',)

    def on_attach(self):
        self.classes = {a: Cls({0: To('Any')} if a == 'AtomicVoidPtr' else {}) for a in TYPES}
        self.classes['Any'] = Cls({})
        self.classes['E'], self.classes['EP'] = Cls({}), Cls({0: To('Any')})
        self.shared = tuple((a, 0, 'ptr' if a == 'AtomicVoidPtr' else 'i%d' % b) for a, b in TYPES.items())

    def check(self, ex, S, what):
        pass

    def touch(self, ex, S, order):
        c = ex.contract
        ex.prove(S, BoolVal(order in ORD[c.ord]), 'memory order is at least the named one (is %s)' % order, ex.cur_loc, 'order')
        S.ghost['n'] = S.ghost['n'] + 1

    @staticmethod
    def val(v):
        return v.base if isinstance(v, Ptr) else v

    def on_read(self, ex, S, p, val, order):
        self.touch(ex, S, order)
        S.ghost['seen'] = self.val(val)

    def on_write(self, ex, S, pre, p, old, new, order, op):
        self.touch(ex, S, order)
        g = S.ghost
        g['w'] = g['w'] + 1
        g['seen'], g['left'] = self.val(old), self.val(new)

    def on_cas_fail(self, ex, S, p, val, order):
        g = S.ghost
        g['n'] = g['n'] + 1
        g['seen'] = self.val(val)


class AC(RCon):
    def __init__(self, a, op, o):
        self.a_, self.op, self.ord = a, op, o
        self.bits = TYPES[a]
        self.name = 'drv_%s_%s%s' % (a, op, o)
        self.label = '%s::%s%s' % (a, op, o)
        one = op.startswith('Load') or 'Increment' in op or 'Decrement' in op
        self.params = [('a', a)] + ([('e', 'EP' if a == 'AtomicVoidPtr' else 'E')] if op.startswith('Cmp') else []) + ([] if one else [('v', 'Any' if a == 'AtomicVoidPtr' else None)])

    def exp(self, E, S):
        return Select(S.get(('EP' if self.a_ == 'AtomicVoidPtr' else 'E', 0, 'ptr' if self.a_ == 'AtomicVoidPtr' else 'i%d' % self.bits)), E.b('e'))

    def pre(self, E):
        g = E.S.ghost
        out = [('object', E.b('a') != 0), ('ghosts', And(g['n'] == 0, g['w'] == 0))]
        if 'e' in E.a:
            e = self.exp(E, E.S)
            out.append(('expected', And(E.b('e') != 0, e >= 0, e < (1 << self.bits))))
        if self.a_ == 'AtomicBool':
            if 'e' in E.a:
                out.append(('expected', self.exp(E, E.S) <= 1))
        return out

    def post(self, E):
        g = E.S.ghost
        M = 1 << self.bits
        wrap = lambda x: If(x >= M, x - M, If(x < 0, x + M, x))
        v = E.a.get('v')
        if isinstance(v, Ptr):
            v = v.base
        if v is not None and z3.is_bool(v):
            v = If(v, 1, 0)
        r = E.ret
        if isinstance(r, Ptr):
            r = r.base
        if r is not None and z3.is_bool(r) and not self.op.startswith('Cmp'):
            r = If(r, 1, 0)
        out = [('exactly one access', g['n'] == 1)]
        old, new = g['seen'], g['left']
        if self.a_ == 'AtomicBool':
            low = lambda x: x % 2
        else:
            low = lambda x: x
        op = self.op
        if op == 'Load':
            return out + [('nothing is written', g['w'] == 0), ('returns the value', low(old) == r)]
        if op.startswith('CmpExchg'):
            e0, e1 = self.exp(E, E.S0), self.exp(E, E.S)
            out += [('writes exactly if successful', g['w'] == If(r, 1, 0)), ('success: the expected value is replaced', Implies(r, And(old == e0, new == v, e1 == e0))),
                    ('failure: the value is reported', Implies(Not(r), low(e1) == low(old)))]
            if 'Strong' in op:
                out.append(('fails only if the value differs', Implies(Not(r), old != e0)))
            return out
        fetched = None
        if 'Exchange' in op or op == 'Store':
            exp = v
        elif 'Add' in op:
            exp = wrap(old + v)
        elif 'Sub' in op:
            exp = wrap(old - v)
        elif 'Increment' in op:
            exp = wrap(old + 1)
        elif 'Decrement' in op:
            exp = wrap(old - 1)
        else:
            exp = E.ex.binop(E.S, 'or' if op.endswith('Or') else 'and', 'i%d' % self.bits, old, v)
        if op.startswith('Fetch') or op == 'Exchange':
            fetched = old
        elif op.endswith('Fetch'):
            fetched = new
        out += [('written once', And(g['w'] == 1, new == exp))]
        if fetched is not None:
            out.append(('returned value', r == low(fetched)))
        return out


def methods(a):
    out = [AC(a, 'Load', o) for o in ('Relaxed', 'Acquire', '')] + [AC(a, 'Store', o) for o in ('Relaxed', 'Release', '')]
    A3, B3 = ('Relaxed', 'AcqRel', 'Release', ''), ('Relaxed', 'Acquire', 'Release', '')
    out += [AC(a, 'Exchange', o) for o in A3]
    out += [AC(a, 'CmpExchg' + w, o) for w in ('Weak', 'Strong') for o in ('Relaxed', 'Acquire', 'AcqRel', 'Release', '')]
    if a not in ('AtomicBool', 'AtomicVoidPtr'):
        for n in ('FetchAdd', 'AddFetch', 'Add', 'FetchSub', 'SubFetch', 'Sub', 'Increment', 'FetchIncrement', 'IncrementFetch', 'Decrement', 'FetchDecrement', 'DecrementFetch'):
            out += [AC(a, n, o) for o in A3]
        for n in ('FetchBitOr', 'BitOr', 'FetchBitAnd', 'BitAnd'):
            out += [AC(a, n, o) for o in B3]
        out.append(Wide(a))
    return out + [New(a)]


class Wide(AC):
    def __init__(self, a):
        AC.__init__(self, a, 'Load', 'Relaxed')
        self.name = 'drv_%s_wide' % a
        self.label = '%s (value range)' % a

    def post(self, E):
        v = E.S.ghost['seen']
        signed = self.a_[6] == 'I'
        return [('the value has the range of the type', E.ret == (If(v >= (1 << (self.bits - 1)), v - (1 << self.bits) + (1 << 64), v) if signed else v))]


class New(AC):
    def __init__(self, a):
        AC.__init__(self, a, 'Store', 'Relaxed')
        self.name = 'drv_%s_new' % a
        self.label = '%s()' % a

    def pre(self, E):
        return [('object', E.b('a') != 0)]

    def post(self, E):
        k = (self.a_, 0, 'ptr' if self.a_ == 'AtomicVoidPtr' else 'i%d' % self.bits)
        v = E.a['v']
        v = v.base if isinstance(v, Ptr) else If(v, 1, 0) if z3.is_bool(v) else v
        return [('initial value', Select(E.S.get(k), E.b('a')) == v)]


class AtFns(AtSpec):
    contracts = [m for a in TYPES for m in methods(a) if not isinstance(m, New)]


class AtNew(AtSpec):
    def on_attach(self):
        AtSpec.on_attach(self)
        self.shared = ()
    contracts = [New(a) for a in TYPES]


SPEC = [AtFns, AtNew]
