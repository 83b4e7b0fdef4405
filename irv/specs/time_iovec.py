"""Deadline arithmetic, and consuming bytes from a scatter/gather vector."""
from z3 import (And, Or, Not, If, Implies, Int, IntVal, ForAll, Function, IntSort, Select, BoolVal)
from ..spec import *

INF = (1 << 64) - 1
NOW = Int('now')          # what the clock returns during the call
q = Int('q_i')


class TISpec(Spec):
    tu = 'time_iovec.cpp'
    assumptions = ('the clock returns one arbitrary 64-bit value per call',)

    def on_attach(self):
        self.classes = {
            'iovec': Cls({self.k('off_data'): To('bytes', idx=True)}, arr=True, stride=self.k('k_iovec')),
            'bytes': Cls({}, arr=True, stride=1),
            'PP': Cls({0: To('iovec', idx=True)}),
            'PC': Cls({}),
        }

    def array_bound(self, ex, S, p):
        if p.cls == 'iovec':
            E = ex.topE
            return (E.g['i0'], E.g['i0'] + E.g['n'])


class Clock(Con):
    name = r'mg::box::GetMilliseconds\(\)'
    label = 'GetMilliseconds'
    trusted = True
    why = 'the operating system clock'

    def post(self, E):
        return [('now', And(E.ret == NOW, NOW >= 0, NOW <= INF))]


def drv(fn, params, post, lab):
    class D(Con):
        name = fn
        label = lab

        def pre(self, E):
            return [('clock range', And(NOW >= 0, NOW <= INF))]

        def post(self, E):
            return post(E)
    D.params = [(p, None) for p in params]
    return D()


def sg(x, n):
    return If(x >= (1 << (n - 1)), x - (1 << n), x)


topoint = lambda v: If(NOW + v >= INF, INF, NOW + v)
TIME = [
    Clock(),
    drv('drv_duration_i32', ['v'], lambda E: [('negative becomes zero', E.ret == If(sg(E.a['v'], 32) < 0, 0, E.a['v']))], 'TimeDuration(int32)'),
    drv('drv_duration_i64', ['v'], lambda E: [('negative becomes zero', E.ret == If(sg(E.a['v'], 64) < 0, 0, E.a['v']))], 'TimeDuration(int64)'),
    drv('drv_duration_u32', ['v'], lambda E: [('value kept', E.ret == E.a['v'])], 'TimeDuration(uint32)'),
    drv('drv_duration_u64', ['v'], lambda E: [('value kept', E.ret == E.a['v'])], 'TimeDuration(uint64)'),
    drv('drv_duration_to_point', ['v'], lambda E: [('now + duration, saturating at infinity', E.ret == topoint(E.a['v']))], 'TimeDuration::ToPointFromNow'),
    drv('drv_limit_duration_to_point', ['v'], lambda E: [('now + duration, saturating at infinity', E.ret == topoint(E.a['v']))], 'TimeLimit(duration)::ToPointFromNow'),
    drv('drv_limit_point_to_point', ['v'], lambda E: [('the point itself', E.ret == E.a['v'])], 'TimeLimit(point)::ToPointFromNow'),
    drv('drv_limit_duration_to_duration', ['v'], lambda E: [('the duration itself', E.ret == E.a['v'])], 'TimeLimit(duration)::ToDurationFromNow'),
    drv('drv_limit_point_to_duration', ['v'], lambda E: [('rest of the time, zero if passed, infinite stays infinite',
                                                         E.ret == If(E.a['v'] == INF, INF, If(NOW >= E.a['v'], 0, E.a['v'] - NOW)))], 'TimeLimit(point)::ToDurationFromNow'),
    drv('drv_point_le', ['a', 'b'], lambda E: [('order of points', E.ret == (E.a['a'] <= E.a['b']))], 'TimePoint::operator<='),
    drv('drv_inf_point', [], lambda E: [('infinity is the greatest point', E.ret == INF)], 'theTimePointInf'),
    drv('drv_inf_duration', [], lambda E: [('infinity is the greatest duration', E.ret == INF)], 'theTimeDurationInf'),
    drv('drv_limit_none', [], lambda E: [('no limit by default', E.ret == E.ex.spec.k('k_none'))], 'TimeLimit()'),
    drv('drv_limit_reset', ['v'], lambda E: [('no limit after reset', E.ret == E.ex.spec.k('k_none'))], 'TimeLimit::Reset'),
]


class TimeSpec(TISpec):
    contracts = TIME


class Propagate(Con):
    name = r'mg::box::IOVecPropagate\(mg::box::IOVec\*&, unsigned int&, unsigned int\)'
    label = 'IOVecPropagate'
    params = [('aInOut', 'PP'), ('aInOutCount', 'PC'), ('aByteOffset', None)]

    def ghosts(self, E):
        P = Function('prefix', IntSort(), IntSort())
        sp = E.ex.spec
        b = E.S.ld('PP', 0, 'ptr', E.b('aInOut'))
        i0 = E.S.ld('PP', 0, 'ix', E.b('aInOut'))
        n = E.S.ld('PC', 0, 'i32', E.b('aInOutCount'))
        return dict(P=P, b=b, i0=i0, n=n)

    def sz(self, E, S):
        return S.arr('iovec', E.ex.spec.k('off_size'), 'i64', E.g['b'])

    def dt(self, E, S):
        o = E.ex.spec.k('off_data')
        return S.arr('iovec', o, 'ptr', E.g['b']), Select(S.get(('iovec', o, 'ix', 'A')), E.g['b'])

    def pre(self, E):
        g = E.g
        P, n, i0 = g['P'], g['n'], g['i0']
        s0 = self.sz(E, E.S0)
        return [('refs', And(E.b('aInOut') != 0, E.b('aInOutCount') != 0, n >= 0, n < (1 << 32), i0 >= 0)),
                ('vec', Or(n == 0, g['b'] != 0)),
                ('prefix sums', And(P(i0) == 0, ForAll([q], Implies(And(i0 <= q, q < i0 + n), And(P(q + 1) == P(q) + Select(s0, q), Select(s0, q) >= 0)), patterns=[P(q)]))),
                ('sizes fit', ForAll([q], Implies(And(i0 <= q, q < i0 + n), Select(s0, q) < (1 << 64)), patterns=[Select(s0, q)])),
                ('monotone (a consequence)', BoolVal(True)),
                ('no more bytes than there are', E.a['aByteOffset'] <= P(i0 + n))]

    def shape(self, E, j, delta):
        """entries before j emptied, entry j advanced by delta, the rest untouched"""
        g = E.g
        n, i0 = g['n'], g['i0']
        s0, s1 = self.sz(E, E.S0), self.sz(E, E.S)
        (d0, x0), (d1, x1) = self.dt(E, E.S0), self.dt(E, E.S)
        return [
            ('consumed entries are empty', ForAll([q], Implies(And(i0 <= q, q < j), And(Select(s1, q) == 0, Select(d1, q) == 0)), patterns=[Select(s1, q)])),
            ('entry at the cursor', Implies(j < i0 + n, And(Select(s1, j) == Select(s0, j) - delta, Implies(delta == 0, And(Select(d1, j) == Select(d0, j), Select(x1, j) == Select(x0, j))),
                                                           Implies(delta > 0, And(Select(d1, j) == Select(d0, j), Select(x1, j) == Select(x0, j) + delta))))),
            ('entries behind', ForAll([q], Implies(Or(q < i0, q > j), And(Select(s1, q) == Select(s0, q), Select(d1, q) == Select(d0, q), Select(x1, q) == Select(x0, q))), patterns=[Select(s1, q)])),
        ]

    def post(self, E):
        g = E.g
        P, n, i0 = g['P'], g['n'], g['i0']
        ob = E.S.ld('PP', 0, 'ptr', E.b('aInOut'))
        j = E.S.ld('PP', 0, 'ix', E.b('aInOut'))
        c = E.S.ld('PC', 0, 'i32', E.b('aInOutCount'))
        s0 = self.sz(E, E.S0)
        off = E.a['aByteOffset']
        return [('same array', ob == g['b']), ('count matches the cursor', c == n - (j - i0)), ('cursor in range', And(i0 <= j, j <= i0 + n)),
                ('exactly the offset is consumed', And(P(j) <= off, Or(P(j) == off, And(j < i0 + n, off - P(j) < Select(s0, j))))),
                ] + self.shape(E, j, off - P(j))

    def modifies(self, E):
        o1, o2 = E.ex.spec.k('off_data'), E.ex.spec.k('off_size')
        b = [E.g['b']]
        return {('PP', 0, 'ptr'): [E.b('aInOut')], ('PP', 0, 'ix'): [E.b('aInOut')], ('PC', 0, 'i32'): [E.b('aInOutCount')],
                ('iovec', o1, 'ptr', 'A'): b, ('iovec', o1, 'ix', 'A'): b, ('iovec', o2, 'i64', 'A'): b}

    def inv(E):
        self = PROP
        g = E.g
        P, n, i0 = g['P'], g['n'], g['i0']
        cur, cnt, off = E.r['cursor'], E.r['count'], E.r['aByteOffset']
        j = cur.idx
        return [('cursor', And(cur.base == g['b'], i0 <= j, j <= i0 + n, cnt == n - (j - i0))),
                ('rest', And(off >= 0, off == E.a['aByteOffset'] - P(j)))] + self.shape(E, j, IntVal(0))

    loops = [Loop({'cursor': 'ptr', 'count': 'i32', 'aByteOffset': 'i32'}, inv, lambda E: E.r['count'], cls={'cursor': 'iovec'})]


PROP = Propagate()


class IOVecSpec(TISpec):
    contracts = [PROP]


SPEC = [TimeSpec, IOVecSpec]
