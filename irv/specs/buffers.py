"""Buffers and buffer streams.

A stream is a chain of buffers node(0..n-1).  Buffers 0..r hold the data to read (r = -1
when there is none), w is the first buffer with free space behind the data (w = n when
there is none, otherwise w is r or r + 1), R and F are the prefix sums of the buffers'
data and free space.  The content of the stream is the concatenation of the buffers'
data.  rep() is the representation invariant of the real fields; every operation keeps
it and is described by what it does to the chain and to the bytes.

Adding d bytes fills the free space from buffer w on, buffer after buffer (fill()), and
reading takes them from the front, buffer after buffer.
"""
import re
import z3
from z3 import (And, Or, Not, If, Implies, Int, IntVal, ForAll, Function, IntSort, Select, Store, BoolVal, K)
from ..spec import *
from ..rg import RG, RCon

BS = r'mg::net::BufferStream::'
PTR = r'mg::box::SharedPtrIntrusive<mg::net::Buffer>'
k, k2, q, x, b_ = Int('k_q'), Int('k2_q'), Int('q_q'), Int('x_q'), Int('b_q')
MEM = ('byte', 0, 'i8', 'A')
LIM = 1 << 62


class BufSpec(RG):
    tu = 'buffers.cpp'
    ghost_sorts = dict(nd=ARR, ix=ARR, n=I, gone=ARR)
    handlers = ((BS + r'PrivCheck\(\) const', 'h_check'),
                (r'mg::net::Buffer::PrivUnref\(\)', 'h_unref'),
                (r'mg::net::Buffer::PrivRef\(\)', 'h_ref'),
                (r'.*BufferCopy::NewShared<>\(\)', 'h_new'), (r'.*BufferRaw::NewShared<.*', 'h_raw'))
    assumptions = ('the buffers of a stream are referenced only by the stream; a buffer given away by its user is not touched by him any more',
                   'every buffer with free space has its memory to itself, and the memory of the caller is not the memory of a stream',
                   'less than 2^62 bytes pass through a stream at once',
                   'BufferCopy::NewShared() returns an empty buffer of theBufferCopySize bytes not used by anyone else')

    def no_inline(self, n, dem):
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def on_attach(self):
        kk = self.k
        self.o_next, self.o_pos, self.o_cap, self.o_data = kk('b_next'), kk('b_pos'), kk('b_cap'), kk('b_data')
        self.CS = kk('copy_size')
        self.kn, self.kp, self.kc = ('Buf', self.o_next, 'ptr'), ('Buf', self.o_pos, 'i32'), ('Buf', self.o_cap, 'i32')
        self.kd, self.kx = ('Buf', self.o_data, 'ptr'), ('Buf', self.o_data, 'ix')
        self.bufkeys = (self.kn, self.kp, self.kc, self.kd, self.kx)
        s = lambda f, t='ptr': ('Stream', kk('s_' + f), t)
        self.sh, self.se, self.sw, self.st = s('head'), s('rend'), s('wpos'), s('tail')
        self.srs, self.sws = s('rsize', 'i64'), s('wsize', 'i64')
        self.skeys = (self.sh, self.se, self.sw, self.st, self.srs, self.sws)
        self.classes = {
            'Buf': Cls({self.o_next: To('Buf'), self.o_data: To('byte', idx=True)}),
            'Stream': Cls({self.sh[1]: To('Buf'), self.se[1]: To('Buf'), self.sw[1]: To('Buf'), self.st[1]: To('Buf')}),
            'Ptr': Cls({0: To('Buf')}),
            'byte': Cls({}, arr=True, stride=1),
            'iovec': Cls({kk('iov_data'): To('byte', idx=True)}, arr=True, stride=kk('k_iovec')),
            'Link': Cls({kk('l_head'): To('Buf'), kk('l_next'): To('Link')}),
        }
        self.own = Function('own', IntSort(), IntSort())
        self.mo = Function('mo', IntSort(), IntSort())

    # -- the buffers' life --------------------------------------------------------------
    def on_access(self, ex, S, p, what):
        if p.local is None and p.cls == 'Buf':
            ex.prove(S, Select(S.ghost['gone'], p.base) == 0, 'the buffer was not released before (%s)' % what, ex.cur_loc, 'safety')

    def h_check(self, ex, ctx, S, v, ins):
        return None

    def h_unref(self, ex, ctx, S, v, ins):
        p = v[0].base
        g = S.ghost
        ex.prove(S, Select(g['gone'], p) == 0, 'a reference is dropped once', ex.cur_loc, 'safety')
        # a buffer releases the ones behind it, too
        g['gone'] = If(Select(S.get(self.kn), p) == 0, Store(g['gone'], p, IntVal(1)), K(IntSort(), IntVal(1)))

    def h_ref(self, ex, ctx, S, v, ins):
        raise Unsupported('a second reference to a buffer of a stream')

    def h_new(self, ex, ctx, S, v, ins):
        g = S.ghost
        c = fresh('buf')
        m = fresh('bufmem')
        nd, n = g['nd'], g['n']
        ex.assume(S, And(c != 0, self.own(c) == 9, m != 0, self.mo(m) == c))
        ex.assume(S, ForAll([k], Implies(And(0 <= k, k < n), Select(nd, k) != c), patterns=[Select(nd, k)]))
        for key, val in ((self.kn, 0), (self.kp, 0), (self.kc, self.CS), (self.kd, m), (self.kx, 0)):
            S.set(key, Store(S.get(key), c, val if not isinstance(val, int) else IntVal(val)))
        g['gone'] = Store(g['gone'], c, IntVal(0))
        g['nd'] = Store(nd, n, c)
        g['ix'] = Store(g['ix'], c, n)
        g['n'] = n + 1
        ex.raw_store(S, v[0], 'ptr', Ptr(c, 0, 'Buf', None))

    def h_raw(self, ex, ctx, S, v, ins):
        d, z = ex.raw_load(S, v[1], 'ptr'), ex.raw_load(S, v[2], 'i32')
        self.h_new(ex, ctx, S, v, ins)
        c = Select(S.ghost['nd'], S.ghost['n'] - 1)
        for key, val in ((self.kp, z), (self.kc, z), (self.kd, d.base), (self.kx, d.idx)):
            S.set(key, Store(S.get(key), c, val))

    def memcpy(self, ex, S, d, s, n):
        if d.cls != 'byte' or s.cls != 'byte':
            raise Unsupported('memcpy of %s to %s' % (s.cls, d.cls))
        M = S.get(MEM)
        ex.prove(S, Implies(n > 0, Or(d.base != s.base, d.idx + n <= s.idx, s.idx + n <= d.idx)), 'memcpy does not overlap', ex.cur_loc, 'safety')
        row = z3.Const('row!%d' % ex_id(), ARR)
        ex.assume(S, ForAll([q], Select(row, q) == If(And(d.idx <= q, q < d.idx + n), Select(Select(M, s.base), s.idx + (q - d.idx)), Select(Select(M, d.base), q)),
                            patterns=[Select(row, q)]))
        self.copy_into(ex, S, d, n)
        S.set(MEM, Store(M, d.base, row))

    def copy_into(self, ex, S, d, n):
        """the target is the space of a buffer or the caller's memory"""
        E = ex.topE
        out = E.g.get('out')
        own = self.mo(d.base)
        ok = And(self.inside(S, d, n, own))
        if out is not None:
            ok = Or(ok, And(d.base == out[0], d.idx >= out[1], d.idx + n <= out[1] + out[2]))
        ex.prove(S, Implies(n > 0, ok), 'memcpy writes into the space of a buffer or into the given memory', ex.cur_loc, 'safety')

    def inside(self, S, d, n, c):
        return And(c != 0, d.base == Select(S.get(self.kd), c), Select(S.ghost['gone'], c) == 0,
                   d.idx >= Select(S.get(self.kx), c), d.idx + n <= Select(S.get(self.kx), c) + Select(S.get(self.kc), c))

    # -- the representation ------------------------------------------------------------
    def node(self, S):
        nd = S.ghost['nd']
        return lambda i: Select(nd, i)

    def chain(self, S, V, tag=1):
        """V: dict n, node, ix, R, F; the elements and their links"""
        nx, ps, cp, gone = S.get(self.kn), S.get(self.kp), S.get(self.kc), S.ghost['gone']
        n, node, ix = V['n'], V['node'], V['ix']
        t = node(k)
        pat = dict(patterns=[t]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(k) or z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(k) else {}
        rng = And(0 <= k, k < n)
        r = [('number of buffers', n >= 0),
             ('buffers are distinct', ForAll([k], Implies(rng, And(t != 0, ix(t) == k, Select(gone, t) == 0)), **pat)),
             ('links', ForAll([k], Implies(rng, Select(nx, t) == If(k + 1 < n, node(k + 1), 0)), **pat)),
             ('positions in the capacities', ForAll([k], Implies(rng, And(0 <= Select(ps, t), Select(ps, t) <= Select(cp, t), Select(cp, t) < (1 << 32))), **pat))]
        if tag is not None:
            r.append(('owner', ForAll([k], Implies(rng, self.own(t) == tag), **pat)))
        if 'R' in V:
            r += [('sum of the data', And(V['R'](IntVal(0)) == 0, ForAll([k], Implies(rng, V['R'](k + 1) == V['R'](k) + Select(ps, t)), **pat)))]
        if 'F' in V:
            r += [('sum of the free space', And(V['F'](IntVal(0)) == 0, ForAll([k], Implies(rng, V['F'](k + 1) == V['F'](k) + Select(cp, t) - Select(ps, t)), **pat)))]
        return r

    def monotone(self, V):
        """a consequence of the sums being of non-negative numbers (see Lemma)"""
        r = []
        for f in 'RF':
            if f in V:
                P = V[f]
                r.append(('prefix sums grow (%s)' % f, ForAll([k, k2], Implies(And(0 <= k, k <= k2, k2 <= V['n']), P(k) <= P(k2)), patterns=[z3.MultiPattern(P(k), P(k2))])))
        return r

    def rep(self, S, T, V, tag=1):
        n, node, r, w = V['n'], V['node'], V['r'], V['w']
        ps, cp, dp = S.get(self.kp), S.get(self.kc), S.get(self.kd)
        ld = lambda key: Select(S.get(key), T)
        free = lambda i: Select(cp, node(i)) - Select(ps, node(i))
        t = node(k)
        pat = dict(patterns=[t]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(k) else {}
        rng = And(0 <= k, k < n)
        return self.chain(S, V, tag) + [
            ('head', ld(self.sh) == If(n == 0, 0, node(IntVal(0)))),
            ('tail', ld(self.st) == If(n == 0, 0, node(n - 1))),
            ('read end', And(-1 <= r, r < n, ld(self.se) == If(r < 0, 0, node(r)))),
            ('write position', And(0 <= w, w <= n, Or(w == r, w == r + 1), ld(self.sw) == If(w == n, 0, node(w)))),
            ('write position is right behind the data', And(Implies(w == r, And(r >= 0, free(r) > 0)), Implies(And(w == r + 1, r >= 0), free(r) == 0))),
            ('data up to the read end only', ForAll([k], Implies(rng, (Select(ps, t) > 0) == (k <= r)), **pat)),
            ('buffers behind the data have space', ForAll([k], Implies(And(rng, k > r), Select(cp, t) > 0), **pat)),
            ('writable memory is exclusive', ForAll([k], Implies(rng, And(Or(self.mo(Select(dp, t)) == t, And(self.mo(Select(dp, t)) == 0, k < w)), Select(dp, t) != 0,
                                                                           Select(S.get(self.kx), t) >= 0)), **pat)),
            ('read size', ld(self.srs) == V['R'](n)),
            ('write size', ld(self.sws) == V['F'](n) - V['F'](w)),
        ]

    def lem(self, V):
        """the sums add nothing behind the data"""
        return self.monotone(V)


_id = [0]


def ex_id():
    _id[0] += 1
    return _id[0]


class BCon(RCon):
    """Contracts over one stream 'this' with the chain V (ghost constants R, F, r, w)."""
    params = [('this', 'Stream')]
    allocs = False

    def ghosts(self, E):
        R = Function('R', IntSort(), IntSort())
        F = Function('F', IntSort(), IntSort())
        return dict(R=R, F=F, r=Int('r0'), w=Int('w0'))

    def sp(self, E):
        return E.ex.spec

    def V0(self, E):
        S0 = E.S0
        nd, ix = S0.ghost['nd'], S0.ghost['ix']
        return dict(n=S0.ghost['n'], node=lambda i: Select(nd, i), ix=lambda y: Select(ix, y), R=lambda i: E.g['R'](i), F=lambda i: E.g['F'](i), r=E.g['r'], w=E.g['w'])

    def pre(self, E):
        sp = self.sp(E)
        V = self.V0(E)
        n = V['n']
        return sp.rep(E.S0, E.b('this'), V) + sp.monotone(V) + [
            ('refs', E.b('this') != 0), ('nothing behind the data (a consequence)', ForAll([k], Implies(And(V['r'] < k, k <= n), V['R'](k) == V['R'](n)), patterns=[V['R'](k)])),
            ('sizes', V['R'](n) + V['F'](n) < LIM), ('zero is no buffer', And(sp.own(IntVal(0)) == 0))] + self.pre2(E)

    def pre2(self, E):
        return []

    mine = (1, 2, 9)

    def frame(self, E, S, skip=()):
        """buffers which are not of this stream are untouched"""
        sp = self.sp(E)
        out = []
        for key in sp.bufkeys:
            a, a0 = S.get(key), E.S0.get(key)
            if not a.eq(a0):
                out.append(('other buffers are untouched %s' % (key,), ForAll([x], Implies(And(*[sp.own(x) != m_ for m_ in self.mine]), Select(a, x) == Select(a0, x)), patterns=[sp.own(x)])))
        return out

    def modifies(self, E):
        sp = self.sp(E)
        m = {key: [E.b('this')] for key in sp.skeys}
        for key in sp.bufkeys:
            m[key] = None
        m[MEM] = None
        return m

    def memframe(self, E, S):
        sp = self.sp(E)
        M, M0 = S.get(MEM), E.S0.get(MEM)
        if M.eq(M0):
            return []
        out = E.g.get('out')
        return [('other memory is untouched', ForAll([b_], Implies(And(*[sp.own(sp.mo(b_)) != m_ for m_ in self.mine if m_ != 2], b_ != (out[0] if out else 0)), Select(M, b_) == Select(M0, b_)), patterns=[sp.mo(b_)]))]


class Ctor(BCon):
    name = BS + r'BufferStream\(\)'
    label = 'BufferStream()'

    def pre(self, E):
        return [('refs', E.b('this') != 0)]

    def post(self, E):
        sp = self.sp(E)
        z = lambda i: IntVal(0)
        return sp.rep(E.S, E.b('this'), dict(n=IntVal(0), node=z, ix=z, R=z, F=z, r=IntVal(-1), w=IntVal(0)))


class Clear(BCon):
    name = BS + r'Clear\(\)'
    label = 'BufferStream::Clear'
    def post(self, E):
        sp = self.sp(E)
        z = lambda i: IntVal(0)
        h = Select(E.S0.get(sp.sh), E.b('this'))
        return sp.rep(E.S, E.b('this'), dict(n=IntVal(0), node=z, ix=z, R=z, F=z, r=IntVal(-1), w=IntVal(0))) + [
            ('the buffers are released', Implies(h != 0, Select(E.S.ghost['gone'], h) == 1))]

    def modifies(self, E):
        sp = self.sp(E)
        return {key: [E.b('this')] for key in sp.skeys}



def clamp(v, lo, hi):
    return If(v < lo, lo, If(v > hi, hi, v))


class Fill:
    """`added` bytes went into the free space starting with buffer w (all terms of the
    entry state, extended by new empty buffers behind the last one)."""

    def __init__(self, con, E):
        sp = con.sp(E)
        self.sp, self.E = sp, E
        V = con.V0(E)
        self.V = V
        self.n0, self.w, self.CS = V['n'], V['w'], sp.CS
        self.p0, self.c0, self.d0, self.x0 = (E.S0.get(key) for key in (sp.kp, sp.kc, sp.kd, sp.kx))

    def F(self, i):
        return If(i <= self.n0, self.V['F'](i), self.V['F'](self.n0) + (i - self.n0) * self.CS)

    def R(self, i):
        return If(i <= self.n0, self.V['R'](i), self.V['R'](self.n0))

    def pos0(self, i):
        return If(i < self.n0, Select(self.p0, self.V['node'](i)), 0)

    def cap0(self, i):
        return If(i < self.n0, Select(self.c0, self.V['node'](i)), self.CS)

    def off(self, i):
        return self.F(i) - self.V['F'](self.w)

    def fill(self, i, added):
        return If(i < self.w, 0, clamp(added - self.off(i), 0, self.cap0(i) - self.pos0(i)))

    def upto(self, i, added):
        return clamp(self.off(i), 0, added)

    def same_nodes(self, S):
        g = S.ghost
        if g['nd'].eq(self.E.S0.ghost['nd']):
            return []
        nd = g['nd']
        return [('the chain only grows', And(g['n'] >= self.n0, ForAll([k], Implies(And(0 <= k, k < self.n0), Select(nd, k) == self.V['node'](k)), patterns=[Select(nd, k)]))),
                ('new buffers are new', ForAll([k], Implies(And(self.n0 <= k, k < g['n']), self.sp.own(Select(nd, k)) == 9), patterns=[Select(nd, k)]))]

    def formulas(self, S, added, src=None):
        sp, g = self.sp, S.ghost
        nd, n = g['nd'], g['n']
        ps, cp, dp, xp = (S.get(key) for key in (sp.kp, sp.kc, sp.kd, sp.kx))
        t = Select(nd, k)
        rng = And(0 <= k, k < n)
        r = self.same_nodes(S)
        r += [('the data fills the free space', ForAll([k], Implies(rng, And(Select(ps, t) == self.pos0(k) + self.fill(k, added), Select(cp, t) == self.cap0(k))), patterns=[t])),
              ('the memory of the buffers is the same', ForAll([k], Implies(And(0 <= k, k < self.n0), And(Select(dp, t) == Select(self.d0, t), Select(xp, t) == Select(self.x0, t))), patterns=[t])),
              ('new buffers have own memory', ForAll([k], Implies(And(self.n0 <= k, k < n), And(sp.mo(Select(dp, t)) == t, Select(dp, t) != 0, Select(xp, t) == 0)), patterns=[t]))]
        M, M0 = S.get(MEM), self.E.S0.get(MEM)
        if src is not None:
            base, idx = src
            row = Select(M, Select(dp, t))
            rel = q - Select(xp, t)
            old = Select(Select(M0, Select(dp, t)), q)
            new = src[0](self.off(k) + rel - self.pos0(k)) if callable(src[0]) else Select(Select(M0, base), idx + self.off(k) + rel - self.pos0(k))
            r.append(('old bytes stay, new bytes are the given ones in order',
                      ForAll([k, q], Implies(And(rng, 0 <= rel, rel < self.pos0(k) + self.fill(k, added)),
                                             Select(row, q) == If(rel < self.pos0(k), old, new)), patterns=[Select(row, q)])))
        return r

    def view(self, S, added):
        """the stream after the filling: its witness for rep()"""
        sp, g = self.sp, S.ghost
        nd, ix, n = g['nd'], g['ix'], g['n']
        T = self.E.b('this')
        re_, wp = Select(S.get(sp.se), T), Select(S.get(sp.sw), T)
        return dict(n=n, node=lambda i: Select(nd, i), ix=lambda y: Select(ix, y), R=lambda i: self.R(i) + self.upto(i, added), F=lambda i: self.F(i) - self.upto(i, added),
                    r=If(re_ == 0, -1, Select(ix, re_)), w=If(wp == 0, n, Select(ix, wp)))


class OnWrite(BCon):
    name = r'mg::net::BuffersPropagateOnWrite\(mg::net::Buffer\*, unsigned long\)'
    label = 'BuffersPropagateOnWrite'
    params = [('aHead', 'Buf'), ('aSize', None)]
    ret = 'Buf'
    modular = True

    def pre(self, E):
        sp = self.sp(E)
        V = self.V0(E)
        w, n = V['w'], V['n']
        return sp.chain(E.S0, V) + sp.monotone(V) + [
            ('start', And(0 <= w, w <= n, E.b('aHead') == If(w == n, 0, V['node'](w)))),
            ('enough space', And(0 <= E.a['aSize'], E.a['aSize'] <= V['F'](n) - V['F'](w))), ('sizes', And(V['R'](n) + V['F'](n) < LIM, V['F'](w) >= 0))]

    def post(self, E):
        f = Fill(self, E)
        V = f.V
        e = V['ix'](E.ret.base)
        a = E.a['aSize']
        return f.formulas(E.S, a) + self.frame(E, E.S) + [
            ('returns the last changed', If(a == 0, E.ret.base == E.b('aHead'), And(f.w <= e, e < V['n'], E.ret.base == V['node'](e), f.off(e) < a, a <= f.off(e + 1))))]

    def modifies(self, E):
        return {self.sp(E).kp: None}

    def call_ghost(self, E):
        return dict(E.ex.topE.g)

    def inv(E):
        self = OW
        f = Fill(self, E)
        V = f.V
        added = E.a['aSize'] - E.r['aSize']
        cur = E.r['aHead'].base
        c = If(cur == 0, V['n'], V['ix'](cur))
        return [('cursor', And(f.w <= c, c <= V['n'], cur == If(c == V['n'], 0, V['node'](c)), added >= 0, added == f.off(c), E.r['aSize'] >= 0, Or(E.r['aSize'] > 0, And(added == 0, cur == E.b('aHead')))))] + f.formulas(E.S, added) + self.frame(E, E.S)

    loops = [Loop({'aHead': 'ptr', 'aSize': 'i64'}, inv, lambda E: OW.var(E), cls={'aHead': 'Buf'})]

    def var(self, E):
        V = self.V0(E)
        cur = E.r['aHead'].base
        return V['n'] - If(cur == 0, V['n'], V['ix'](cur))


OW = OnWrite()


class PropagateWritePos(BCon):
    name = BS + r'PropagateWritePos\(unsigned long\)'
    label = 'BufferStream::PropagateWritePos'
    params = [('this', 'Stream'), ('aSize', None)]

    def pre2(self, E):
        V = self.V0(E)
        return [('not more than there is space', E.a['aSize'] <= V['F'](V['n']) - V['F'](V['w']))]

    def post(self, E):
        f = Fill(self, E)
        return f.formulas(E.S, E.a['aSize']) + self.frame(E, E.S) + self.sp(E).rep(E.S, E.b('this'), f.view(E.S, E.a['aSize']))


class EnsureWriteSize(BCon):
    name = BS + r'EnsureWriteSize\(unsigned long\)'
    label = 'BufferStream::EnsureWriteSize'
    params = [('this', 'Stream'), ('aSize', None)]

    def pre2(self, E):
        return [('size', E.a['aSize'] < LIM)]

    def post(self, E):
        f = Fill(self, E)
        sp = self.sp(E)
        return f.formulas(E.S, IntVal(0)) + self.frame(E, E.S) + [('there is enough space', Select(E.S.get(sp.sws), E.b('this')) >= E.a['aSize'])] + \
            sp.rep(E.S, E.b('this'), f.view(E.S, IntVal(0)), None)

    def inv(E):
        self = EW
        f = Fill(self, E)
        sp = self.sp(E)
        T = E.b('this')
        g = E.S.ghost
        n = g['n']
        ws, tail = Select(E.S.get(sp.sws), T), Select(E.S.get(sp.st), T)
        return f.formulas(E.S, IntVal(0)) + self.frame(E, E.S) + [
            ('not yet enough', ws < E.a['aSize'])] + sp.rep(E.S, T, f.view(E.S, IntVal(0)), None)

    loops = [Loop({}, inv, lambda E: E.a['aSize'] - Select(E.S.get(EW.sp(E).sws), E.b('this')))]


EW = EnsureWriteSize()


class WriteCopy(BCon):
    name = BS + r'WriteCopy\(void const\*, unsigned long\)'
    label = 'BufferStream::WriteCopy'
    params = [('this', 'Stream'), ('aData', 'byte'), ('aSize', None)]

    def pre2(self, E):
        sp = self.sp(E)
        return [('size', And(E.a['aSize'] >= 0, E.a['aSize'] < LIM)), ('the data', And(sp.mo(E.b('aData')) == 0, E.a['aData'].idx >= 0, Implies(E.a['aSize'] > 0, E.b('aData') != 0)))]

    def src(self, E):
        return (E.b('aData'), E.a['aData'].idx)

    def post(self, E):
        f = Fill(self, E)
        return f.formulas(E.S, E.a['aSize'], self.src(E)) + self.frame(E, E.S) + self.memframe(E, E.S) + self.sp(E).rep(E.S, E.b('this'), f.view(E.S, E.a['aSize']), None)

    def inv(E):
        self = WC
        f = Fill(self, E)
        sp = self.sp(E)
        T = E.b('this')
        g = E.S.ghost
        n = g['n']
        a0 = E.a['aSize']
        added = a0 - E.r['aSize']
        ld = lambda key: Select(E.S.get(key), T)
        wp = ld(sp.sw)
        w = Select(g['ix'], wp)
        d = E.r['aData']
        V = dict(n=n, node=lambda i: Select(g['nd'], i), ix=lambda y: Select(g['ix'], y))
        return f.formulas(E.S, added, self.src(E)) + self.frame(E, E.S) + self.memframe(E, E.S) + sp.chain(E.S, V, None) + [
            ('rest', And(E.r['aSize'] > 0, E.r['aSize'] <= a0, d.base == E.b('aData'), d.idx == E.a['aData'].idx + added)),
            ('writing starts a buffer', And(f.w <= w, w < n, wp == Select(g['nd'], w), wp != 0, f.off(w) == added)),
            ('ends', And(ld(sp.sh) == Select(g['nd'], 0), ld(sp.st) == Select(g['nd'], n - 1))),
            ('sizes', And(ld(sp.srs) == f.V['R'](f.n0) + a0, ld(sp.sws) == f.F(n) - f.F(w)))]

    loops = [Loop({'aData': 'ptr', 'aSize': 'i64'}, inv, lambda E: E.r['aSize'], cls={'aData': 'byte'})]


WC = WriteCopy()



class Take:
    """`a` bytes were taken from the front of the chain, its first d buffers were dropped."""

    def __init__(self, con, E, a, V=None):
        sp = con.sp(E)
        self.sp, self.E, self.a = sp, E, a
        self.V = V or con.V0(E)
        self.p0, self.c0, self.d0, self.x0, self.nx0 = (E.S0.get(key) for key in (sp.kp, sp.kc, sp.kd, sp.kx, sp.kn))
        self.n0 = self.V['n']

    def d(self, head):
        return If(head == 0, self.n0, self.V['ix'](head))

    def take(self, i):
        return clamp(self.a - self.V['R'](i), 0, Select(self.p0, self.V['node'](i)))

    def formulas(self, S, d, released=True):
        sp, V = self.sp, self.V
        ps, cp, dp, xp, nx = (S.get(key) for key in (sp.kp, sp.kc, sp.kd, sp.kx, sp.kn))
        t = V['node'](k)
        tk = self.take(k)
        g = S.ghost
        r = [('dropped are only buffers without data', And(0 <= d, d <= self.n0, V['R'](d) <= self.a)),
             ('the bytes are taken from the front', ForAll([k], Implies(And(d <= k, k < self.n0),
                                                                      And(Select(ps, t) == Select(self.p0, t) - tk, Select(cp, t) == Select(self.c0, t) - tk,
                                                                          Select(dp, t) == Select(self.d0, t), Select(xp, t) == Select(self.x0, t) + tk)), patterns=[t])),
             ('the rest of the chain is the same', ForAll([k], Implies(And(d <= k, k < self.n0), And(Select(nx, t) == Select(self.nx0, t), Select(g['gone'], t) == 0)), patterns=[t]))]
        if released:
            r.append(('dropped buffers are released', ForAll([k], Implies(And(0 <= k, k < d), Select(g['gone'], t) == 1), patterns=[t])))
        return r

    def view(self, S, d):
        sp, V, T = self.sp, self.V, self.E.b('this')
        re_, wp = Select(S.get(sp.se), T), Select(S.get(sp.sw), T)
        return dict(n=self.n0 - d, node=lambda i: V['node'](i + d), ix=lambda y: V['ix'](y) - d, R=lambda i: clamp(V['R'](i + d) - self.a, 0, LIM),
                    F=lambda i: V['F'](i + d) - V['F'](d), r=If(re_ == 0, -1, V['ix'](re_) - d), w=If(wp == 0, self.n0 - d, V['ix'](wp) - d))


class OnRead(BCon):
    name = r'mg::net::BuffersPropagateOnRead\(' + PTR + r'&, unsigned long\)'
    label = 'BuffersPropagateOnRead'
    params = [('aHead', 'Ptr'), ('aSize', None)]
    modular = True

    def cell(self, E, S):
        p = E.a['aHead']
        return Select(S.get((p.cls, p.off, 'ptr')), p.base)

    def pre(self, E):
        sp = self.sp(E)
        V = self.V0(E)
        n = V['n']
        V = {f: V[f] for f in ('n', 'node', 'ix', 'R')}
        return sp.chain(E.S0, V) + sp.monotone(V) + [
            ('head', And(E.b('aHead') != 0, self.cell(E, E.S0) == If(n == 0, 0, V['node'](IntVal(0))))),
            ('not more than there is', And(0 <= E.a['aSize'], E.a['aSize'] <= V['R'](n))), ('sizes', V['R'](n) < LIM),
            ('data pointers', ForAll([k], Implies(And(0 <= k, k < n), And(Select(E.S0.get(sp.kd), V['node'](k)) != 0, Select(E.S0.get(sp.kx), V['node'](k)) >= 0)), patterns=[V['node'](k)]))]

    def post(self, E):
        t = Take(self, E, E.a['aSize'])
        V = t.V
        h = self.cell(E, E.S)
        d = t.d(h)
        return t.formulas(E.S, d) + self.frame(E, E.S) + [
            ('the head is in the chain', h == If(d == t.n0, 0, V['node'](d))),
            ('not more than needed is dropped', Implies(And(d > 0), V['R'](d - 1) < t.a)),
            ('a full buffer which was read is dropped', Implies(And(d < t.n0, t.a > 0, V['R'](d) < t.a, t.a == V['R'](d + 1)), Select(E.S.get(E.ex.spec.kc), V['node'](d)) > 0)),
            ('a buffer with free space stays', Implies(And(d > 0, V['R'](d) == t.a), Select(t.c0, V['node'](d - 1)) == Select(t.p0, V['node'](d - 1)))),
            ('all is taken', Implies(d < t.n0, t.a <= V['R'](d + 1)))]

    def modifies(self, E):
        sp = self.sp(E)
        p = E.a['aHead']
        return {sp.kp: None, sp.kc: None, sp.kd: None, sp.kx: None, sp.kn: None, (p.cls, p.off, 'ptr'): [p.base]}

    def call_ghost(self, E):
        return dict(E.ex.topE.g)

    def before_post(self, E):
        E.S.ghost['gone'] = fresh('gone', ARR)

    def inv(E):
        self = OR
        t = Take(self, E, IntVal(0))
        V = t.V
        a = E.a['aSize']
        h = self.cell(E, E.S)
        c = t.d(h)
        t.a = V['R'](c)
        rem = E.r['aSize']
        return [('cursor', And(0 <= c, c <= V['n'], h == If(c == V['n'], 0, V['node'](c)), rem >= 0, rem == a - V['R'](c), Implies(c > 0, And(rem > 0, V['R'](c - 1) < a))))] + t.formulas(E.S, c) + self.frame(E, E.S)

    loops = [Loop({'aSize': 'i64'}, inv, lambda E: OR.var(E))]

    def var(self, E):
        V = self.V0(E)
        h = self.cell(E, E.S)
        return V['n'] - If(h == 0, V['n'], V['ix'](h))


OR = OnRead()


class TakeCon(BCon):
    def size(self, E):
        return E.a['aSize']

    def pre2(self, E):
        V = self.V0(E)
        return [('not more than there is', And(0 <= E.a['aSize'], E.a['aSize'] <= V['R'](V['n'])))]

    def taken(self, E):
        t = Take(self, E, E.a['aSize'])
        h = Select(E.S.get(self.sp(E).sh), E.b('this'))
        d = t.d(h)
        return t.formulas(E.S, d) + self.frame(E, E.S) + self.sp(E).rep(E.S, E.b('this'), t.view(E.S, d))


class SkipData(TakeCon):
    name = BS + r'SkipData\(unsigned long\)'
    label = 'BufferStream::SkipData'
    params = [('this', 'Stream'), ('aSize', None)]

    def post(self, E):
        return self.taken(E)


class OutCon(TakeCon):
    """the first bytes of the content go to the caller's memory"""

    def ghosts(self, E):
        g = BCon.ghosts(self, E)
        g['L'] = Function('content', IntSort(), IntSort())
        g['out'] = (E.b('aData'), E.a['aData'].idx, E.a['aSize'])
        return g

    def pre2(self, E):
        sp = self.sp(E)
        V = self.V0(E)
        L = E.g['L']
        t = V['node'](k)
        S = E.S0
        x0 = Select(S.get(sp.kx), t)
        byte = Select(Select(S.get(MEM), Select(S.get(sp.kd), t)), q)
        return TakeCon.pre2(self, E) + [
            ('output', And(sp.own(sp.mo(E.b('aData'))) == 5, E.a['aData'].idx >= 0, Implies(E.a['aSize'] > 0, E.b('aData') != 0))),
            ('content (definition)', ForAll([k, q], Implies(And(0 <= k, k < V['n'], x0 <= q, q < x0 + Select(S.get(sp.kp), t)), L(V['R'](k) + q - x0) == byte), patterns=[byte]))]

    def given(self, E, S, a):
        row = Select(S.get(MEM), E.b('aData'))
        i0 = E.a['aData'].idx
        row0 = Select(E.S0.get(MEM), E.b('aData'))
        return [('the given bytes are the first bytes of the content', ForAll([q], Implies(And(i0 <= q, q < i0 + a), Select(row, q) == E.g['L'](q - i0)), patterns=[Select(row, q)])),
                ('nothing behind them is written', ForAll([q], Implies(Or(q < i0, q >= i0 + a), Select(row, q) == Select(row0, q)), patterns=[Select(row, q)]))] + self.memframe(E, S) + \
            [('the memory of the buffers is not written', ForAll([b_], Implies(b_ != E.b('aData'), Select(S.get(MEM), b_) == Select(E.S0.get(MEM), b_)), patterns=[Select(S.get(MEM), b_)]))]


class ReadData(OutCon):
    name = BS + r'ReadData\(void\*, unsigned long\)'
    label = 'BufferStream::ReadData'
    params = [('this', 'Stream'), ('aData', 'byte'), ('aSize', None)]

    def post(self, E):
        return self.taken(E) + self.given(E, E.S, E.a['aSize'])

    def inv(E):
        self = RD
        sp = self.sp(E)
        T = E.b('this')
        a = E.a['aSize']
        rem = E.r['aSize']
        t = Take(self, E, a - rem)
        V = t.V
        ld = lambda key: Select(E.S.get(key), T)
        h = ld(sp.sh)
        c = t.d(h)
        d = E.r['aData']
        return [('cursor', And(0 <= c, c < V['n'], h == V['node'](c), h != 0, rem > 0, a - rem == V['R'](c), d.base == E.b('aData'), d.idx == E.a['aData'].idx + a - rem)),
                ('sizes', And(ld(sp.srs) == V['R'](V['n']) - a, *[ld(key) == Select(E.S0.get(key), T) for key in (sp.sw, sp.st, sp.sws)])),
                ('read end', ld(sp.se) == If(V['R'](V['n']) == a, 0, Select(E.S0.get(sp.se), T)))] + t.formulas(E.S, c) + self.frame(E, E.S) + self.given(E, E.S, a - rem)

    loops = [Loop({'aData': 'ptr', 'aSize': 'i64'}, inv, lambda E: E.r['aSize'], cls={'aData': 'byte'})]


RD = ReadData()


class PeekData(OutCon):
    name = BS + r'PeekData\(void\*, unsigned long\) const'
    label = 'BufferStream::PeekData'
    params = [('this', 'Stream'), ('aData', 'byte'), ('aSize', None)]

    def post(self, E):
        return self.given(E, E.S, E.a['aSize'])

    def modifies(self, E):
        return {MEM: None}

    def inv(E):
        self = PD
        a = E.a['aSize']
        rem = E.r['aSize']
        V = self.V0(E)
        pos = E.r['pos'].base
        c = V['ix'](pos)
        d = E.r['aData']
        return [('cursor', And(0 <= c, c < V['n'], pos == V['node'](c), pos != 0, rem > 0, a - rem == V['R'](c), d.base == E.b('aData'), d.idx == E.a['aData'].idx + a - rem))] + self.given(E, E.S, a - rem)

    loops = [Loop({'aData': 'ptr', 'aSize': 'i64', 'pos': 'ptr'}, inv, lambda E: E.r['aSize'], cls={'aData': 'byte', 'pos': 'Buf'})]


PD = PeekData()


class PopData(BCon):
    name = BS + r'PopData\(\)'
    label = 'BufferStream::PopData'
    params = [('ret', 'Ptr'), ('this', 'Stream')]

    def pre2(self, E):
        return [('ret', E.b('ret') != 0)]

    def post(self, E):
        sp = self.sp(E)
        V = self.V0(E)
        r, n = V['r'], V['n']
        d = r + 1
        res = Select(E.S.get(('Ptr', 0, 'ptr')), E.b('ret'))
        t = Take(self, E, IntVal(0))
        W = t.view(E.S, d)
        W['R'] = lambda i: V['R'](i + d) - V['R'](d)
        nx = E.S.get(sp.kn)
        tk = V['node'](k)
        return sp.rep(E.S, E.b('this'), W) + [
            ('the result is the data', res == If(r < 0, 0, V['node'](IntVal(0)))),
            ('the result is only the data, in order', ForAll([k], Implies(And(0 <= k, k <= r), And(Select(nx, tk) == If(k == r, 0, V['node'](k + 1)), Select(E.S.ghost['gone'], tk) == 0)), patterns=[tk]))] + self.frame(E, E.S)

    def modifies(self, E):
        sp = self.sp(E)
        m = {key: [E.b('this')] for key in sp.skeys}
        m[sp.kn] = None
        m[('Ptr', 0, 'ptr')] = [E.b('ret')]
        return m


class WriteRef(BCon):
    name = BS + r'WriteRef\(' + PTR + r'&&\)'
    label = 'BufferStream::WriteRef'
    params = [('this', 'Stream'), ('aHead', 'Ptr')]

    def ghosts(self, E):
        g = BCon.ghosts(self, E)
        f = lambda nm: Function(nm + '_s', IntSort(), IntSort())
        g['s'] = dict(n=Int('n_s'), node=f('node'), ix=f('ix'), R=f('R'), F=f('F'))
        return g

    def pre2(self, E):
        sp = self.sp(E)
        s = E.g['s']
        V = self.V0(E)
        h = Select(E.S0.get(('Ptr', 0, 'ptr')), E.b('aHead'))
        t = s['node'](k)
        ps, cp, dp = (E.S0.get(key) for key in (sp.kp, sp.kc, sp.kd))
        n = s['n']
        return sp.chain(E.S0, s, 2) + sp.monotone(s) + [
            ('arg', And(E.b('aHead') != 0, h == If(n == 0, 0, s['node'](0)))),
            ('all have data', ForAll([k], Implies(And(0 <= k, k < n), Select(ps, t) > 0), patterns=[t])),
            ('sizes 2', And(V['R'](V['n']) + V['F'](V['n']) + s['R'](n) + s['F'](n) < LIM)),
            ('memory', ForAll([k], Implies(And(0 <= k, k < n), And(Or(sp.mo(Select(dp, t)) == t, And(sp.mo(Select(dp, t)) == 0, Implies(k == n - 1, Select(ps, t) == Select(cp, t)))), Select(dp, t) != 0, Select(E.S0.get(sp.kx), t) >= 0)), patterns=[t]))]

    def post(self, E):
        sp = self.sp(E)
        V, s = self.V0(E), E.g['s']
        r, n, m = V['r'], V['n'], s['n']
        mid = lambda i, a, b, c: If(i <= r, a(i), If(i <= r + m, b(i - r - 1), c(i - m)))
        node = lambda i: mid(i, V['node'], s['node'], V['node'])
        sumf = lambda P, Q: lambda i: If(i <= r + 1, P(i), If(i <= r + 1 + m, P(r + 1) + Q(i - r - 1), P(i - m) + Q(m)))
        ix = lambda y: If(sp.own(y) == 2, s['ix'](y) + r + 1, If(V['ix'](y) <= r, V['ix'](y), V['ix'](y) + m))
        wp = Select(E.S.get(sp.sw), E.b('this'))
        W = dict(n=n + m, node=node, ix=ix, R=sumf(V['R'], s['R']), F=sumf(V['F'], s['F']), r=If(m == 0, r, r + m), w=If(wp == 0, n + m, ix(wp)))
        return sp.rep(E.S, E.b('this'), W, None) + [('the argument is taken', Select(E.S.get(('Ptr', 0, 'ptr')), E.b('aHead')) == 0)] + self.frame(E, E.S)

    def modifies(self, E):
        sp = self.sp(E)
        mm = {key: [E.b('this')] for key in sp.skeys}
        mm[sp.kn] = None
        mm[('Ptr', 0, 'ptr')] = [E.b('aHead')]
        return mm

    def inv(E):
        s = E.g['s']
        e = E.r['end'].base
        c = s['ix'](e)
        return [('cursor', And(0 <= c, c < s['n'], e == s['node'](c), e != 0, E.r['size'] == s['R'](c + 1)))]

    loops = [Loop({'end': 'ptr', 'size': 'i64'}, inv, lambda E: E.g['s']['n'] - E.g['s']['ix'](E.r['end'].base), cls={'end': 'Buf'})]


class CopyAppend(BCon):
    name = r'mg::net::BuffersCopyAppend\(mg::net::Buffer\*, void const\*, unsigned long\)'
    label = 'BuffersCopyAppend'
    mine = (9,)
    params = [('aHead', 'Buf'), ('aData', 'byte'), ('aSize', None)]
    ret = 'Buf'
    modular = True

    def tailgh(self, E):
        n = E.S0.ghost['n']
        sp = self.sp(E)
        t = E.b('aHead')
        fr = Select(E.S0.get(sp.kc), t) - Select(E.S0.get(sp.kp), t)
        return dict(R=lambda i: IntVal(0), F=lambda i: If(i < n, 0, fr), r=n - 1, w=n - 1)

    def ghosts(self, E):
        return {}

    def call_ghost(self, E):
        return {}

    def V0(self, E):
        nd, ix = E.S0.ghost['nd'], E.S0.ghost['ix']
        return dict(n=E.S0.ghost['n'], node=lambda i: Select(nd, i), ix=lambda y: Select(ix, y), **self.tailgh(E))

    def pre(self, E):
        sp = self.sp(E)
        V = {f: v for f, v in self.V0(E).items() if f in ('n', 'node', 'ix')}
        n = V['n']
        t = E.b('aHead')
        return sp.chain(E.S0, V, None) + [
            ('tail', And(n > 0, t == V['node'](n - 1), sp.own(IntVal(0)) == 0)), ('size', And(0 <= E.a['aSize'], E.a['aSize'] < LIM, n < LIM)),
            ('ownership', ForAll([k], Implies(And(0 <= k, k < n), sp.own(V['node'](k)) == 9), patterns=[V['node'](k)])),
            ('memory', ForAll([k], Implies(And(0 <= k, k < n), And(sp.mo(Select(E.S0.get(sp.kd), V['node'](k))) == V['node'](k), Select(E.S0.get(sp.kx), V['node'](k)) >= 0)), patterns=[V['node'](k)])),
            ('source', And(sp.own(sp.mo(E.b('aData'))) != 9, E.a['aData'].idx >= 0, Implies(E.a['aSize'] > 0, E.b('aData') != 0)))]

    def src(self, E):
        return (E.b('aData'), E.a['aData'].idx)

    def ends(self, E, f, a, tail):
        g = E.S.ghost
        n = g['n']
        return [('the tail is the last', And(n >= f.n0, tail == Select(g['nd'], n - 1), Implies(n > f.n0, f.off(n - 1) < a), a <= f.off(n)))]

    def now(self, E):
        g = E.S.ghost
        return self.sp(E).chain(E.S, dict(n=g['n'], node=lambda i: Select(g['nd'], i), ix=lambda y: Select(g['ix'], y)), 9) + [
            ('nothing else is released', ForAll([x], Implies(self.sp(E).own(x) != 9, Select(g['gone'], x) == Select(E.S0.ghost['gone'], x)), patterns=[Select(g['gone'], x)]))]

    def post(self, E):
        f = Fill(self, E)
        a = E.a['aSize']
        return f.formulas(E.S, a, self.src(E)) + self.frame(E, E.S) + self.memframe(E, E.S) + self.now(E) + self.ends(E, f, a, E.ret.base)

    def modifies(self, E):
        m = {key: None for key in self.sp(E).bufkeys}
        m[MEM] = None
        return m

    def before_post(self, E):
        for gn in ('nd', 'ix', 'n', 'gone'):
            E.S.ghost[gn] = fresh('gh_' + gn, E.S.ghost[gn].sort())

    def inv(E):
        self = CA
        f = Fill(self, E)
        a0 = E.a['aSize']
        added = a0 - E.r['aSize']
        n = E.S.ghost['n']
        d = E.r['aData']
        return f.formulas(E.S, added, self.src(E)) + self.frame(E, E.S) + self.memframe(E, E.S) + self.now(E) + [
            ('all is full', And(E.r['aSize'] > 0, E.r['aSize'] <= a0, f.off(n) == added, n >= f.n0, E.r['aHead'].base == Select(E.S.ghost['nd'], n - 1))),
            ('source', And(d.base == E.b('aData'), d.idx + E.r['cap'] == E.a['aData'].idx + added))]

    loops = [Loop({'aHead': 'ptr', 'aData': 'ptr', 'aSize': 'i64', 'cap': 'i32'}, inv, lambda E: E.r['aSize'], cls={'aData': 'byte', 'aHead': 'Buf'})]


CA = CopyAppend()


class NewChain(BCon):
    """the result is a new chain; no stream is there"""
    mine = (9,)

    def ghosts(self, E):
        z = lambda i: IntVal(0)
        return dict(R=z, F=z, r=IntVal(-1), w=IntVal(0))

    def pre(self, E):
        sp = self.sp(E)
        return [('ret', E.b('ret') != 0), ('nothing yet', And(E.S0.ghost['n'] == 0, sp.own(IntVal(0)) == 0))] + self.pre2(E)

    def modifies(self, E):
        m = {key: None for key in self.sp(E).bufkeys}
        m[MEM] = None
        m[('Ptr', 0, 'ptr')] = [E.b('ret')]
        return m

    def result(self, E, total, src):
        g = E.S.ghost
        f = Fill(self, E)
        n = g['n']
        res = Select(E.S.get(('Ptr', 0, 'ptr')), E.b('ret'))
        return [('the result is the new chain', res == If(n == 0, 0, Select(g['nd'], 0))), ('nothing when there is nothing to copy', (n == 0) == (total == 0)),
                ('no more buffers than needed', Implies(n > 0, And((n - 1) * f.CS < total, total <= n * f.CS)))] + CA.now(E) + f.formulas(E.S, total, src) + self.frame(E, E.S) + self.memframe(E, E.S)


class CopyData(NewChain):
    name = r'mg::net::BuffersCopy\(void const\*, unsigned long\)'
    label = 'BuffersCopy(data)'
    params = [('ret', 'Ptr'), ('aData', 'byte'), ('aSize', None)]

    def pre2(self, E):
        sp = self.sp(E)
        return [('source', And(sp.mo(E.b('aData')) == 0, E.a['aData'].idx >= 0, Implies(E.a['aSize'] > 0, E.b('aData') != 0), 0 <= E.a['aSize'], E.a['aSize'] < LIM))]

    def post(self, E):
        return self.result(E, E.a['aSize'], (E.b('aData'), E.a['aData'].idx))


def chain_s(nm='s'):
    f = lambda x_: Function(x_ + '_' + nm, IntSort(), IntSort())
    return dict(n=Int('n_' + nm), node=f('node'), ix=f('ix'), R=f('R'))


class SrcChain:
    """a chain of buffers given by the user, with its content L"""

    def src_pre(self, E, head, tag=2):
        sp = self.sp(E)
        s, L = E.g['s'], E.g['L']
        S = E.S0
        t = s['node'](k)
        n = s['n']
        d0, x0 = Select(S.get(sp.kd), t), Select(S.get(sp.kx), t)
        byte = Select(Select(S.get(MEM), d0), q)
        return sp.chain(S, s, tag) + sp.monotone(s) + [
            ('arg', head == If(n == 0, 0, s['node'](IntVal(0)))), ('size', And(s['R'](n) < LIM)),
            ('memory', ForAll([k], Implies(And(0 <= k, k < n), And(d0 != 0, x0 >= 0, sp.own(sp.mo(d0)) != 9)), patterns=[t])),
            ('content (definition)', ForAll([k, q], Implies(And(0 <= k, k < n, x0 <= q, q < x0 + Select(S.get(sp.kp), t)), L(s['R'](k) + q - x0) == byte), patterns=[byte]))]


class CopyChain(SrcChain, NewChain):
    name = r'mg::net::BuffersCopy\(mg::net::Buffer const\*\)'
    label = 'BuffersCopy(chain)'
    params = [('ret', 'Ptr'), ('aHead', 'Buf')]

    def ghosts(self, E):
        g = NewChain.ghosts(self, E)
        g['s'] = chain_s()
        g['L'] = Function('content', IntSort(), IntSort())
        return g

    def pre2(self, E):
        return self.src_pre(E, E.b('aHead'))

    def cursor(self, E, p, low=0):
        s = E.g['s']
        c = s['ix'](p)
        return c, [('cursor', And(0 <= c, c < s['n'], p == s['node'](c), p != 0))]

    def inv1(E):
        self = CC
        c, f = self.cursor(E, E.r['aHead'].base)
        return f + [('nothing is skipped', E.g['s']['R'](c) == 0)]

    def inv2(E):
        self = CC
        c, fs = self.cursor(E, E.r['aHead'].base)
        g = E.S.ghost
        a = E.g['s']['R'](c)
        f = Fill(self, E)
        n = g['n']
        return fs + CA.now(E) + f.formulas(E.S, a, (E.g['L'], None)) + self.frame(E, E.S) + self.memframe(E, E.S) + [
            ('tail', And(n > 0, E.r['tail'].base == Select(g['nd'], n - 1), Or(f.off(n - 1) < a, n == 1), a <= f.off(n))),
            ('the result is the first', Select(E.S.get(('Ptr', 0, 'ptr')), E.b('ret')) == Select(g['nd'], 0)),
            ('there will be data', Or(a > 0, Select(E.S0.get(self.sp(E).kp), E.r['aHead'].base) > 0))]

    loops = [Loop({'aHead': 'ptr'}, inv1, lambda E: E.g['s']['n'] - E.g['s']['ix'](E.r['aHead'].base), cls={'aHead': 'Buf'}),
             Loop({'aHead': 'ptr', 'tail': 'ptr'}, inv2, lambda E: E.g['s']['n'] - E.g['s']['ix'](E.r['aHead'].base), cls={'aHead': 'Buf', 'tail': 'Buf'})]
    loops_in_order = True

    def post(self, E):
        return self.result(E, E.g['s']['R'](E.g['s']['n']), (E.g['L'], None))


CC = CopyChain()


class BufSpec2(BufSpec):
    contracts = [CA, CopyData(), CC]


U32 = (1 << 32) - 1


class Ref(NewChain):
    name = r'mg::net::BuffersRef\(void const\*, unsigned long\)'
    label = 'BuffersRef'
    params = [('ret', 'Ptr'), ('aData', 'byte'), ('aSize', None)]

    def pre2(self, E):
        return [('size', And(0 <= E.a['aSize'], E.a['aSize'] < LIM)), ('data', Implies(E.a['aSize'] > 0, And(E.b('aData') != 0, E.a['aData'].idx >= 0)))]

    def pieces(self, E, n, done):
        """n pieces with `done` bytes together"""
        sp = self.sp(E)
        g, S = E.S.ghost, E.S
        t = Select(g['nd'], k)
        sz = If(k < n - 1, U32, done - k * U32)
        return [('the pieces are the data in order', ForAll([k], Implies(And(0 <= k, k < n), And(Select(S.get(sp.kp), t) == sz, Select(S.get(sp.kc), t) == sz, sz > 0, sz <= U32, Select(S.get(sp.kd), t) == E.b('aData'),
                                                                                            Select(S.get(sp.kx), t) == E.a['aData'].idx + k * U32)), patterns=[t]))]

    def post(self, E):
        g = E.S.ghost
        n = g['n']
        res = Select(E.S.get(('Ptr', 0, 'ptr')), E.b('ret'))
        return [('the result is the new chain', res == If(n == 0, 0, Select(g['nd'], 0))), ('all the data', And(Implies(n == 0, E.a['aSize'] == 0), Implies(E.a['aSize'] == 0, n == 0)))] + \
            CA.now(E) + self.pieces(E, n, E.a['aSize']) + self.frame(E, E.S)

    def inv(E):
        self = RF
        g = E.S.ghost
        n = g['n']
        data = [v for t, v in E.S.locals.values() if isinstance(v, Ptr) and v.cls == 'byte' and v.local is None]
        if E.r.get('aData') is not None:
            data.append(E.r['aData'])
        done = E.a['aSize'] - E.r['aSize']
        return CA.now(E) + self.pieces(E, n, done) + self.frame(E, E.S) + [
            ('cursor', And(n > 0, E.r['aSize'] > 0, done == n * U32, E.r['tail'].base == Select(g['nd'], n - 1),
                           *[And(d.base == E.b('aData'), d.idx == E.a['aData'].idx + done) for d in data])),
            ('the result is the first', Select(E.S.get(('Ptr', 0, 'ptr')), E.b('ret')) == Select(g['nd'], 0))]

    loops = [Loop({'tail': 'ptr', 'aSize': 'i64', 'aData?': 'ptr'}, inv, lambda E: E.r['aSize'], cls={'tail': 'Buf', 'aData': 'byte'})]


RF = Ref()


class IOVecCon(BCon):
    def iov(self, E, S):
        sp = self.sp(E)
        o1, o2 = sp.k('iov_data'), sp.k('iov_size')
        b = E.b('aVectors')
        return (S.arr('iovec', o1, 'ptr', b), Select(S.get(('iovec', o1, 'ix', 'A')), b), S.arr('iovec', o2, 'i64', b))

    def modifies(self, E):
        sp = self.sp(E)
        o1, o2 = sp.k('iov_data'), sp.k('iov_size')
        b = [E.b('aVectors')]
        return {('iovec', o1, 'ptr', 'A'): b, ('iovec', o1, 'ix', 'A'): b, ('iovec', o2, 'i64', 'A'): b}

    def beyond(self, E, S, j):
        """entries not among the first j are untouched"""
        i0 = E.a['aVectors'].idx
        return [('other entries are untouched', ForAll([q], Implies(Or(q < i0, q >= i0 + j), And(*[Select(a, q) == Select(a0, q) for a, a0 in zip(self.iov(E, S), self.iov(E, E.S0))])),
                                                      patterns=[Select(self.iov(E, S)[2], q)]))]


class ToWrite(SrcChain, IOVecCon):
    name = r'mg::net::BuffersToIOVecsForWrite\(mg::net::Buffer const\*, unsigned int, mg::box::IOVec\*, unsigned int\)'
    label = 'BuffersToIOVecsForWrite(chain)'
    params = [('aHead', 'Buf'), ('aByteOffset', None), ('aVectors', 'iovec'), ('aVectorCount', None)]

    def ghosts(self, E):
        return dict(s=chain_s(), L=Function('content', IntSort(), IntSort()), rank=Function('rank', IntSort(), IntSort()))

    def pre(self, E):
        sp = self.sp(E)
        s, rank = E.g['s'], E.g['rank']
        t = s['node'](k)
        return self.src_pre(E, E.b('aHead')) + [
            ('number of non-empty buffers (definition)', And(rank(IntVal(0)) == 0, ForAll([k], Implies(And(0 <= k, k < s['n']), rank(k + 1) == rank(k) + If(Select(E.S0.get(sp.kp), t) > 0, 1, 0)), patterns=[t]))),
            ('prefix sums grow (rank)', ForAll([k, k2], Implies(And(0 <= k, k <= k2, k2 <= s['n']), And(rank(k) <= rank(k2), rank(k) >= 0)), patterns=[z3.MultiPattern(rank(k), rank(k2))])),
            ('vectors', And(E.a['aVectors'].idx >= 0, E.a['aVectorCount'] >= 0, Implies(E.a['aVectorCount'] > 0, E.b('aVectors') != 0))),
            ('offset is in the first non-empty buffer', And(E.a['aByteOffset'] >= 0, ForAll([k], Implies(And(0 <= k, k < s['n'], rank(k) == 0, Select(E.S0.get(sp.kp), t) > 0), E.a['aByteOffset'] < Select(E.S0.get(sp.kp), t)), patterns=[t])))]

    def filled(self, E, S, c):
        sp = self.sp(E)
        s, rank = E.g['s'], E.g['rank']
        t = s['node'](k)
        d, dx, sz = self.iov(E, S)
        i0 = E.a['aVectors'].idx
        off = If(rank(k) == 0, E.a['aByteOffset'], 0)
        S0 = E.S0
        at = i0 + rank(k)
        return [('the vectors are the data of the non-empty buffers in order',
                 ForAll([k], Implies(And(0 <= k, k < c, rank(k) < E.a['aVectorCount'], Select(S0.get(sp.kp), t) > 0),
                                     And(Select(d, at) == Select(S0.get(sp.kd), t), Select(dx, at) == Select(S0.get(sp.kx), t) + off, Select(sz, at) == Select(S0.get(sp.kp), t) - off)), patterns=[t]))]

    def post(self, E):
        s, rank = E.g['s'], E.g['rank']
        n = rank(s['n'])
        return [('as many as there are and fit', E.ret == If(n < E.a['aVectorCount'], n, E.a['aVectorCount']))] + self.filled(E, E.S, s['n']) + self.beyond(E, E.S, E.ret)

    def inv(E):
        self = TW
        s, rank = E.g['s'], E.g['rank']
        p = E.r['aHead'].base
        c = If(p == 0, s['n'], s['ix'](p))
        i0 = E.a['aVectors'].idx
        return [('cursor', And(0 <= c, c <= s['n'], p == If(c == s['n'], 0, s['node'](c)))),
                ('vectors', And(E.r['buf'].base == E.b('aVectors'), E.r['buf'].idx == i0 + rank(c), rank(c) <= E.a['aVectorCount'], E.r['aByteOffset'] == If(rank(c) == 0, E.a['aByteOffset'], 0)))] + \
            self.filled(E, E.S, c) + self.beyond(E, E.S, rank(c))

    loops = [Loop({'aHead': 'ptr', 'buf': 'ptr', 'aByteOffset': 'i32'}, inv, lambda E: E.g['s']['n'] - If(E.r['aHead'].base == 0, E.g['s']['n'], E.g['s']['ix'](E.r['aHead'].base)), cls={'aHead': 'Buf', 'buf': 'iovec'})]


TW = ToWrite()


class ToRead(IOVecCon):
    name = r'mg::net::BuffersToIOVecsForRead\(mg::net::Buffer\*, mg::box::IOVec\*, unsigned int\)'
    label = 'BuffersToIOVecsForRead'
    params = [('aHead', 'Buf'), ('aVectors', 'iovec'), ('aVectorCount', None)]

    def pre(self, E):
        sp = self.sp(E)
        V = self.V0(E)
        V = {f: V[f] for f in ('n', 'node', 'ix')}
        n, t = V['n'], V['node'](k)
        ps, cp = E.S0.get(sp.kp), E.S0.get(sp.kc)
        return sp.chain(E.S0, V) + [
            ('arg', And(n > 0, n < LIM, E.b('aHead') == V['node'](IntVal(0)))), ('free space', ForAll([k], Implies(And(0 <= k, k < n), And(Select(cp, t) > Select(ps, t), Implies(k > 0, Select(ps, t) == 0), Select(E.S0.get(sp.kx), t) >= 0,
                                                                                                                         Select(E.S0.get(sp.kd), t) != 0)), patterns=[t])),
            ('vectors', And(E.a['aVectors'].idx >= 0, E.a['aVectorCount'] > 0, E.b('aVectors') != 0))]

    def filled(self, E, S, c):
        sp = self.sp(E)
        t = self.V0(E)['node'](k)
        S0 = E.S0
        d, dx, sz = self.iov(E, S)
        at = E.a['aVectors'].idx + k
        ps = Select(S0.get(sp.kp), t)
        return [('the vectors are the free space of the buffers in order', ForAll([k], Implies(And(0 <= k, k < c), And(
            Select(d, at) == Select(S0.get(sp.kd), t), Select(dx, at) == Select(S0.get(sp.kx), t) + ps, Select(sz, at) == Select(S0.get(sp.kc), t) - ps)), patterns=[t]))]

    def post(self, E):
        n = self.V0(E)['n']
        return [('as many as there are and fit', E.ret == If(n < E.a['aVectorCount'], n, E.a['aVectorCount']))] + self.filled(E, E.S, E.ret) + self.beyond(E, E.S, E.ret)

    def inv(E):
        self = TR
        V = self.V0(E)
        p = E.r['aHead'].base
        c = If(p == 0, V['n'], V['ix'](p))
        return [('cursor', And(0 < c, c <= V['n'], p == If(c == V['n'], 0, V['node'](c)))),
                ('vectors', And(E.r['buf'].base == E.b('aVectors'), E.r['buf'].idx == E.a['aVectors'].idx + c, c <= E.a['aVectorCount']))] + self.filled(E, E.S, c) + self.beyond(E, E.S, c)

    loops = [Loop({'aHead': 'ptr', 'buf': 'ptr'}, inv, lambda E: TR.V0(E)['n'] - If(E.r['aHead'].base == 0, TR.V0(E)['n'], TR.V0(E)['ix'](E.r['aHead'].base)), cls={'aHead': 'Buf', 'buf': 'iovec'})]


TR = ToRead()


class PrivCheck(BCon):
    name = BS + r'PrivCheck\(\) const'
    label = 'BufferStream::PrivCheck'

    def post(self, E):
        return []

    def modifies(self, E):
        return {}

    def inv(E):
        self = PC
        V = self.V0(E)
        n, r, w = V['n'], V['r'], V['w']
        p = E.r['pos'].base
        c = If(p == 0, n, V['ix'](p))
        b = lambda nm: E.r[nm] != 0
        return [('cursor', And(0 <= c, c <= n, p == If(c == n, 0, V['node'](c)), E.r['prev'].base == If(c == 0, 0, V['node'](c - 1)))),
                ('sizes', And(E.r['rsize'] == V['R'](c), E.r['wsize'] == If(c <= w, 0, V['F'](c) - V['F'](w)))),
                ('flags', And(*[Or(E.r[nm] == 0, E.r[nm] == 1) for nm in ('foundREnd', 'foundWPos')])),
                ('found', And(b('foundREnd') == Or(r < 0, c > r + 1), b('foundWPos') == (c > w)))]

    loops = [Loop({'pos': 'ptr', 'prev': 'ptr', 'rsize': 'i64', 'wsize': 'i64', 'foundREnd': 'i8', 'foundWPos': 'i8'}, inv,
                  lambda E: PC.V0(E)['n'] - If(E.r['pos'].base == 0, PC.V0(E)['n'], PC.V0(E)['ix'](E.r['pos'].base)), cls={'pos': 'Buf', 'prev': 'Buf'})]


PC = PrivCheck()


class BufSpec3(BufSpec):
    handlers = tuple(h for h in BufSpec.handlers if h[1] != 'h_check')
    contracts = [RF, TW, TR, PC]



class LinkSpec(BufSpec):
    """Lists of links.  lk(j), j < m: the links; node(j, i), i < cn(j): the buffers of the
    chain of link j (links can share buffers); G(j, i): the number of bytes before buffer i of
    link j; rank(j, i): the number of non-empty buffers before it; L: the content.

    hold: the references of the list on the buffers; lc(y, j): how many of the links from j on
    have y as the head.  A buffer is released only if no reference reaches it."""
    ghost_sorts = dict(nd=ARR, ix=ARR, n=I, gone=ARR, hold=ARR, lgone=ARR)
    assumptions = BufSpec.assumptions + ('a buffer which is reachable from a referenced one is not released (this is what B07 shows for the reference counts)',)

    def on_attach(self):
        BufSpec.on_attach(self)
        kk = self.k
        self.lh, self.ln = ('Link', kk('l_head'), 'ptr'), ('Link', kk('l_next'), 'ptr')
        self.lf, self.ll, self.llc = ('LList', kk('ll_first'), 'ptr'), ('LList', kk('ll_last'), 'ptr'), ('LList', kk('ll_last'), 'code')
        self.classes['LList'] = Cls({self.lf[1]: To('Link'), self.ll[1]: Interior([('Link', self.ln[1]), ('LList', self.lf[1])])})
        f1 = lambda nm: Function(nm, IntSort(), IntSort())
        f2 = lambda nm: Function(nm, IntSort(), IntSort(), IntSort())
        self.V = dict(m=Int('m_l'), lk=f1('lk'), lx=f1('lx'), cn=f1('cn'), node=f2('lnode'), ix=f2('lix'), G=f2('G'), rank=f2('rank2'), L=f1('content'), lc=f2('lc'))

    def on_access(self, ex, S, p, what):
        BufSpec.on_access(self, ex, S, p, what)
        if p.local is None and p.cls == 'Link':
            ex.prove(S, Select(S.ghost['lgone'], p.base) == 0, 'the link was not deleted before (%s)' % what, ex.cur_loc, 'safety')

    def h_ref(self, ex, ctx, S, v, ins):
        p = v[0].base
        g = S.ghost
        ex.prove(S, And(p != 0, Select(g['gone'], p) == 0), 'the referenced buffer exists', ex.cur_loc, 'safety')
        g['hold'] = Store(g['hold'], p, Select(g['hold'], p) + 1)

    def h_unref(self, ex, ctx, S, v, ins):
        p = v[0].base
        g = S.ghost
        V = self.V
        ex.prove(S, And(p != 0, Select(g['hold'], p) > 0), 'the dropped reference is one of the list', ex.cur_loc, 'safety')
        h1 = Store(g['hold'], p, Select(g['hold'], p) - 1)
        g0, g1 = g['gone'], fresh('gone', ARR)
        nd = V['node']
        ex.assume(S, ForAll([k, k2], Implies(And(0 <= k, k < V['m'], 0 <= k2, k2 < V['cn'](k), Or(Select(h1, nd(k, IntVal(0))) > 0)), Select(g1, nd(k, k2)) == Select(g0, nd(k, k2))), patterns=[nd(k, k2)]))
        ex.assume(S, ForAll([k, b_, k2], Implies(And(0 <= k, k < V['m'], 0 <= b_, b_ <= k2, k2 < V['cn'](k), Select(h1, nd(k, b_)) > 0), Select(g1, nd(k, k2)) == Select(g0, nd(k, k2))),
                            patterns=[z3.MultiPattern(nd(k, b_), nd(k, k2))]))
        g['gone'] = g1
        g['hold'] = h1

    def free(self, ex, ctx, S, p):
        g = S.ghost
        ex.prove(S, Select(g['lgone'], p.base) == 0, 'a link is deleted once', ex.cur_loc, 'safety')
        g['lgone'] = Store(g['lgone'], p.base, IntVal(1))

    def glob(self, i, j):
        return self.V['G'](j, i)

    def chains(self, S, d=0, heads=True, i=0):
        """the links from d on with their buffers"""
        V = self.V
        m, lk, lx, cn, node, ix = (V[f] for f in ('m', 'lk', 'lx', 'cn', 'node', 'ix'))
        rng = And(d <= k, k < m)
        t = node(k, k2)
        r2 = And(rng, 0 <= k2, k2 < cn(k))
        r = [('links', ForAll([k], Implies(rng, And(lk(k) != 0, lx(lk(k)) == k, Select(S.ghost['lgone'], lk(k)) == 0)), patterns=[lk(k)])),
             ('next links', ForAll([k], Implies(rng, Select(S.get(self.ln), lk(k)) == If(k + 1 < m, lk(k + 1), 0)), patterns=[lk(k)])),
             ('buffers', ForAll([k, k2], Implies(r2, And(t != 0, ix(k, t) == k2, Implies(Or(k > d, k2 >= i), Select(S.ghost['gone'], t) == 0))), patterns=[t]))]
        if heads:
            r.append(('heads', ForAll([k], Implies(rng, Select(S.get(self.lh), lk(k)) == If(cn(k) == 0, 0, node(k, IntVal(0)))), patterns=[lk(k)])))
        return r

    def static(self, S):
        """what never changes"""
        V = self.V
        m, lk, lx, cn, node, ix, G, L, rank, lc = (V[f] for f in ('m', 'lk', 'lx', 'cn', 'node', 'ix', 'G', 'L', 'rank', 'lc'))
        rng = And(0 <= k, k < m)
        t = node(k, k2)
        r2 = And(rng, 0 <= k2, k2 < cn(k))
        ps = Select(S.get(self.kp), t)
        d0, x0 = Select(S.get(self.kd), t), Select(S.get(self.kx), t)
        byte = Select(Select(S.get(MEM), d0), q)
        a, b = k, k2
        dom = lambda j, i: Or(And(0 <= j, j < m, 0 <= i, i <= cn(j)), And(j == m, i == 0))
        z0 = IntVal(0)
        return [('number of links', And(0 <= m, m < LIM)), ('numbers of buffers', ForAll([k], Implies(rng, And(cn(k) >= 0, cn(k) < LIM)), patterns=[lk(k)])),
                ('next buffers', ForAll([k, k2], Implies(r2, And(Select(S.get(self.kn), t) == If(k2 + 1 < cn(k), node(k, k2 + 1), 0), 0 <= ps, ps <= Select(S.get(self.kc), t), Select(S.get(self.kc), t) < (1 << 32),
                                                              d0 != 0, x0 >= 0, self.own(t) == 2, self.own(self.mo(d0)) != 9)), patterns=[t])),
                ('positions (definition)', And(G(z0, z0) == 0, rank(z0, z0) == 0, ForAll([k, k2], Implies(r2, And(G(k, k2 + 1) == G(k, k2) + ps, rank(k, k2 + 1) == rank(k, k2) + If(ps > 0, 1, 0))), patterns=[t]),
                                               ForAll([k], Implies(rng, And(G(k + 1, z0) == G(k, cn(k)), rank(k + 1, z0) == rank(k, cn(k)))), patterns=[lk(k)]))),
                ('positions grow', ForAll([a, b], Implies(dom(a, b), And(G(a, b) >= 0, G(a, b) <= G(m, z0))), patterns=[G(a, b)])),
                ('numbers grow', ForAll([a, b], Implies(dom(a, b), And(rank(a, b) >= 0, rank(a, b) <= rank(m, z0))), patterns=[rank(a, b)])),
                ('size', G(m, z0) < LIM),
                ('zero is no buffer', And(self.own(z0) == 0, Select(S.ghost['gone'], z0) == 0)),
                ('content (definition)', ForAll([k, k2, q], Implies(And(r2, x0 <= q, q < x0 + ps), L(G(k, k2) + q - x0) == byte), patterns=[byte]))]


    def refs(self, S):
        V = self.V
        m, lk, cn, node, lc = (V[f] for f in ('m', 'lk', 'cn', 'node', 'lc'))
        rng = And(0 <= k, k < m)
        z0 = IntVal(0)
        return [('heads (definition)', ForAll([x, k], Implies(rng, lc(x, k) == lc(x, k + 1) + If(And(cn(k) > 0, node(k, z0) == x), 1, 0)), patterns=[z3.MultiPattern(lc(x, k), lk(k))])),
                ('heads (end)', ForAll([x], lc(x, m) == 0, patterns=[lc(x, m)])),
                ('numbers of heads', ForAll([x, k], lc(x, k) >= 0, patterns=[lc(x, k)])),
                ('heads are counted', ForAll([k, q], Implies(And(0 <= q, q <= k, k < m, cn(k) > 0), lc(node(k, z0), q) >= 1), patterns=[lc(node(k, z0), q)]))]


class LinkCon(NewChain):
    def ghosts(self, E):
        g = NewChain.ghosts(self, E)
        g['s'] = E.ex.spec.V
        return g

    def base(self, E):
        sp = self.sp(E)
        return sp.static(E.S0) + sp.chains(E.S0)

    def link(self, E, p):
        V = E.g['s']
        j = If(p == 0, V['m'], V['lx'](p))
        return j, [('link', And(0 <= j, j <= V['m'], p == If(j == V['m'], 0, V['lk'](j))))]

    def buf(self, E, j, p):
        V = E.g['s']
        i = If(p == 0, V['cn'](j), V['ix'](j, p))
        return i, [('buffer', And(0 <= i, i <= V['cn'](j), p == If(i == V['cn'](j), 0, V['node'](j, i))))]

    def total(self, E):
        return E.g['s']['G'](E.g['s']['m'], IntVal(0))


class CopyLinks(LinkCon):
    name = r'mg::net::BuffersCopy\(mg::net::BufferLink const\*\)'
    label = 'BuffersCopy(links)'
    params = [('ret', 'Ptr'), ('aHead', 'Link')]

    def pre2(self, E):
        V = E.g['s']
        return self.base(E) + [('arg', E.b('aHead') == If(V['m'] == 0, 0, V['lk'](IntVal(0))))]

    def inv1(E):
        self = CL
        j, f = self.link(E, E.r['aHead'].base)
        return f + [('nothing is skipped', E.g['s']['G'](j, IntVal(0)) == 0)]

    def inv1a(E):
        self = CL
        p = self.outer(E)
        j, f = self.link(E, p)
        i, f2 = self.buf(E, j, E.r['buf'].base)
        return f + f2 + [('inside', j < E.g['s']['m']), ('nothing is skipped', E.g['s']['G'](j, i) == 0)]

    def outer(self, E):
        c = [v for nm, v in E.ctx.fr.items() if nm.startswith('%aHead.addr') and isinstance(v, Ptr)]
        return c[-1].base

    def copied(self, E, j, i, first):
        g = E.S.ghost
        a = E.g['s']['G'](j, i)
        f = Fill(self, E)
        n = g['n']
        return CA.now(E) + f.formulas(E.S, a, (E.g['s']['L'], None)) + self.frame(E, E.S) + self.memframe(E, E.S) + [
            ('tail', And(n > 0, E.r['tail'].base == Select(g['nd'], n - 1), Or(f.off(n - 1) < a, n == 1), a <= f.off(n))),
            ('the result is the first', Select(E.S.get(('Ptr', 0, 'ptr')), E.b('ret')) == Select(g['nd'], 0)),
            ('there will be data', Or(a > 0, And(first != 0, Select(E.S0.get(self.sp(E).kp), first) > 0)))]

    def inv2(E):
        self = CL
        j, f = self.link(E, E.r['aHead'].base)
        i, f2 = self.buf(E, j, E.r['buf'].base)
        return f + f2 + [('inside', j < E.g['s']['m'])] + self.copied(E, j, i, E.r['buf'].base)

    def inv2a(E):
        self = CL
        j, f = self.link(E, self.outer(E))
        i, f2 = self.buf(E, j, E.r['buf'].base)
        return f + f2 + [('inside', j < E.g['s']['m'])] + self.copied(E, j, i, E.r['buf'].base)

    loops = [Loop({'aHead': 'ptr'}, inv1, lambda E: E.g['s']['m'] - CL.link(E, E.r['aHead'].base)[0], cls={'aHead': 'Link'}),
             Loop({'buf': 'ptr'}, inv1a, lambda E: E.g['s']['cn'](CL.link(E, CL.outer(E))[0]) - CL.buf(E, CL.link(E, CL.outer(E))[0], E.r['buf'].base)[0], cls={'buf': 'Buf'}),
             Loop({'aHead': 'ptr', 'buf': 'ptr', 'tail': 'ptr'}, inv2, lambda E: E.g['s']['m'] - CL.link(E, E.r['aHead'].base)[0], cls={'aHead': 'Link', 'buf': 'Buf', 'tail': 'Buf'}),
             Loop({'buf': 'ptr', 'tail': 'ptr'}, inv2a, lambda E: E.g['s']['cn'](CL.link(E, CL.outer(E))[0]) - CL.buf(E, CL.link(E, CL.outer(E))[0], E.r['buf'].base)[0], cls={'buf': 'Buf', 'tail': 'Buf'})]
    loops_in_order = True

    def post(self, E):
        return self.result(E, self.total(E), (E.g['s']['L'], None))


CL = CopyLinks()


class LinksToWrite(IOVecCon, LinkCon):
    name = r'mg::net::BuffersToIOVecsForWrite\(mg::net::BufferLink const\*, unsigned int, mg::box::IOVec\*, unsigned int\)'
    label = 'BuffersToIOVecsForWrite(links)'
    params = [('aHead', 'Link'), ('aByteOffset', None), ('aVectors', 'iovec'), ('aVectorCount', None)]

    def pre(self, E):
        sp = self.sp(E)
        V = E.g['s']
        rank, G = V['rank'], V['G']
        t = V['node'](k, k2)
        r2 = And(0 <= k, k < V['m'], 0 <= k2, k2 < V['cn'](k))
        ps = Select(E.S0.get(sp.kp), t)
        a, b, c, d = k, k2, q, x
        inn = lambda j, i: And(0 <= j, j < V['m'], 0 <= i, i <= V['cn'](j))
        return self.base(E) + [('arg', E.b('aHead') == If(V['m'] == 0, 0, V['lk'](IntVal(0)))),
                               ('numbers grow (2)', ForAll([a, b, c, d], Implies(And(inn(a, b), Or(inn(c, d), And(c == V['m'], d == 0)), Or(a < c, And(a == c, b <= d))), rank(a, b) <= rank(c, d)), patterns=[z3.MultiPattern(rank(a, b), rank(c, d))])),
                               ('vectors', And(E.a['aVectors'].idx >= 0, E.a['aVectorCount'] >= 0, E.a['aVectorCount'] < (1 << 32), Implies(E.a['aVectorCount'] > 0, E.b('aVectors') != 0))),
                               ('offset is in the first non-empty buffer', And(E.a['aByteOffset'] >= 0, ForAll([k, k2], Implies(And(r2, rank(k, k2) == 0, ps > 0), E.a['aByteOffset'] < ps), patterns=[t])))]

    def filled(self, E, S, j, i):
        sp = self.sp(E)
        V = E.g['s']
        rank = V['rank'](k, k2)
        t = V['node'](k, k2)
        d, dx, sz = self.iov(E, S)
        off = If(rank == 0, E.a['aByteOffset'], 0)
        S0 = E.S0
        at = E.a['aVectors'].idx + rank
        return [('the vectors are the data of the non-empty buffers in order',
                 ForAll([k, k2], Implies(And(0 <= k, k < V['m'], 0 <= k2, k2 < V['cn'](k), Or(k < j, And(k == j, k2 < i)), rank < E.a['aVectorCount'], Select(S0.get(sp.kp), t) > 0),
                                         And(Select(d, at) == Select(S0.get(sp.kd), t), Select(dx, at) == Select(S0.get(sp.kx), t) + off, Select(sz, at) == Select(S0.get(sp.kp), t) - off)), patterns=[t]))]

    def post(self, E):
        V = E.g['s']
        n = V['rank'](V['m'], IntVal(0))
        return [('as many as there are and fit', E.ret == If(n < E.a['aVectorCount'], n, E.a['aVectorCount']))] + self.filled(E, E.S, V['m'], IntVal(0)) + self.beyond(E, E.S, E.ret)

    def common(self, E, j, i):
        V = E.g['s']
        c = V['rank'](j, i)
        o = E.r['aByteOffset'] if E.r.get('aByteOffset') is not None else E.a['aByteOffset']
        return [('vectors', And(E.r['buf'].base == E.b('aVectors'), E.r['buf'].idx == E.a['aVectors'].idx + c, c <= E.a['aVectorCount'], o == If(c == 0, E.a['aByteOffset'], 0)))] + \
            self.filled(E, E.S, j, i) + self.beyond(E, E.S, c)

    def inv1(E):
        self = LW
        j, f = self.link(E, E.r['aHead'].base)
        return f + self.common(E, j, IntVal(0))

    def inv2(E):
        self = LW
        j, f = self.link(E, self.outer(E))
        i, f2 = self.buf(E, j, E.r['it'].base)
        return f + f2 + [('inside', j < E.g['s']['m'])] + self.common(E, j, i)

    def outer(self, E):
        c = [v for nm, v in E.ctx.fr.items() if nm.startswith('%aHead.addr') and isinstance(v, Ptr)]
        return c[0].base

    loops = [Loop({'aHead': 'ptr', 'buf': 'ptr', 'aByteOffset?': 'i32'}, inv1, lambda E: E.g['s']['m'] - LW.link(E, E.r['aHead'].base)[0], cls={'aHead': 'Link', 'buf': 'iovec'}),
             Loop({'it': 'ptr', 'buf': 'ptr', 'aByteOffset?': 'i32'}, inv2, lambda E: E.g['s']['cn'](LW.link(E, LW.outer(E))[0]) - LW.buf(E, LW.link(E, LW.outer(E))[0], E.r['it'].base)[0], cls={'it': 'Buf', 'buf': 'iovec'})]
    loops_in_order = True


LW = LinksToWrite()


class ListCon(LinkCon):
    """operations on a list of links"""

    def ld(self, E, S, key):
        return Select(S.get(key), E.b('this'))

    def refs(self, E, S, d, head):
        """the references are those of the links from d on, d having `head`"""
        sp = self.sp(E)
        V = sp.V
        return ('the references are those of the heads', ForAll([x], Select(S.ghost['hold'], x) == If(d == V['m'], 0, V['lc'](x, d + 1) + If(And(head != 0, head == x), 1, 0)), patterns=[Select(S.ghost['hold'], x)]))

    def lst(self, E, S, d, i=0):
        """the list has the links from d on"""
        sp = self.sp(E)
        V = sp.V
        m = V['m']
        last, code = self.ld(E, S, sp.ll), self.ld(E, S, sp.llc)
        return [('list', And(self.ld(E, S, sp.lf) == If(d == m, 0, V['lk'](d)), If(d == m, And(last == E.b('this'), code == 1), And(last == V['lk'](m - 1), code == 0))))] + \
            sp.chains(S, d, False, i) + [
            ('heads', ForAll([k], Implies(And(d < k, k < m), Select(S.get(sp.lh), V['lk'](k)) == If(V['cn'](k) == 0, 0, V['node'](k, IntVal(0)))), patterns=[V['lk'](k)])),
            ('the links before are deleted', ForAll([k], Implies(And(0 <= k, k < d), Select(S.ghost['lgone'], V['lk'](k)) == 1), patterns=[V['lk'](k)]))]

    def pre(self, E):
        sp = self.sp(E)
        V = sp.V
        h = Select(E.S0.get(sp.lh), V['lk'](IntVal(0)))
        off = self.off(E, E.S0)
        return sp.static(E.S0) + sp.refs(E.S0) + self.lst(E, E.S0, IntVal(0)) + sp.chains(E.S0)[3:] + [
            self.refs(E, E.S0, IntVal(0), h), ('args', And(E.b('this') != 0, E.b('aByteOffset') != 0, off >= 0)),
            ('a link is not a list', BoolVal(True))] + self.pre2(E)

    def off(self, E, S):
        p = E.a['aByteOffset']
        return Select(S.get((p.cls, p.off, 'i32')), p.base)

    def modifies(self, E):
        sp = self.sp(E)
        p = E.a['aByteOffset']
        T = E.b('this')
        return {sp.lh: None, sp.lf: [T], sp.ll: [T], sp.llc: [T], (p.cls, p.off, 'i32'): [p.base]}

    def cur(self, E, S):
        """(d, i): the first link and its first buffer"""
        sp = self.sp(E)
        V = sp.V
        f = self.ld(E, S, sp.lf)
        d = If(f == 0, V['m'], V['lx'](f))
        h = Select(S.get(sp.lh), f)
        i = If(d == V['m'], 0, If(h == 0, V['cn'](d), V['ix'](d, h)))
        return d, i, h

    def at(self, E, S, total):
        sp = self.sp(E)
        V = sp.V
        d, i, h = self.cur(E, S)
        o = self.off(E, S)
        return [('the first link', And(0 <= d, d <= V['m'])), ('the head is one of its buffers', Implies(d < V['m'], And(0 <= i, i <= V['cn'](d), h == If(i == V['cn'](d), 0, V['node'](d, i))))),
                ('the position', And(o >= 0, V['G'](d, i) + o == total, Implies(o > 0, And(d < V['m'], h != 0, o < Select(E.S0.get(sp.kp), h)))))] + self.lst(E, S, d, i) + [self.refs(E, S, d, h)]

    def frame_heads(self, E):
        sp = self.sp(E)
        return [('other links are untouched', ForAll([x], Implies(x != self.ld(E, E.S, sp.lf), Select(E.S.get(sp.lh), x) == Select(E.S0.get(sp.lh), x)), patterns=[Select(E.S.get(sp.lh), x)]))]


class LSkipData(ListCon):
    name = r'mg::net::BufferLinkList::SkipData\(unsigned int&, unsigned long\)'
    label = 'BufferLinkList::SkipData'
    params = [('this', 'LList'), ('aByteOffset', 'U32'), ('aByteCount', None)]

    def pre2(self, E):
        V = self.sp(E).V
        h = E.S0
        return [('not more than there is', And(E.a['aByteCount'] >= 0, self.off(E, h) + E.a['aByteCount'] <= V['G'](V['m'], IntVal(0))))]

    def post(self, E):
        return self.at(E, E.S, self.off(E, E.S0) + E.a['aByteCount'])

    def common(self, E, d):
        sp = self.sp(E)
        V = sp.V
        z0 = IntVal(0)
        h = Select(E.S.get(sp.lh), self.ld(E, E.S, sp.lf))
        return [('the first link', And(0 <= d, d <= V['m'], Implies(d < V['m'], h == If(V['cn'](d) == 0, 0, V['node'](d, z0)))))] + self.lst(E, E.S, d) + \
            [self.refs(E, E.S, d, h), ('offset', self.off(E, E.S) == self.off(E, E.S0))]

    def inv1(E):
        self = LS
        d, i, h = self.cur(E, E.S)
        V = self.sp(E).V
        return self.common(E, d) + [('rest', And(E.r['aByteCount'] >= 0, V['G'](d, IntVal(0)) + E.r['aByteCount'] == self.off(E, E.S0) + E.a['aByteCount']))]

    def inv2(E):
        self = LS
        V = self.sp(E).V
        d, _, _ = self.cur(E, E.S)
        i, f2 = self.buf(E, d, E.r['pos'].base)
        return self.common(E, d) + f2 + [('inside', d < V['m']), ('rest', And(E.r['aByteCount'] >= 0, V['G'](d, i) + E.r['aByteCount'] == self.off(E, E.S0) + E.a['aByteCount']))]

    loops = [Loop({'aByteCount': 'i64'}, inv1, lambda E: E.g['s']['m'] - LS.cur(E, E.S)[0]),
             Loop({'aByteCount': 'i64', 'pos': 'ptr'}, inv2, lambda E: E.g['s']['cn'](LS.cur(E, E.S)[0]) - LS.buf(E, LS.cur(E, E.S)[0], E.r['pos'].base)[0], cls={'pos': 'Buf'})]
    loops_in_order = True


LS = LSkipData()


class LSkipEmpty(ListCon):
    name = r'mg::net::BufferLinkList::SkipEmptyPrefix\(unsigned int&\)'
    label = 'BufferLinkList::SkipEmptyPrefix'
    params = [('this', 'LList'), ('aByteOffset', 'U32')]

    def pre2(self, E):
        sp = self.sp(E)
        V = sp.V
        t = V['node'](k, k2)
        ps = Select(E.S0.get(sp.kp), t)
        off = self.off(E, E.S0)
        return [('not more than there is', off <= V['G'](V['m'], IntVal(0))),
                ('the offset is in the first non-empty buffer or behind it', ForAll([k, k2], Implies(And(0 <= k, k < V['m'], 0 <= k2, k2 < V['cn'](k), V['G'](k, k2) == 0, ps > 0), off <= ps), patterns=[t]))]

    def post(self, E):
        sp = self.sp(E)
        V = sp.V
        d, i, h = self.cur(E, E.S)
        return self.at(E, E.S, self.off(E, E.S0)) + [('the list is empty or starts with data', Implies(d < V['m'], And(h != 0, Select(E.S.get(sp.kp), h) > self.off(E, E.S))))]

    def common(self, E):
        sp = self.sp(E)
        V = sp.V
        d, i, h = self.cur(E, E.S)
        o, o0 = self.off(E, E.S), self.off(E, E.S0)
        return [('the first link', And(0 <= d, d < V['m'], 0 <= i, i <= V['cn'](d), h == If(i == V['cn'](d), 0, V['node'](d, i)))),
                ('position', And(o >= 0, V['G'](d, i) + o == o0, Or(o == 0, And(o == o0, V['G'](d, i) == 0))))] + self.lst(E, E.S, d, i) + [self.refs(E, E.S, d, h)]

    def inv1(E):
        self = LE
        f = self.ld(E, E.S, self.sp(E).lf)
        return self.common(E) + [('link', E.r['link'].base == f)]

    def inv2(E):
        self = LE
        return self.common(E)

    loops = [Loop({'link': 'ptr'}, inv1, lambda E: E.g['s']['m'] - LE.cur(E, E.S)[0], cls={'link': 'Link'}),
             Loop({}, inv2, lambda E: E.g['s']['cn'](LE.cur(E, E.S)[0]) - LE.cur(E, E.S)[1])]
    loops_in_order = True


LE = LSkipEmpty()


class BufSpec4(LinkSpec):
    contracts = [CA, CL, LW]


class BufSpec5(LinkSpec):
    contracts = [LS, LE]


class LemmaSums(RCon):
    name = r'lemma_sums\(\)'
    label = 'lemma: prefix sums grow (induction)'
    params = []

    def post(self, E):
        P, a = Function('P', IntSort(), IntSort()), Function('a', IntSort(), IntSort())
        i, j, n, r = Int('i_l'), Int('j_l'), Int('n_l'), Int('r_l')
        d = And(P(IntVal(0)) == 0, ForAll([k], Implies(And(0 <= k, k < n), And(a(k) >= 0, P(k + 1) == P(k) + a(k))), patterns=[P(k)]), 0 <= i, i <= n)
        return [('base', Implies(d, P(i) <= P(i))), ('step', Implies(And(d, i <= j, j < n, P(i) <= P(j)), P(i) <= P(j + 1))),
                ('constant where nothing is added', Implies(And(d, -1 <= r, r < j, j < n, ForAll([k], Implies(And(r < k, k < n), a(k) == 0), patterns=[a(k)]), P(r + 1) == P(j)), P(r + 1) == P(j + 1)))]

    def modifies(self, E):
        return {}


class LemmaPositions(RCon):
    name = r'lemma_positions\(\)'
    label = 'lemma: positions in a list of links grow (induction)'
    params = []

    def post(self, E):
        G, a = Function('G', IntSort(), IntSort(), IntSort()), Function('a2', IntSort(), IntSort(), IntSort())
        cn = Function('cn', IntSort(), IntSort())
        m, i, j, c, d = (Int(x_) for x_ in ('m_l', 'i_l', 'j_l', 'c_l', 'd_l'))
        z0 = IntVal(0)
        defs = And(G(z0, z0) == 0, ForAll([k, k2], Implies(And(0 <= k, k < m, 0 <= k2, k2 < cn(k)), And(a(k, k2) >= 0, G(k, k2 + 1) == G(k, k2) + a(k, k2))), patterns=[G(k, k2)]),
                   ForAll([k], Implies(And(0 <= k, k < m), G(k + 1, z0) == G(k, cn(k))), patterns=[cn(k)]))
        ih = And(defs, 0 <= c, c < m, 0 <= d, d <= cn(c), Or(i < c, And(i == c, j <= d)), G(i, j) <= G(c, d))
        return [('inside a link', Implies(And(ih, d < cn(c)), G(i, j) <= G(c, d + 1))), ('to the next link', Implies(And(ih, d == cn(c)), G(i, j) <= G(c + 1, z0)))]

    def modifies(self, E):
        return {}


class LemmaHeads(RCon):
    name = r'lemma_heads\(\)'
    label = 'lemma: the heads are counted (induction)'
    params = []

    def post(self, E):
        V = E.ex.spec.V
        m, cn, node, lc = (V[f] for f in ('m', 'cn', 'node', 'lc'))
        y, j, d = Int('y_l'), Int('j_l'), Int('d_l')
        z0 = IntVal(0)
        rng = lambda q_: And(0 <= q_, q_ < m)
        df = lambda y_, q_: lc(y_, q_) == lc(y_, q_ + 1) + If(And(cn(q_) > 0, node(q_, z0) == y_), 1, 0)
        h = node(j, z0)
        return [('not negative: end', Implies(lc(y, m) == 0, lc(y, m) >= 0)), ('not negative: step', Implies(And(rng(d), df(y, d), lc(y, d + 1) >= 0), lc(y, d) >= 0)),
                ('counted: base', Implies(And(rng(j), cn(j) > 0, df(h, j), lc(h, j + 1) >= 0), lc(h, j) >= 1)),
                ('counted: step', Implies(And(rng(j), rng(d), d < j, cn(j) > 0, df(h, d), lc(h, d + 1) >= 1), lc(h, d) >= 1))]

    def modifies(self, E):
        return {}


class AppendMove(RCon):
    name = r'mg::net::BufferLinkList::AppendMove\(mg::net::BufferLink\*\)'
    label = 'BufferLinkList::AppendMove'
    params = [('this', 'LList'), ('aHead', 'Link')]

    def ghosts(self, E):
        f = lambda nm: Function(nm, IntSort(), IntSort())
        return dict(v=dict(n=Int('n_v'), node=f('lk_v'), ix=f('lx_v')), s=dict(n=Int('n_s'), node=f('lk_s'), ix=f('lx_s')))

    def linked(self, E, S, v):
        sp = E.ex.spec
        t = v['node'](k)
        return [('number', v['n'] >= 0), ('links', ForAll([k], Implies(And(0 <= k, k < v['n']), And(t != 0, v['ix'](t) == k, Select(S.get(sp.ln), t) == If(k + 1 < v['n'], v['node'](k + 1), 0))),
                                                          patterns=[t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))]

    def lst(self, E, S, v):
        sp = E.ex.spec
        ld = lambda key: Select(S.get(key), E.b('this'))
        n = v['n']
        return self.linked(E, S, v) + [('ends', And(ld(sp.lf) == If(n == 0, 0, v['node'](IntVal(0))), If(n == 0, And(ld(sp.ll) == E.b('this'), ld(sp.llc) == 1), And(ld(sp.ll) == v['node'](n - 1), ld(sp.llc) == 0))))]

    def pre(self, E):
        v, s = E.g['v'], E.g['s']
        sp = E.ex.spec
        return self.lst(E, E.S0, v) + self.linked(E, E.S0, s) + [
            ('arg', And(E.b('this') != 0, E.b('aHead') == If(s['n'] == 0, 0, s['node'](IntVal(0))))),
            ('alive', ForAll([x], Select(E.S0.ghost['lgone'], x) == 0, patterns=[Select(E.S0.ghost['lgone'], x)])),
            ('owners', And(ForAll([k], Implies(And(0 <= k, k < v['n']), sp.own(v['node'](k)) == 1), patterns=[v['node'](k)]), ForAll([k], Implies(And(0 <= k, k < s['n']), sp.own(s['node'](k)) == 2), patterns=[s['node'](k)])))]

    def post(self, E):
        v, s = E.g['v'], E.g['s']
        sp = E.ex.spec
        n = v['n']
        w = dict(n=n + s['n'], node=lambda i: If(i < n, v['node'](i), s['node'](i - n)), ix=lambda y: If(sp.own(y) == 1, v['ix'](y), s['ix'](y) + n))
        return self.lst(E, E.S, w)

    def modifies(self, E):
        sp = E.ex.spec
        T = E.b('this')
        return {sp.ln: None, sp.lf: [T], sp.ll: [T], sp.llc: [T]}

    def inv(E):
        s = E.g['s']
        p = E.r['last'].base
        c = s['ix'](p)
        return [('cursor', And(0 <= c, c < s['n'], p == s['node'](c), p != 0))]

    loops = [Loop({'last': 'ptr'}, inv, lambda E: E.g['s']['n'] - E.g['s']['ix'](E.r['last'].base), cls={'last': 'Link'})]


class BufSpec6(LinkSpec):
    contracts = [LemmaSums(), LemmaPositions(), LemmaHeads(), AppendMove()]


class Dtor(RCon):
    """All buffers which lose their last reference are destroyed, without recursion."""
    name = r'mg::net::Buffer::~Buffer\(\)'
    label = 'Buffer::~Buffer'
    params = [('this', 'Buf')]

    def ghosts(self, E):
        f = lambda nm: Function(nm, IntSort(), IntSort())
        return dict(V=dict(n=Int('n_d'), node=f('nd_d'), ix=f('ix_d')))

    def pre(self, E):
        sp, V = E.ex.spec, E.g['V']
        g = E.S0.ghost
        t = V['node'](k)
        T = E.b('this')
        return [f_ for f_ in sp.chain(E.S0, V, None) if f_[0] != 'positions in the capacities'] + [
            ('this', And(T != 0, Select(g['gone'], T) == 0, Select(g['cnt'], T) == 0, ForAll([k], Implies(And(0 <= k, k < V['n']), t != T), patterns=[t]))),
            ('the next one', Select(E.S0.get(sp.kn), T) == If(V['n'] == 0, 0, V['node'](IntVal(0)))),
            ('references are counted', ForAll([k], Implies(And(0 <= k, k < V['n']), Select(g['cnt'], t) > 0), patterns=[t]))]

    def upto(self, E, S, c):
        """the buffers before c were destroyed, the rest is untouched"""
        sp, V = E.ex.spec, E.g['V']
        g, g0 = S.ghost, E.S0.ghost
        t = V['node'](k)
        rng = And(0 <= k, k < V['n'])
        return [('destroyed are those with the last reference dropped', ForAll([k], Implies(And(rng, k < c), And(Select(g['gone'], t) == 1, Select(g0['cnt'], t) == 1)), patterns=[t])),
                ('the rest is there', ForAll([k], Implies(And(rng, k >= c), And(Select(g['gone'], t) == 0, Select(S.get(sp.kn), t) == Select(E.S0.get(sp.kn), t), Implies(k > c, Select(g['cnt'], t) == Select(g0['cnt'], t)))), patterns=[t])),
                ('this', And(Select(g['gone'], E.b('this')) == 0, Select(g['cnt'], E.b('this')) == 0, Select(S.get(sp.kn), E.b('this')) == 0))]

    def post(self, E):
        sp, V = E.ex.spec, E.g['V']
        g, g0 = E.S.ghost, E.S0.ghost
        c = g['stop']
        t = V['node'](c)
        return [('stop', And(0 <= c, c <= V['n']))] + self.upto(E, E.S, c) + [
            ('the destruction stops at a buffer with other references', Implies(c < V['n'], And(Select(g0['cnt'], t) > 1, Select(g['cnt'], t) == Select(g0['cnt'], t) - 1)))]

    def modifies(self, E):
        return {E.ex.spec.kn: None}

    def inv(E):
        self = DT
        V = E.g['V']
        p = E.r['curr'].base
        c = If(p == 0, V['n'], V['ix'](p))
        return [('cursor', And(0 <= c, c <= V['n'], p == If(c == V['n'], 0, V['node'](c)), E.S.ghost['stop'] == c,
                               Implies(p != 0, Select(E.S.ghost['cnt'], p) == Select(E.S0.ghost['cnt'], p))))] + self.upto(E, E.S, c)

    loops = [Loop({'curr': 'ptr'}, inv, lambda E: E.g['V']['n'] - If(E.r['curr'].base == 0, E.g['V']['n'], E.g['V']['ix'](E.r['curr'].base)), cls={'curr': 'Buf'})]


DT = Dtor()


class BufSpec7(BufSpec):
    ghost_sorts = dict(nd=ARR, ix=ARR, n=I, gone=ARR, cnt=ARR, stop=I)
    handlers = ((r'mg::box::RefCount::Dec\(\)', 'h_dec'), (r'mg::box::RefCount::~RefCount\(\)', 'h_rcdtor'), (r'mg::net::Buffer::PrivUnref\(\)', 'h_unref'))
    contracts = [DT]
    assumptions = ()

    def on_attach(self):
        BufSpec.on_attach(self)
        self.classes['Vt'] = Cls({})
        self.classes['Fn'] = Cls({})

    def shared_load(self, ex, S, p, ty, order):
        # the virtual destructor
        if (p.cls, p.off, ty) == ('Buf', 0, 'ptr') or p.cls == 'Vt':
            b = fresh('vt')
            ex.assume(S, b != 0)
            return Ptr(b, 0, 'Fn' if p.cls == 'Vt' else 'Vt')
        return BufSpec.shared_load(self, ex, S, p, ty, order)

    def shared_store(self, ex, S, p, ty, v, order):
        return (p.cls, p.off, ty) == ('Buf', 0, 'ptr') or BufSpec.shared_store(self, ex, S, p, ty, v, order)

    def init_state(self, ex, S):
        BufSpec.init_state(self, ex, S)
        S.ghost['stop'] = IntVal(0)

    def h_dec(self, ex, ctx, S, v, ins):
        p, g = v[0].base, S.ghost
        ex.prove(S, And(v[0].off == self.k('b_ref'), Select(g['gone'], p) == 0, Select(g['cnt'], p) > 0), 'a reference of a living buffer is dropped', ex.cur_loc, 'safety')
        c = Select(g['cnt'], p) - 1
        g['cnt'] = Store(g['cnt'], p, c)
        return c == 0

    def h_rcdtor(self, ex, ctx, S, v, ins):
        ex.prove(S, Select(S.ghost['cnt'], v[0].base) == 0, 'no references to a destroyed buffer', ex.cur_loc, 'safety')

    def h_unref(self, ex, ctx, S, v, ins):
        ex.prove(S, BoolVal(False), 'the destruction of a chain is not recursive', ex.cur_loc, 'safety')

    def free(self, ex, ctx, S, p):
        ex.prove(S, And(p.base == Int('p_this'), Select(S.ghost['gone'], p.base) == 0), 'the destroyed buffer is freed', ex.cur_loc, 'safety')

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        p, g = vals[0].base, S.ghost
        ex.prove(S, And(Select(g['gone'], p) == 0, Select(g['cnt'], p) == 0, p != Int('p_this')), 'a buffer is destroyed once, without references', ex.cur_loc, 'safety')
        ex.prove(S, Select(S.get(self.kn), p) == 0, 'the destruction of a chain is not recursive', ex.cur_loc, 'safety')
        g['gone'] = Store(g['gone'], p, IntVal(1))
        g['stop'] = g['stop'] + 1
        return None


class BufSpec1(BufSpec):
    contracts = [Ctor(), Clear(), OW, PropagateWritePos(), EW, WC, OR, SkipData(), RD, PD, PopData(), WriteRef()]


SPEC = [BufSpec1, BufSpec2, BufSpec3, BufSpec4, BufSpec5, BufSpec6, BufSpec7]
