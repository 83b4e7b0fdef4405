"""DoublyList: every operation is the corresponding sequence operation."""
from z3 import (And, Or, Not, If, Implies, Int, IntVal, ForAll, Function, IntSort, Select, BoolVal)
from ..spec import *
from . import forward_list as fl
from .forward_list import View, sym_view, i

N = r'mg::box::DoublyList<Node, &\(?Node::myPrev\)?, &\(?Node::myNext\)?>'
IT = r'mg::box::DoublyListIterator<Node, &\(?Node::myNext\)?>'
CIT = r'mg::box::DoublyListConstIterator<Node, &\(?Node::myNext\)?>'


class DLSpec(fl.FLSpec):
    tu = 'doubly_list.cpp'

    def on_attach(self):
        k = self.k
        self.o_first, self.o_last, self.o_next, self.o_prev = k('off_first'), k('off_last'), k('off_next'), k('off_prev')
        self.classes = {
            'Node': Cls({self.o_next: To('Node'), self.o_prev: To('Node')}),
            'List': Cls({self.o_first: To('Node'), self.o_last: To('Node')}),
            'It': Cls({k('off_it_pos'): To('Node'), k('off_it_next'): To('Node')}),
            'CIt': Cls({k('off_cit_pos'): To('Node')}),
            'Out': Cls({0: To('Node')}),
        }
        self.k_it = (k('off_it_pos'), k('off_it_next'), k('off_cit_pos'))

    def rep(self, S, L, v):
        first = S.ld('List', self.o_first, 'ptr', L)
        last = S.ld('List', self.o_last, 'ptr', L)
        nx, pv = S.f('Node', self.o_next), S.f('Node', self.o_prev)
        n, node, pos = v.n, v.node, v.pos
        return [
            ('count >= 0', n >= 0),
            ('first', first == If(n == 0, 0, node(0))),
            ('last', last == If(n == 0, 0, node(n - 1))),
            ('elements distinct, non-null', ForAll([i], Implies(And(0 <= i, i < n), And(node(i) != 0, pos(node(i)) == i)), patterns=self.pat(node))),
            ('next links', ForAll([i], Implies(And(0 <= i, i < n), Select(nx, node(i)) == If(i + 1 < n, node(i + 1), 0)), patterns=self.pat(node))),
            ('prev links', ForAll([i], Implies(And(0 <= i, i < n), Select(pv, node(i)) == If(i > 0, node(i - 1), 0)), patterns=self.pat(node))),
        ]

    def node_frame(self, E):
        own = E.g['own']
        x = Int('x_q')
        nx, nx0 = E.S.f('Node', self.o_next), E.S0.f('Node', self.o_next)
        pv, pv0 = E.S.f('Node', self.o_prev), E.S0.f('Node', self.o_prev)
        return ForAll([x], Implies(own(x) != 1, And(Select(nx, x) == Select(nx0, x), Select(pv, x) == Select(pv0, x))), patterns=[own(x)])


class DCon(fl.FCon):
    def modifies(self, E):
        sp = self.sp(E)
        L = [E.b('this')]
        return {('List', sp.o_first, 'ptr'): L, ('List', sp.o_last, 'ptr'): L}

    def mods2(self, E, src=None, nexts=None, prevs=None):
        sp = self.sp(E)
        m = DCon.modifies(self, E)
        if src is not None:
            for k in m:
                m[k] = m[k] + [src]
        if nexts is not None:
            m[('Node', sp.o_next, 'ptr')] = nexts
        if prevs is not None:
            m[('Node', sp.o_prev, 'ptr')] = prevs
        return m

    def chain_pre(self, E):
        s, sp = E.g['s'], self.sp(E)
        pv = E.S0.f('Node', sp.o_prev)
        return fl.FCon.chain_pre(self, E) + [
            ('prev links', ForAll([i], Implies(And(0 < i, i < s.n), Select(pv, s.node(i)) == s.node(i - 1)), patterns=[s.node(i)]))]

    def last(self, v):
        return If(v.n > 0, v.node(v.n - 1), 0)

    def first(self, v):
        return If(v.n > 0, v.node(0), 0)


def der(base, nm, lab, **kw):
    d = {'name': nm, 'label': lab}
    d.update(kw)
    return type(base.__name__, (base, DCon), d)


_C = []


def C(base, nm, lab, mods):
    # MRO: DCon's helpers first, then the sequence contract of the forward list
    cls = type('D' + base.__name__, (DCon,), {k: v for k, v in base.__dict__.items() if k not in ('modifies', 'call_ghost', '__dict__', '__weakref__')})
    cls.name, cls.label = nm, lab
    if mods is not None:
        cls.modifies = mods
    _C.append(cls)
    return cls


C(fl.Ctor, N + r'::DoublyList\(\)', 'DoublyList()', None)
C(fl.MoveCtor, N + r'::DoublyList\(' + N + r'&&\)', 'DoublyList(DoublyList&&)', lambda s, E: s.mods2(E, E.b('aList')))
C(fl.RangeCtor, N + r'::DoublyList\(Node\*, Node\*\)', 'DoublyList(first,last)', lambda s, E: s.mods2(E, None, [E.b('aLast')], [E.b('aFirst')]))
C(fl.Clear, N + r'::Clear\(\)', 'DoublyList::Clear', None)
pi = C(fl.PrependItem, N + r'::Prepend\(Node\*\)', 'DoublyList::Prepend(item)',
       lambda s, E: s.mods2(E, None, [E.b('aItem')], [E.b('aItem'), If(E.g['v'].n > 0, E.g['v'].node(0), E.b('aItem'))]))
pi.call_ghost = lambda s, E: E.ex.spec.call_views(E, s)
C(fl.AppendItem, N + r'::Append\(Node\*\)', 'DoublyList::Append(item)',
  lambda s, E: s.mods2(E, None, [E.b('aItem'), s.last(E.g['v'])], [E.b('aItem')]))
C(fl.PrependList, N + r'::Prepend\(' + N + r'&&\)', 'DoublyList::Prepend(list)',
  lambda s, E: s.mods2(E, E.b('aSrc'), [s.last(E.g['s'])], [s.first(E.g['v'])]))
C(fl.AppendList, N + r'::Append\(' + N + r'&&\)', 'DoublyList::Append(list)',
  lambda s, E: s.mods2(E, E.b('aSrc'), [s.last(E.g['v'])], [s.first(E.g['s'])]))
C(fl.PrependRange, N + r'::Prepend\(Node\*, Node\*\)', 'DoublyList::Prepend(first,last)',
  lambda s, E: s.mods2(E, None, [E.b('aLast')], [E.b('aFirst'), s.first(E.g['v'])]))
C(fl.AppendRange, N + r'::Append\(Node\*, Node\*\)', 'DoublyList::Append(first,last)',
  lambda s, E: s.mods2(E, None, [E.b('aLast'), s.last(E.g['v'])], [E.b('aFirst')]))
C(fl.PopAll, N + r'::PopAll\(\)', 'DoublyList::PopAll', None)


def _popallout(s, E):
    m = s.mods2(E)
    m[('Out', 0, 'ptr')] = [E.b('aOutLast')]
    return m


C(fl.PopAllOut, N + r'::PopAll\(Node\*&\)', 'DoublyList::PopAll(out last)', _popallout)
C(fl.MoveAssign, N + r'::operator=\(' + N + r'&&\)', 'DoublyList::operator=(&&)', lambda s, E: s.mods2(E, E.b('aOther')))
C(fl.GetFirst, N + r'::GetFirst\(\)( const)?', 'DoublyList::GetFirst', lambda s, E: {})
gl = C(fl.GetFirst, N + r'::GetLast\(\)( const)?', 'DoublyList::GetLast', lambda s, E: {})
gl.post = fl.GetLast.post
ie = C(fl.GetFirst, N + r'::IsEmpty\(\) const', 'DoublyList::IsEmpty', lambda s, E: {})
ie.post = fl.IsEmpty.post
ie.ret = None


def rev_inv(E):
    sp = E.ex.spec
    v = E.g['v']
    cur = E.r['item'].base
    k = If(cur == 0, v.n, v.pos(cur))
    nx, pv = E.S.f('Node', sp.o_next), E.S.f('Node', sp.o_prev)
    nv = View(k, lambda j: v.node(k - 1 - j), lambda x: k - 1 - v.pos(x))
    out = sp.rep(E.S, E.b('this'), nv)
    out += [('cursor', And(0 <= k, k <= v.n, Implies(cur != 0, And(k < v.n, cur == v.node(k))))),
            ('rest untouched', ForAll([i], Implies(And(k <= i, i < v.n), Select(nx, v.node(i)) == If(i + 1 < v.n, v.node(i + 1), 0)), patterns=[v.node(i)])),
            ('frame', sp.node_frame(E))]
    return out


rv = C(fl.Reverse, N + r'::Reverse\(\)', 'DoublyList::Reverse', None)


def _revmods(s, E):
    m = s.mods2(E)
    m[('Node', s.sp(E).o_next, 'ptr')] = None
    m[('Node', s.sp(E).o_prev, 'ptr')] = None
    return m


rv.modifies = _revmods
rv.loops = [Loop({'item': 'ptr'}, rev_inv, fl.rev_variant, cls={'item': 'Node'})]


class PopFirst(DCon):
    name = N + r'::PopFirst\(\)'
    label = 'DoublyList::PopFirst'
    params = [('this', 'List')]
    ret = 'Node'

    def pre(self, E):
        return self.base_pre(E) + [('not empty', E.g['v'].n > 0)]

    def post(self, E):
        v, sp = E.g['v'], self.sp(E)
        nv = View(v.n - 1, lambda k: v.node(k + 1), lambda y: v.pos(y) - 1)
        return sp.rep(E.S, E.b('this'), nv) + [
            ('returns the first', E.ret.base == v.node(0)),
            ('popped element unlinked', And(E.S.ld('Node', sp.o_next, 'ptr', v.node(0)) == 0, E.S.ld('Node', sp.o_prev, 'ptr', v.node(0)) == 0))]

    def modifies(self, E):
        v = E.g['v']
        ends = [v.node(0), If(v.n > 1, v.node(1), v.node(0))]
        return self.mods2(E, None, ends, ends)


class PopLast(PopFirst):
    name = N + r'::PopLast\(\)'
    label = 'DoublyList::PopLast'

    def post(self, E):
        v, sp = E.g['v'], self.sp(E)
        l = v.node(v.n - 1)
        nv = View(v.n - 1, v.node, v.pos)
        return sp.rep(E.S, E.b('this'), nv) + [
            ('returns the last', E.ret.base == l),
            ('popped element unlinked', And(E.S.ld('Node', sp.o_next, 'ptr', l) == 0, E.S.ld('Node', sp.o_prev, 'ptr', l) == 0))]

    def modifies(self, E):
        v = E.g['v']
        ends = [v.node(v.n - 1), If(v.n > 1, v.node(v.n - 2), v.node(v.n - 1))]
        return self.mods2(E, None, ends, ends)


class Remove(DCon):
    name = N + r'::Remove\(Node\*\)'
    label = 'DoublyList::Remove'
    params = [('this', 'List'), ('aItem', 'Node')]

    def pre(self, E):
        v, x = E.g['v'], E.b('aItem')
        return self.base_pre(E) + [('item in the list', And(0 <= v.pos(x), v.pos(x) < v.n, v.node(v.pos(x)) == x))]

    def post(self, E):
        v, sp, x = E.g['v'], self.sp(E), E.b('aItem')
        at = v.pos(x)
        nv = View(v.n - 1, lambda k: If(k < at, v.node(k), v.node(k + 1)), lambda y: If(v.pos(y) < at, v.pos(y), v.pos(y) - 1))
        return sp.rep(E.S, E.b('this'), nv) + [
            ('removed element unlinked', And(E.S.ld('Node', sp.o_next, 'ptr', x) == 0, E.S.ld('Node', sp.o_prev, 'ptr', x) == 0))]

    def modifies(self, E):
        v, x = E.g['v'], E.b('aItem')
        at = v.pos(x)
        b = [x, If(at > 0, v.node(at - 1), x), If(at + 1 < v.n, v.node(at + 1), x)]
        return self.mods2(E, None, b, b)


_C += [PopFirst, PopLast, Remove]

C(fl.ItCtor, IT + r'::DoublyListIterator\(Node\*\)', 'DoublyListIterator()', fl.ItCtor.modifies)
it = C(fl.ItCtor, IT + r'::operator\+\+\(\)', 'DoublyListIterator::operator++', fl.ItCtor.modifies)
it.params, it.ret, it.post = fl.ItInc.params, fl.ItInc.ret, fl.ItInc.post
C(fl.CItInc, CIT + r'::operator\+\+\(\)', 'DoublyListConstIterator::operator++', fl.CItInc.modifies)

DLSpec.contracts = [c() for c in _C]
SPEC = DLSpec
