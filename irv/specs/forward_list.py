"""ForwardList: every operation is the corresponding sequence operation.

Abstract view of a list object: a length n and a sequence node(0..n-1) of distinct
elements.  rep(list, n, node) is the representation invariant of the real fields.
"""
from z3 import (And, Or, Not, If, Implies, Int, IntVal, ForAll, Function, IntSort, Select, BoolVal)
from ..spec import *

N = r'mg::box::ForwardList<Node, &\(?Node::myNext\)?>'
IT = r'mg::box::ForwardListIterator<Node, &\(?Node::myNext\)?>'
CIT = r'mg::box::ForwardListConstIterator<Node, &\(?Node::myNext\)?>'
i = Int('i_q')


class View:
    """A ghost sequence: length + element function + inverse."""

    def __init__(self, n, node, pos):
        self.n, self.node, self.pos = n, node, pos


def sym_view(tag):
    node = Function('node_' + tag, IntSort(), IntSort())
    pos = Function('pos_' + tag, IntSort(), IntSort())
    return View(Int('n_' + tag), lambda k: node(k), lambda x: pos(x))


class FLSpec(Spec):
    tu = 'forward_list.cpp'

    def on_attach(self):
        k = self.k
        self.o_first, self.o_last, self.o_next = k('off_first'), k('off_last'), k('off_next')
        self.classes = {
            'Node': Cls({self.o_next: To('Node')}),
            'List': Cls({self.o_first: To('Node'), self.o_last: Interior([('Node', self.o_next), ('List', self.o_first)])}),
            'It': Cls({k('off_it_pos'): To('Node'), k('off_it_next'): To('Node')}),
            'CIt': Cls({k('off_cit_pos'): To('Node')}),
            'Out': Cls({0: To('Node')}),
        }
        self.k_it = (k('off_it_pos'), k('off_it_next'), k('off_cit_pos'))

    def rep(self, S, L, v, nxt=True):
        """The representation invariant: list of (label, formula)."""
        first = S.ld('List', self.o_first, 'ptr', L)
        last = S.ld('List', self.o_last, 'ptr', L)
        code = S.ld('List', self.o_last, 'code', L)
        next_ = S.f('Node', self.o_next)
        n, node, pos = v.n, v.node, v.pos
        return [
            ('count >= 0', n >= 0),
            ('first', first == If(n == 0, 0, node(0))),
            ('last link', If(n == 0, And(last == L, code == 1), And(last == node(n - 1), code == 0))),
            ('elements distinct, non-null', ForAll([i], Implies(And(0 <= i, i < n), And(node(i) != 0, pos(node(i)) == i)), patterns=self.pat(node))),
            ('links', ForAll([i], Implies(And(0 <= i, i < n), Select(next_, node(i)) == If(i + 1 < n, node(i + 1), 0)), patterns=self.pat(node))),
        ]

    def pat(self, node):
        t = node(i)
        import z3
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).eq(i):
            return [t]
        return []

    def owned(self, own, v, tag):
        return ('owner', ForAll([i], Implies(And(0 <= i, i < v.n), own(v.node(i)) == tag), patterns=[v.node(i)]))


SP = FLSpec


class FCon(Con):
    loops = []

    def ghosts(self, E):
        own = Function('own', IntSort(), IntSort())
        return {'v': sym_view('this'), 's': sym_view('src'), 'own': own}

    def this(self, E):
        return E.b('this')

    def sp(self, E):
        return E.ex.spec

    def base_pre(self, E):
        g = E.g
        r = self.sp(E).rep(E.S0, E.b('this'), g['v'])
        r += [('this non-null', E.b('this') != 0), self.sp(E).owned(g['own'], g['v'], 1)]
        return r

    def fresh_item(self, E, nm):
        x = E.b(nm)
        return [('%s non-null and not in the list' % nm, And(x != 0, E.g['own'](x) == 0))]

    def src_pre(self, E):
        nm = [n for n, _ in self.params][1]
        g = E.g
        r = self.sp(E).rep(E.S0, E.b(nm), g['s'])
        r += [('src', And(E.b(nm) != 0, E.b(nm) != E.b('this'))), self.sp(E).owned(g['own'], g['s'], 2)]
        return r

    def chain_pre(self, E):
        """aFirst..aLast is a chain of elements outside of the list (last's link is arbitrary)."""
        g = E.g
        s = g['s']
        sp = self.sp(E)
        nx = E.S0.f('Node', sp.o_next)
        f, l = E.b('aFirst'), E.b('aLast')
        return [
            ('n', s.n >= 0),
            ('first', f == If(s.n == 0, 0, s.node(0))),
            ('last', l == If(s.n == 0, 0, s.node(s.n - 1))),
            ('elems', ForAll([i], Implies(And(0 <= i, i < s.n), And(s.node(i) != 0, s.pos(s.node(i)) == i)), patterns=[s.node(i)])),
            ('links', ForAll([i], Implies(And(0 <= i, i + 1 < s.n), Select(nx, s.node(i)) == s.node(i + 1)), patterns=[s.node(i)])),
            sp.owned(g['own'], s, 2),
        ]

    def empty_post(self, E, L):
        return self.sp(E).rep(E.S, L, View(IntVal(0), lambda k: IntVal(0), lambda x: IntVal(0)))

    def concat(self, E, a, b, taga):
        own = E.g['own']
        return View(a.n + b.n, lambda k: If(k < a.n, a.node(k), b.node(k - a.n)),
                    lambda x: If(own(x) == taga, a.pos(x), a.n + b.pos(x)))

    def modifies(self, E):
        sp = self.sp(E)
        L = [E.b('this')]
        return {('List', sp.o_first, 'ptr'): L, ('List', sp.o_last, 'ptr'): L, ('List', sp.o_last, 'code'): L}

    def mods2(self, E, src=None, nexts=None):
        sp = self.sp(E)
        m = FCon.modifies(self, E)
        if src is not None:
            for k in m:
                m[k] = m[k] + [src]
        if nexts is not None:
            m[('Node', sp.o_next, 'ptr')] = nexts
        return m

    def last_of(self, E):
        v = E.g['v']
        return If(v.n > 0, v.node(v.n - 1), E.b('aItem') if 'aItem' in E.a else IntVal(0))


class Ctor(FCon):
    name = N + r'::ForwardList\(\)'
    label = 'ForwardList()'
    params = [('this', 'List')]

    def pre(self, E):
        return [('this', E.b('this') != 0)]

    def post(self, E):
        return self.empty_post(E, E.b('this'))


class MoveCtor(FCon):
    name = N + r'::ForwardList\(' + N + r'&&\)'
    label = 'ForwardList(ForwardList&&)'
    params = [('this', 'List'), ('aList', 'List')]

    def pre(self, E):
        return [('this', E.b('this') != 0)] + self.src_pre(E)

    def post(self, E):
        return self.sp(E).rep(E.S, E.b('this'), E.g['s']) + self.empty_post(E, E.b('aList'))

    def modifies(self, E):
        return self.mods2(E, E.b('aList'))


class RangeCtor(FCon):
    name = N + r'::ForwardList\(Node\*, Node\*\)'
    label = 'ForwardList(first,last)'
    params = [('this', 'List'), ('aFirst', 'Node'), ('aLast', 'Node')]

    def pre(self, E):
        return [('this', E.b('this') != 0)] + self.chain_pre(E)

    def post(self, E):
        return self.sp(E).rep(E.S, E.b('this'), E.g['s'])

    def modifies(self, E):
        return self.mods2(E, None, [E.b('aLast')])


class Clear(FCon):
    name = N + r'::Clear\(\)'
    label = 'ForwardList::Clear'
    params = [('this', 'List')]
    verify_inline = True

    def pre(self, E):
        return [('this', E.b('this') != 0)]

    def post(self, E):
        return self.empty_post(E, E.b('this'))


class PrependItem(FCon):
    name = N + r'::Prepend\(Node\*\)'
    label = 'ForwardList::Prepend(item)'
    params = [('this', 'List'), ('aItem', 'Node')]
    modular = True

    def call_ghost(self, E):
        return E.ex.spec.call_views(E, self)

    def pre(self, E):
        return self.base_pre(E) + self.fresh_item(E, 'aItem')

    def post(self, E):
        v, x = E.g['v'], E.b('aItem')
        nv = View(v.n + 1, lambda k: If(k == 0, x, v.node(k - 1)), lambda y: If(y == x, 0, v.pos(y) + 1))
        return self.sp(E).rep(E.S, E.b('this'), nv)

    def modifies(self, E):
        return self.mods2(E, None, [E.b('aItem')])


class AppendItem(FCon):
    name = N + r'::Append\(Node\*\)'
    label = 'ForwardList::Append(item)'
    params = [('this', 'List'), ('aItem', 'Node')]

    def pre(self, E):
        return self.base_pre(E) + self.fresh_item(E, 'aItem')

    def post(self, E):
        v, x = E.g['v'], E.b('aItem')
        nv = View(v.n + 1, lambda k: If(k == v.n, x, v.node(k)), lambda y: If(y == x, v.n, v.pos(y)))
        return self.sp(E).rep(E.S, E.b('this'), nv)

    def modifies(self, E):
        return self.mods2(E, None, [E.b('aItem'), self.last_of(E)])


class PrependList(FCon):
    name = N + r'::Prepend\(' + N + r'&&\)'
    label = 'ForwardList::Prepend(list)'
    params = [('this', 'List'), ('aSrc', 'List')]

    def pre(self, E):
        return self.base_pre(E) + self.src_pre(E)

    def post(self, E):
        nv = self.concat(E, E.g['s'], E.g['v'], 2)
        return self.sp(E).rep(E.S, E.b('this'), nv) + self.empty_post(E, E.b('aSrc'))

    def modifies(self, E):
        s = E.g['s']
        return self.mods2(E, E.b('aSrc'), [If(s.n > 0, s.node(s.n - 1), 0)])


class AppendList(FCon):
    name = N + r'::Append\(' + N + r'&&\)'
    label = 'ForwardList::Append(list)'
    params = [('this', 'List'), ('aSrc', 'List')]

    def pre(self, E):
        return self.base_pre(E) + self.src_pre(E)

    def post(self, E):
        nv = self.concat(E, E.g['v'], E.g['s'], 1)
        return self.sp(E).rep(E.S, E.b('this'), nv) + self.empty_post(E, E.b('aSrc'))

    def modifies(self, E):
        return self.mods2(E, E.b('aSrc'), [self.last_of(E)])


class PrependRange(FCon):
    name = N + r'::Prepend\(Node\*, Node\*\)'
    label = 'ForwardList::Prepend(first,last)'
    params = [('this', 'List'), ('aFirst', 'Node'), ('aLast', 'Node')]

    def pre(self, E):
        return self.base_pre(E) + self.chain_pre(E)

    def post(self, E):
        return self.sp(E).rep(E.S, E.b('this'), self.concat(E, E.g['s'], E.g['v'], 2))

    def modifies(self, E):
        return self.mods2(E, None, [E.b('aLast')])


class AppendRange(FCon):
    name = N + r'::Append\(Node\*, Node\*\)'
    label = 'ForwardList::Append(first,last)'
    params = [('this', 'List'), ('aFirst', 'Node'), ('aLast', 'Node')]

    def pre(self, E):
        return self.base_pre(E) + self.chain_pre(E)

    def post(self, E):
        return self.sp(E).rep(E.S, E.b('this'), self.concat(E, E.g['v'], E.g['s'], 1))

    def modifies(self, E):
        return self.mods2(E, None, [E.b('aLast'), self.last_of(E)])


class Insert(FCon):
    name = N + r'::Insert\(Node\*, Node\*\)'
    label = 'ForwardList::Insert'
    params = [('this', 'List'), ('aPrev', 'Node'), ('aItem', 'Node')]

    def ghosts(self, E):
        g = FCon.ghosts(self, E)
        g['at'] = Int('g_at')
        return g

    def pre(self, E):
        v, p, at = E.g['v'], E.b('aPrev'), E.g['at']
        return self.base_pre(E) + self.fresh_item(E, 'aItem') + [
            ('prev in the list or null', Or(And(p == 0, at == 0), And(1 <= at, at <= v.n, p == v.node(at - 1))))]

    def post(self, E):
        v, x, at = E.g['v'], E.b('aItem'), E.g['at']
        nv = View(v.n + 1, lambda k: If(k < at, v.node(k), If(k == at, x, v.node(k - 1))),
                  lambda y: If(y == x, at, If(v.pos(y) < at, v.pos(y), v.pos(y) + 1)))
        return self.sp(E).rep(E.S, E.b('this'), nv)

    def modifies(self, E):
        return self.mods2(E, None, [E.b('aItem'), E.b('aPrev')])


def rev_inv(E):
    """cur is node(k) (or null, k=n); the list holds node(k-1)..node(0)."""
    sp = E.ex.spec
    v = E.g['v']
    cur = E.r['item'].base
    k = If(cur == 0, v.n, v.pos(cur))
    nx = E.S.f('Node', sp.o_next)
    nv = View(k, lambda j: v.node(k - 1 - j), lambda x: k - 1 - v.pos(x))
    out = sp.rep(E.S, E.b('this'), nv)
    out += [('cursor', And(0 <= k, k <= v.n, Implies(cur != 0, And(k < v.n, cur == v.node(k))))),
            ('rest untouched', ForAll([i], Implies(And(k <= i, i < v.n), Select(nx, v.node(i)) == If(i + 1 < v.n, v.node(i + 1), 0)), patterns=[v.node(i)])),
            ('frame', E.ex.spec.node_frame(E))]
    return out


def rev_variant(E):
    v = E.g['v']
    cur = E.r['item'].base
    return v.n - If(cur == 0, v.n, v.pos(cur))


def node_frame(self, E):
    """links of elements outside of the list are unchanged"""
    own = E.g['own']
    x = Int('x_q')
    nx, nx0 = E.S.f('Node', self.o_next), E.S0.f('Node', self.o_next)
    return ForAll([x], Implies(own(x) != 1, Select(nx, x) == Select(nx0, x)), patterns=[own(x)])


FLSpec.node_frame = node_frame


def call_views(self, E, con):
    """ghost arguments for Prepend(item) called inside Reverse"""
    v = E.ex.topE.g['v']
    x = E.b('aItem')
    k = v.pos(x)
    import z3
    own = E.ex.topE.g['own']
    return {'v': View(k, lambda j: v.node(k - 1 - j), lambda y: k - 1 - v.pos(y)), 'own': lambda y: z3.If(z3.And(own(y) == 1, v.pos(y) < k), 1, 0),
            's': None}


FLSpec.call_views = call_views


class Reverse(FCon):
    name = N + r'::Reverse\(\)'
    label = 'ForwardList::Reverse'
    params = [('this', 'List')]
    loops = [Loop({'item': 'ptr'}, rev_inv, rev_variant, cls={'item': 'Node'})]

    def pre(self, E):
        return self.base_pre(E)

    def post(self, E):
        v = E.g['v']
        nv = View(v.n, lambda k: v.node(v.n - 1 - k), lambda y: v.n - 1 - v.pos(y))
        return self.sp(E).rep(E.S, E.b('this'), nv) + [('other links untouched', self.sp(E).node_frame(E))]

    def modifies(self, E):
        m = self.mods2(E)
        m[('Node', self.sp(E).o_next, 'ptr')] = None
        return m


class PopAll(FCon):
    name = N + r'::PopAll\(\)'
    label = 'ForwardList::PopAll'
    params = [('this', 'List')]
    ret = 'Node'

    def pre(self, E):
        return self.base_pre(E)

    def post(self, E):
        v = E.g['v']
        return self.empty_post(E, E.b('this')) + [('returns the old first', E.ret.base == If(v.n == 0, 0, v.node(0)))]


class PopAllOut(FCon):
    name = N + r'::PopAll\(Node\*&\)'
    label = 'ForwardList::PopAll(out last)'
    params = [('this', 'List'), ('aOutLast', 'Out')]
    ret = 'Node'

    def pre(self, E):
        return self.base_pre(E) + [('out', E.b('aOutLast') != 0)]

    def post(self, E):
        v = E.g['v']
        return self.empty_post(E, E.b('this')) + [
            ('returns the old first', E.ret.base == If(v.n == 0, 0, v.node(0))),
            ('returns the old last', E.S.ld('Out', 0, 'ptr', E.b('aOutLast')) == If(v.n == 0, 0, v.node(v.n - 1)))]

    def modifies(self, E):
        m = self.mods2(E)
        m[('Out', 0, 'ptr')] = [E.b('aOutLast')]
        return m


class PopFirst(FCon):
    name = N + r'::PopFirst\(\)'
    label = 'ForwardList::PopFirst'
    params = [('this', 'List')]
    ret = 'Node'

    def pre(self, E):
        return self.base_pre(E) + [('not empty', E.g['v'].n > 0)]

    def post(self, E):
        v = E.g['v']
        nv = View(v.n - 1, lambda k: v.node(k + 1), lambda y: v.pos(y) - 1)
        return self.sp(E).rep(E.S, E.b('this'), nv) + [('returns the first', E.ret.base == v.node(0))]


class MoveAssign(FCon):
    name = N + r'::operator=\(' + N + r'&&\)'
    label = 'ForwardList::operator=(&&)'
    params = [('this', 'List'), ('aOther', 'List')]
    ret = 'List'

    def pre(self, E):
        return self.base_pre(E) + self.src_pre(E)

    def post(self, E):
        return self.sp(E).rep(E.S, E.b('this'), E.g['s']) + self.empty_post(E, E.b('aOther')) + [('returns this', E.ret.base == E.b('this'))]

    def modifies(self, E):
        return self.mods2(E, E.b('aOther'))


class GetFirst(FCon):
    name = N + r'::GetFirst\(\)( const)?'
    label = 'ForwardList::GetFirst'
    params = [('this', 'List')]
    ret = 'Node'

    def pre(self, E):
        return self.base_pre(E)

    def post(self, E):
        v = E.g['v']
        return [('first', E.ret.base == If(v.n == 0, 0, v.node(0)))]

    def modifies(self, E):
        return {}


class GetLast(GetFirst):
    name = N + r'::GetLast\(\)( const)?'
    label = 'ForwardList::GetLast'

    def post(self, E):
        v = E.g['v']
        return [('last', E.ret.base == If(v.n == 0, 0, v.node(v.n - 1)))]


class IsEmpty(GetFirst):
    name = N + r'::IsEmpty\(\) const'
    label = 'ForwardList::IsEmpty'
    ret = None

    def post(self, E):
        return [('empty', E.ret == (E.g['v'].n == 0))]


class ItCtor(FCon):
    name = IT + r'::ForwardListIterator\(Node\*\)'
    label = 'ForwardListIterator()'
    params = [('this', 'It'), ('aHead', 'Node')]

    def pre(self, E):
        return [('this', E.b('this') != 0)]

    def post(self, E):
        sp = self.sp(E)
        h = E.b('aHead')
        return [('pos', E.S.ld('It', sp.k_it[0], 'ptr', E.b('this')) == h),
                ('next prefetched', E.S.ld('It', sp.k_it[1], 'ptr', E.b('this')) == If(h == 0, 0, E.S0.ld('Node', sp.o_next, 'ptr', h)))]

    def modifies(self, E):
        sp = self.sp(E)
        return {('It', sp.k_it[0], 'ptr'): [E.b('this')], ('It', sp.k_it[1], 'ptr'): [E.b('this')]}


class ItInc(ItCtor):
    name = IT + r'::operator\+\+\(\)'
    label = 'ForwardListIterator::operator++'
    params = [('this', 'It')]
    ret = 'It'

    def post(self, E):
        sp = self.sp(E)
        t = E.b('this')
        nx = E.S0.ld('It', sp.k_it[1], 'ptr', t)
        return [('pos', E.S.ld('It', sp.k_it[0], 'ptr', t) == nx),
                ('next', E.S.ld('It', sp.k_it[1], 'ptr', t) == If(nx == 0, 0, E.S0.ld('Node', sp.o_next, 'ptr', nx)))]


class CItInc(FCon):
    name = CIT + r'::operator\+\+\(\)'
    label = 'ForwardListConstIterator::operator++'
    params = [('this', 'CIt')]
    ret = 'CIt'

    def pre(self, E):
        return [('this', E.b('this') != 0), ('not at the end', E.S0.ld('CIt', self.sp(E).k_it[2], 'ptr', E.b('this')) != 0)]

    def post(self, E):
        sp = self.sp(E)
        t = E.b('this')
        p = E.S0.ld('CIt', sp.k_it[2], 'ptr', t)
        return [('pos', E.S.ld('CIt', sp.k_it[2], 'ptr', t) == E.S0.ld('Node', sp.o_next, 'ptr', p))]

    def modifies(self, E):
        return {('CIt', self.sp(E).k_it[2], 'ptr'): [E.b('this')]}


FLSpec.contracts = [c() for c in (Ctor, MoveCtor, RangeCtor, Clear, PrependItem, AppendItem, PrependList, AppendList,
                                  PrependRange, AppendRange, Insert, Reverse, PopAll, PopAllOut, PopFirst, MoveAssign,
                                  GetFirst, GetLast, IsEmpty, ItCtor, ItInc, CItInc)]
SPEC = FLSpec
