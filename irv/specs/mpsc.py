"""Multi-producer queue: every push and pop is one atomic step on a FIFO sequence.

Ghost state shared by all threads: the sequence Q[0..Qn-1] (oldest first) and an owner
per element (ME, in the QUEUE, or OTHER).  An element's link may be touched only by the
thread owning it.
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, ForAll, Function, IntSort, Select, BoolVal, IntSort
from ..spec import *
from ..rg import RG, RCon

N = r'mg::box::MultiProducerQueueIntrusive<Node, &\(?Node::myNext\)?>::'
ME, QUEUE = 2, 1
i, x = Int('i_q'), Int('x_q')


class MPSC(RG):
    tu = 'mpsc.cpp'
    ghost_sorts = dict(Q=ARR, Qn=I, qpos=ARR, own=ARR, lin=I, linQn=I, T=ARR, Tn=I, tpos=ARR, popped=I)
    env_ghosts = ('Q', 'Qn', 'qpos', 'own')
    assumptions = RG.assumptions + ('a user never pushes an element which is already in a queue, and never touches an element while it is in the queue',)

    def on_attach(self):
        self.oh, self.on = self.k('off_head'), self.k('off_next')
        self.kh, self.kn = ('MPQ', self.oh, 'ptr'), ('Node', self.on, 'ptr')
        self.shared = (self.kh,)
        self.env_cells = (self.kn,)
        self.classes = {'MPQ': Cls({self.oh: To('Node')}), 'Node': Cls({self.on: To('Node')}), 'Out': Cls({0: To('Node')})}

    THIS = Int('p_this')

    def inv(self, S, E=None):
        g = S.ghost
        Q, Qn, nx = g['Q'], g['Qn'], S.get(self.kn)
        q = Select(Q, i)
        return [
            ('queue length', Qn >= 0),
            ('head is the newest element', Select(S.get(self.kh), self.THIS) == If(Qn == 0, 0, Select(Q, Qn - 1))),
            ('queue elements are distinct, owned by the queue and linked newest to oldest',
             ForAll([i], Implies(And(0 <= i, i < Qn), And(q != 0, Select(g['own'], q) == QUEUE, Select(g['qpos'], q) == i,
                                                          Select(nx, q) == If(i == 0, 0, Select(Q, i - 1)))), patterns=[q])),
        ]

    def rely(self, S0, S):
        o0, o1 = S0.ghost['own'], S.ghost['own']
        n0, n1 = S0.get(self.kn), S.get(self.kn)
        return [
            ('my elements stay mine', ForAll([x], (Select(o1, x) == ME) == (Select(o0, x) == ME), patterns=[Select(o1, x)])),
            ('and untouched', ForAll([x], Implies(Select(o0, x) == ME, Select(n1, x) == Select(n0, x)), patterns=[Select(n1, x)])),
        ]

    def on_access(self, ex, S, p, what):
        if p.cls == 'Node':
            ex.prove(S, Select(S.ghost['own'], p.base) == ME, 'only the owner touches an element (%s)' % what, ex.cur_loc, 'race')

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        Q, Qn, qpos, own = g['Q'], g['Qn'], g['qpos'], g['own']
        if z3.is_int_value(new.base) and new.base.as_long() == 0:
            self.order(ex, S, order, 'acquire', 'taking the elements')
            g['T'], g['Tn'], g['tpos'] = Q, Qn, qpos
            g['popped'] = g['popped'] + 1
            own2 = fresh('own', ARR)
            inq = And(0 <= Select(qpos, x), Select(qpos, x) < Qn, Select(Q, Select(qpos, x)) == x)
            ex.assume(S, ForAll([x], Select(own2, x) == If(inq, ME, Select(own, x)), patterns=[Select(own2, x)]))
            g['own'] = own2
            g['Qn'] = IntVal(0)
            return
        c = ex.topE.g.get('c')
        if c is None:
            ex.prove(S, BoolVal(False), 'the head is only replaced by null here', ex.cur_loc, 'guarantee')
            raise PathEnd()
        n, node, pos = c
        ex.prove(S, And(n > 0, new.base == node(0)), 'the pushed elements become the head', ex.cur_loc, 'guarantee')
        self.order(ex, S, order, 'release', 'publishing the elements')
        g['lin'] = g['lin'] + 1
        g['linQn'] = Qn
        Q2, p2, own2 = fresh('Q', ARR), fresh('qpos', ARR), fresh('own', ARR)
        inch = And(0 <= pos(x), pos(x) < n, node(pos(x)) == x)
        ex.assume(S, ForAll([i], Select(Q2, i) == If(i < Qn, Select(Q, i), node(n - 1 - (i - Qn))), patterns=[Select(Q2, i)]))
        ex.assume(S, ForAll([x], Select(p2, x) == If(inch, Qn + n - 1 - pos(x), Select(qpos, x)), patterns=[Select(p2, x)]))
        ex.assume(S, ForAll([x], Select(own2, x) == If(inch, QUEUE, Select(own, x)), patterns=[Select(own2, x)]))
        g['Q'], g['qpos'], g['own'], g['Qn'] = Q2, p2, own2, Qn + n

    def inline_loops(self, name):
        c = self.contract_for(name)
        return c.loops if c is not None else None


class QCon(RCon):
    out = None

    def ghosts(self, E):
        return {}

    def base(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return [('this', E.b('this') != 0), ('counters', And(g['lin'] == 0, g['popped'] == 0))] + sp.inv(E.S)

    def pre(self, E):
        return self.base(E)

    def nothing(self, E):
        return ('no element pushed or taken', And(E.S.ghost['lin'] == 0, E.S.ghost['popped'] == 0))


class Ctor(RCon):
    name = N + r'MultiProducerQueueIntrusive\(\)'
    label = 'constructor'
    params = [('this', 'MPQ')]

    def pre(self, E):
        return [('this', E.b('this') != 0)]

    def post(self, E):
        return [('empty', Select(E.S.get(E.ex.spec.kh), E.b('this')) == 0)]


def plain_ctor(spec_cls):
    # construction is not concurrent with anything: the head is a plain cell there
    class S2(spec_cls):
        def on_attach(self):
            spec_cls.on_attach(self)
            self.shared = ()
        contracts = [Ctor()]
        assumptions = ('construction happens before any concurrent use',)
    return S2


class IsEmpty(QCon):
    name = N + r'IsEmpty\(\)'
    label = 'IsEmpty'
    params = [('this', 'MPQ')]

    def post(self, E):
        return [('tells whether the queue was empty', E.ret == (E.S.ghost['Qn'] == 0)), self.nothing(E)]


class Push(QCon):
    """the caller's chain a(0..n-1), linked in this order; user order of the result"""
    params = [('this', 'MPQ'), ('aFirst', 'Node')]
    fifo = False          # False: the queue gets last..first
    ends = True           # the chain ends with null
    n_min = 0

    def count(self, E):
        return Int('n_a')

    def ghosts(self, E):
        an, ap = Function('node_a', IntSort(), IntSort()), Function('pos_a', IntSort(), IntSort())
        n = self.count(E)
        a = (n, lambda k: an(k), lambda y: ap(y))
        c = (n, lambda k: an(n - 1 - k), lambda y: n - 1 - ap(y)) if self.fifo else a
        return dict(a=a, c=c)

    def chain(self, E, S, upto_last=True):
        n, node, pos = E.g['a']
        own, nx = S.ghost['own'], S.get(E.ex.spec.kn)
        return [
            ('elements', ForAll([i], Implies(And(0 <= i, i < n), And(node(i) != 0, pos(node(i)) == i, Select(own, node(i)) == ME)), patterns=[node(i)])),
            ('links', ForAll([i], Implies(And(0 <= i, i + 1 < n), Select(nx, node(i)) == node(i + 1)), patterns=[node(i)])),
        ] + ([('end', Implies(n > 0, Select(nx, node(n - 1)) == 0))] if upto_last and self.ends else [])

    def ends_pre(self, E):
        n, node, pos = E.g['a']
        return [('first', E.b('aFirst') == If(n == 0, 0, node(0))), ('n', n >= self.n_min)] + \
            ([('last', E.b('aLast') == If(n == 0, 0, node(n - 1)))] if 'aLast' in E.a else [])

    def pre(self, E):
        return self.base(E) + self.ends_pre(E) + self.chain(E, E.S)

    def post(self, E):
        n, node, pos = E.g['a']
        g = E.S.ghost
        Q, Qn, q0 = g['Q'], g['Qn'], g['linQn']
        j = Int('j_q')
        want = node(j) if self.fifo else node(n - 1 - j)
        return [
            ('pushed exactly once', g['lin'] == If(n == 0, 0, 1)), ('nothing taken', g['popped'] == 0),
            ('all elements arrive, in order', Implies(n > 0, And(Qn == q0 + n, ForAll([j], Implies(And(0 <= j, j < n), Select(Q, q0 + j) == want), patterns=[Select(Q, q0 + j)])))),
            ('tells whether the queue was empty', E.ret == If(n == 0, Qn == 0, q0 == 0)),
        ]


def push_inv(E):
    """retry loop around the compare-exchange"""
    sp = E.ex.spec
    g = E.S.ghost
    n, node, pos = E.ex.topE.g['c']
    own, own0 = g['own'], E.L.ghost['own']
    nx, nx0 = E.S.get(sp.kn), E.L.get(sp.kn)
    return sp.inv(E.S) + [
        ('not pushed yet', And(g['lin'] == 0, g['popped'] == 0)),
        ('ownership kept', ForAll([x], (Select(own, x) == ME) == (Select(own0, x) == ME), patterns=[Select(own, x)])),
        ('links kept', ForAll([x], Implies(And(Select(own0, x) == ME, x != node(n - 1)), Select(nx, x) == Select(nx0, x)), patterns=[Select(nx, x)])),
    ]


class PrivPushRange(Push):
    name = N + r'PrivPushRange\(Node\*, Node\*\)'
    label = 'PrivPushRange'
    params = [('this', 'MPQ'), ('aFirst', 'Node'), ('aLast', 'Node')]
    ends = False
    n_min = 1
    loops = [Loop({'oldHead': 'ptr'}, push_inv, cls={'oldHead': 'Node'})]


class Push1(Push):
    name = N + r'Push\(Node\*\)'
    label = 'Push'
    params = [('this', 'MPQ'), ('aItem', 'Node')]
    ends = False

    def count(self, E):
        return IntVal(1)

    def ends_pre(self, E):
        return [('item', E.b('aItem') == E.g['a'][1](0))]


class PushFR2(Push):
    name = N + r'PushManyFastReversed\(Node\*, Node\*\)'
    label = 'PushManyFastReversed(first, last)'
    params = [('this', 'MPQ'), ('aFirst', 'Node'), ('aLast', 'Node')]
    ends = False


def find_last_inv(E):
    sp = E.ex.spec
    n, node, pos = E.ex.topE.g['a']
    last = E.r['last'].base
    return [('last', And(0 <= pos(last), pos(last) < n, node(pos(last)) == last))]


class PushFR1(Push):
    name = N + r'PushManyFastReversed\(Node\*\)'
    label = 'PushManyFastReversed(first)'
    loops = [Loop({'last': 'ptr'}, find_last_inv, lambda E: E.ex.topE.g['a'][0] - E.ex.topE.g['a'][2](E.r['last'].base), cls={'last': 'Node'})]


def rev_inv(E):
    sp = E.ex.spec
    n, node, pos = E.ex.topE.g['a']
    nx = E.S.get(sp.kn)
    cur, prev = E.r['aFirst'].base, E.r['prev'].base
    j = pos(cur)
    g = E.S.ghost
    return sp.inv(E.S) + [
        ('cursor', And(1 <= j, j < n, cur == node(j), prev == node(j - 1))),
        ('reversed part', ForAll([i], Implies(And(1 <= i, i < j), Select(nx, node(i)) == node(i - 1)), patterns=[node(i)])),
        ('rest', ForAll([i], Implies(And(j <= i, i < n), Select(nx, node(i)) == If(i + 1 < n, node(i + 1), 0)), patterns=[node(i)])),
    ]


class PushMany(Push):
    name = N + r'PushMany\(Node\*\)'
    label = 'PushMany'
    fifo = True
    loops = [Loop({'aFirst': 'ptr', 'prev': 'ptr'}, rev_inv, lambda E: E.ex.topE.g['a'][0] - E.ex.topE.g['a'][2](E.r['aFirst'].base), cls={'aFirst': 'Node', 'prev': 'Node'})]


class PopFR(QCon):
    name = N + r'PopAllFastReversed\(\)'
    label = 'PopAllFastReversed'
    params = [('this', 'MPQ')]
    ret = 'Node'
    fifo = False

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        T, n, own, nx = g['T'], g['Tn'], g['own'], E.S.get(sp.kn)
        t = Select(T, i)
        if self.fifo:
            first, last, link = Select(T, 0), Select(T, n - 1), If(i + 1 < n, Select(T, i + 1), 0)
        else:
            first, last, link = Select(T, n - 1), Select(T, 0), If(i == 0, 0, Select(T, i - 1))
        r = [('taken exactly once', And(g['popped'] == 1, g['lin'] == 0)), ('the queue is empty', g['Qn'] == 0),
             ('returns the chain', E.ret.base == If(n == 0, 0, first)),
             ('the whole queue, in order, now owned by the caller', ForAll([i], Implies(And(0 <= i, i < n), And(t != 0, Select(own, t) == ME, Select(nx, t) == link)), patterns=[t]))]
        if 'aOutTail' in E.a:
            r.append(('tail', E.S.ld('Out', 0, 'ptr', E.b('aOutTail')) == If(n == 0, 0, last)))
        return r


def pop_inv(E):
    sp = E.ex.spec
    g = E.S.ghost
    T, n, tp, nx, own = g['T'], g['Tn'], g['tpos'], E.S.get(sp.kn), g['own']
    prev, curr = E.r['prev'].base, E.r['curr'].base
    k = If(prev == 0, n, Select(tp, prev))
    t = Select(T, i)
    return sp.inv(E.S) + [
        ('taken', And(n >= 0, g['popped'] == 1, g['lin'] == 0, g['Qn'] == 0)),
        ('cursor', And(0 <= k, k <= n, curr == If(k == 0, 0, Select(T, k - 1)), prev == If(k == n, 0, Select(T, k)))),
        ('elements', ForAll([i], Implies(And(0 <= i, i < n), And(t != 0, Select(tp, t) == i, Select(own, t) == ME)), patterns=[t])),
        ('reversed part', ForAll([i], Implies(And(k <= i, i < n), Select(nx, t) == If(i + 1 < n, Select(T, i + 1), 0)), patterns=[t])),
        ('rest', ForAll([i], Implies(And(0 <= i, i < k), Select(nx, t) == If(i == 0, 0, Select(T, i - 1))), patterns=[t])),
    ]


POPLOOP = [Loop({'curr': 'ptr', 'prev': 'ptr'}, pop_inv,
                lambda E: If(E.r['prev'].base == 0, E.S.ghost['Tn'], Select(E.S.ghost['tpos'], E.r['prev'].base)), cls={'curr': 'Node', 'prev': 'Node'})]


class PopAll(PopFR):
    name = N + r'PopAll\(\)'
    label = 'PopAll()'
    fifo = True


class PopAllT(PopFR):
    name = N + r'PopAll\(Node\*&\)'
    label = 'PopAll(tail)'
    params = [('this', 'MPQ'), ('aOutTail', 'Out')]
    fifo = True
    loops = POPLOOP

    def pre(self, E):
        return self.base(E) + [('out', E.b('aOutTail') != 0)]


class MPSCFns(MPSC):
    contracts = [IsEmpty(), PrivPushRange(), Push1(), PushFR2(), PushFR1(), PushMany(), PopFR(), PopAll(), PopAllT()]

    def is_contract(self, n, dem):
        return RG.is_contract(self, n, dem)


SPEC = [MPSCFns, plain_ctor(MPSC)]
