"""BinaryHeap (intrusive min and max): the heap order, the exact set of elements and
each element's stored index, after every operation and for every heap size."""
from z3 import (And, Or, Not, If, Implies, Int, IntVal, ForAll, Function, IntSort, Select, BoolVal)
from ..spec import *

k = Int('k_q')
x = Int('x_q')
M32 = 1 << 32
NEG1 = M32 - 1
# trigger for the heap-order quantifiers (holds everywhere; only steers instantiation)
ordt = Function('order_trigger', IntSort(), z3.BoolSort())


class H:
    """The heap object as seen in a state."""

    def __init__(self, E, S):
        sp = E.ex.spec
        self.sp = sp
        this = E.b('this')
        self.base = S.ld('Heap', 0, 'ptr', this)
        self.n = S.ld('Heap', 8, 'ix', this)
        self.endbase = S.ld('Heap', 8, 'ptr', this)
        self.bix = S.ld('Heap', 0, 'ix', this)
        self.data = S.arr('buf', 0, 'ptr', self.base)
        self.idx = S.f('Node', sp.o_index, 'i32')
        self.key = S.f('Node', sp.o_key, 'i64')

    def d(self, j):
        return Select(self.data, j)

    def ix(self, y):
        return Select(self.idx, y)

    def above(self, a, b):
        ka, kb = Select(self.key, a), Select(self.key, b)
        return ka <= kb if self.sp.minheap else ka >= kb

    def strictly(self, a, b):
        ka, kb = Select(self.key, a), Select(self.key, b)
        return ka < kb if self.sp.minheap else ka > kb

    def member(self, y):
        return And(0 <= self.ix(y), self.ix(y) < self.n, self.d(self.ix(y)) == y)

    def vec(self):
        return [('vector is consistent', And(self.bix == 0, self.base == self.endbase, self.n >= 0, self.n < (1 << 31) - 1,
                                             Implies(self.n > 0, self.base != 0)))]

    def index_ok(self, exc=None):
        c = [0 <= k, k < self.n] + ([k != exc] if exc is not None else [])
        return ForAll([k], Implies(And(*c), And(self.d(k) != 0, self.ix(self.d(k)) == k)), patterns=[self.d(k)])

    def par(self, j):
        return (j - 1) / 2

    def order(self, exc=None):
        """exc: index whose own relation and whose children's relations are left out"""
        c = [0 < k, k < self.n, ordt(k)]
        if exc is not None:
            c += [k != exc, self.par(k) != exc]
        return ForAll([k], Implies(And(*c), self.above(self.d(self.par(k)), self.d(k))), patterns=[ordt(k)])

    def grand(self, i):
        """the parent of i is above the children of i"""
        return ForAll([k], Implies(And(0 < k, k < self.n, ordt(k), self.par(k) == i, i > 0), self.above(self.d(self.par(i)), self.d(k))), patterns=[ordt(k)])


class HeapSpec(Spec):
    tu = 'binary_heap.cpp'
    minheap = True
    assumptions = ('a heap holds fewer than 2^31-1 elements (the index type)',
                   'the comparison operators of the element type are those of its key (a total preorder)')

    def on_attach(self):
        self.o_key, self.o_index = self.k('off_key'), self.k('off_index')
        self.classes = {
            'Node': Cls({}),
            'Heap': Cls({0: To('buf', idx=True), 8: To('buf', idx=True), 16: To('buf', idx=True)}),
            'buf': Cls({0: To('Node')}, arr=True, stride=8),
            'Ref': Cls({0: To('Node')}),
            'Out': Cls({0: To('Node')}),
        }

    def on_access(self, ex, S, p, what):
        if p.cls == 'buf':
            ex.assume(S, ordt(p.idx if p.idx is not None else IntVal(0)))

    def array_bound(self, ex, S, p):
        this = ex.topE.b('this') if 'this' in ex.topE.a else None
        if p.cls == 'buf' and this is not None:
            return (0, S.ld('Heap', 8, 'ix', this))


def N(sp):
    return r'mg::box::BinaryHeap<Node\*, mg::box::BinaryHeap(Min|Max)PtrIntrusiveMethods<Node, &\(?Node::myIndex\)?> ?>'


N_ = r'mg::box::BinaryHeap<Node\*, mg::box::BinaryHeap%sPtrIntrusiveMethods<Node, &\(?Node::myIndex\)?> ?>'


class HCon(Con):
    params = [('this', 'Heap')]

    def wf(self, E, S):
        h = H(E, S)
        return h.vec() + [('indexes', h.index_ok()), ('this', E.b('this') != 0)]

    def pre(self, E):
        return self.wf(E, E.S0) + [('heap order', H(E, E.S0).order())]

    def keys_mod(self, E, heap=True, vec=False):
        h = H(E, E.S0)
        m = {('buf', 0, 'ptr', 'A'): None, ('Node', E.ex.spec.o_index, 'i32'): None}
        if vec:
            for o in (0, 8, 16):
                m[('Heap', o, 'ptr')] = [E.b('this')]
                m[('Heap', o, 'ix')] = [E.b('this')]
        return m

    def same_set(self, E, plus=None, minus=None):
        """element set after = before + plus - minus; other elements' indexes untouched"""
        h0, h1 = H(E, E.S0), H(E, E.S)
        was = h0.member(x)
        if plus is not None:
            was = Or(was, x == plus)
        if minus is not None:
            was = And(was, x != minus)
        out = [('exactly the expected elements', ForAll([x], Implies(was, h1.member(x)), patterns=[h1.ix(x)])),
               ('no other element', ForAll([k], Implies(And(0 <= k, k < h1.n), z3.substitute(was, (x, h1.d(k)))), patterns=[h1.d(k)])),
               ('indexes of other objects untouched', ForAll([x], Implies(Not(Or(h0.member(x), x == plus) if plus is not None else h0.member(x)), h1.ix(x) == h0.ix(x)), patterns=[h1.ix(x)]))]
        return out


class Up(HCon):
    suffix = r'::PrivUpdateUp\(unsigned int\)'
    label = 'sift up'
    modular = True
    params = [('this', 'Heap'), ('i', None)]

    def ipre(self, E):
        h = H(E, E.S0)
        i = E.a['i']
        return self.wf(E, E.S0) + [('index in range', And(0 <= i, i < h.n)), ('order elsewhere', h.order(i)), ('grandparent', h.grand(i))]

    pre = ipre

    def modifies(self, E):
        return self.keys_mod(E)

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        i = E.a['i']
        return self.wf(E, E.S) + [
            ('moved: heap order', Implies(E.ret, h.order())),
            ('not moved: above holds', Implies(And(Not(E.ret), i > 0), h.above(h.d(h.par(i)), h.d(i)))),
            ('not moved: nothing changed', Implies(Not(E.ret), ForAll([k], h.d(k) == h0.d(k), patterns=[h.d(k)]))),
            ('not moved: indexes same', Implies(Not(E.ret), ForAll([x], h.ix(x) == h0.ix(x), patterns=[h.ix(x)]))),
            ('size', h.n == h0.n)] + self.same_set(E)

    def up_inv(E):
        h0, h = H(E, E.S0), H(E, E.S)
        i, hole, parent = E.a['i'], E.r['aIndex'], E.r['parent']
        tmp = h0.d(i)
        return [('hole', And(0 < hole, hole <= i, parent == h.par(hole))),
                ('tmp goes up', h.above(tmp, h.d(parent))),
                ('indexes', h.index_ok(hole)),
                ('order', h.order(hole)), ('grand', h.grand(hole)),
                ('elements kept', ForAll([x], Implies(And(h0.member(x), x != tmp), And(h.member(x), h.ix(x) != hole)), patterns=[h.ix(x)])),
                ('no new elements', ForAll([k], Implies(And(0 <= k, k < h.n, k != hole), And(h0.member(h.d(k)), h.d(k) != tmp)), patterns=[h.d(k)])),
                ('others', ForAll([x], Implies(Not(h0.member(x)), h.ix(x) == h0.ix(x)), patterns=[h.ix(x)])),
                ('buffer frame', True if False else BoolVal(True))]

    loops = [Loop({'aIndex': 'i32', 'parent': 'i32'}, up_inv, lambda E: E.r['aIndex'])]


class Down(Up):
    suffix = r'::PrivUpdateDown\(unsigned int\)'
    label = 'sift down'

    def pre(self, E):
        h = H(E, E.S0)
        i = E.a['i']
        c = self.wf(E, E.S0) + [('index in range', And(0 <= i, Or(i < h.n, And(i == 0, h.n == 0)))),
                                ('order elsewhere', h.order(i)), ('grandparent', h.grand(i)),
                                ('parent above', Implies(And(i > 0), h.above(h.d(h.par(i)), h.d(i))))]
        return c

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        return self.wf(E, E.S) + [('heap order', h.order()), ('size', h.n == h0.n)] + self.same_set(E)

    def down_inv(E):
        h0, h = H(E, E.S0), H(E, E.S)
        i, hole, top = E.a['i'], E.r['aIndex'], E.r['topChild']
        tmp = h0.d(i)
        lc, rc = 2 * hole + 1, 2 * hole + 2
        return [('hole', And(i <= hole, 0 <= hole, hole < h.n)),
                ('child', And(Or(top == lc, top == rc), top < h.n, h.above(h.d(top), tmp),
                              h.above(h.d(top), h.d(lc)), Implies(rc < h.n, h.above(h.d(top), h.d(rc))))),
                ('indexes', h.index_ok(hole)),
                ('order', h.order(hole)), ('grand', h.grand(hole)),
                ('elements kept', ForAll([x], Implies(And(h0.member(x), x != tmp), And(h.member(x), h.ix(x) != hole)), patterns=[h.ix(x)])),
                ('no new elements', ForAll([k], Implies(And(0 <= k, k < h.n, k != hole), And(h0.member(h.d(k)), h.d(k) != tmp)), patterns=[h.d(k)])),
                ('others', ForAll([x], Implies(Not(h0.member(x)), h.ix(x) == h0.ix(x)), patterns=[h.ix(x)]))]

    loops = [Loop({'aIndex': 'i32', 'topChild': 'i32'}, down_inv, lambda E: H(E, E.S).n - E.r['aIndex'])]


class Push(HCon):
    suffix = r'::Push\(Node\* const&\)'
    label = 'Push'
    params = [('this', 'Heap'), ('aValue', 'Ref')]

    def val(self, E):
        return E.S0.ld('Ref', 0, 'ptr', E.b('aValue'))

    def pre(self, E):
        h = H(E, E.S0)
        v = self.val(E)
        return HCon.pre(self, E) + [('value', And(E.b('aValue') != 0, v != 0, Not(h.member(v)))), ('room', h.n + 1 < (1 << 31) - 1)]

    def modifies(self, E):
        return self.keys_mod(E, vec=True)

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        return self.wf(E, E.S) + [('heap order', h.order()), ('size', h.n == h0.n + 1)] + self.same_set(E, plus=self.val(E))


class UpdateTop(HCon):
    """The caller has changed the key of the top."""
    suffix = r'::UpdateTop\(\)'
    label = 'UpdateTop'

    def pre(self, E):
        h = H(E, E.S0)
        return self.wf(E, E.S0) + [('order elsewhere', h.order(IntVal(0)))]

    def modifies(self, E):
        return self.keys_mod(E)

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        return self.wf(E, E.S) + [('heap order', h.order()), ('size', h.n == h0.n)] + self.same_set(E)


class Update(Push):
    """The caller has changed the key of one element arbitrarily."""
    suffix = r'::Update\(Node\* const&\)'
    label = 'Update'

    def pre(self, E):
        h = H(E, E.S0)
        v = self.val(E)
        i = h.ix(v)
        return self.wf(E, E.S0) + [('value', And(E.b('aValue') != 0, v != 0, h.member(v))), ('order elsewhere', h.order(i)), ('grandparent', h.grand(i))]

    modifies = UpdateTop.modifies
    post = UpdateTop.post


class RemoveTop(HCon):
    suffix = r'::RemoveTop\(\)'
    label = 'RemoveTop'

    def modifies(self, E):
        return self.keys_mod(E, vec=True)

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        return self.wf(E, E.S) + [('heap order', h.order()), ('returns whether there was one', E.ret == (h0.n > 0)),
                                  ('size', h.n == If(h0.n > 0, h0.n - 1, 0)),
                                  ('removed index is -1', Implies(h0.n > 0, h.ix(h0.d(0)) == NEG1)),
                                  ('set', conj([f for _, f in self.same_set(E, minus=If(h0.n > 0, h0.d(0), 0))]))]


class Remove(Push):
    suffix = r'::Remove\(Node\* const&\)'
    label = 'Remove'

    def pre(self, E):
        h = H(E, E.S0)
        v = self.val(E)
        i = h.ix(v)
        return HCon.pre(self, E) + [('value', And(E.b('aValue') != 0, v != 0, h.member(v)))]

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        v = self.val(E)
        return self.wf(E, E.S) + [('heap order', h.order()), ('size', h.n == h0.n - 1),
                                  ('removed index is -1', h.ix(v) == NEG1)] + self.same_set(E, minus=v)


class Pop(RemoveTop):
    suffix = r'::Pop\(Node\*&\)'
    label = 'Pop'
    params = [('this', 'Heap'), ('aOut', 'Out')]

    def pre(self, E):
        return HCon.pre(self, E) + [('out', E.b('aOut') != 0)]

    def modifies(self, E):
        m = self.keys_mod(E, vec=True)
        m[('Out', 0, 'ptr')] = [E.b('aOut')]
        return m

    def post(self, E):
        h0 = H(E, E.S0)
        o = E.S.ld('Out', 0, 'ptr', E.b('aOut'))
        return RemoveTop.post(self, E) + [('returns the top', Implies(h0.n > 0, o == h0.d(0))),
                                          ('out untouched if empty', Implies(h0.n == 0, o == E.S0.ld('Out', 0, 'ptr', E.b('aOut'))))]


class GetTop(HCon):
    suffix = r'::GetTop\(\)( const)?'
    label = 'GetTop'

    def pre(self, E):
        return HCon.pre(self, E) + [('not empty', H(E, E.S0).n > 0)]

    def post(self, E):
        h = H(E, E.S)
        j = Int('j_lemma')
        ind = Implies(And(ordt(j), 0 < j, j < h.n, h.order(), ForAll([k], Implies(And(0 <= k, k < j), h.above(h.d(0), h.d(k))), patterns=[h.d(k)]),
                          h.d(h.par(j)) == h.d(h.par(j))), h.above(h.d(0), h.d(j)))
        return [('refers to the first slot', And(E.ret.base == h.base, (E.ret.idx if E.ret.idx is not None else IntVal(0)) == 0)),
                ('the top is an extreme (induction step over the size)', ind)]


class Count(HCon):
    suffix = r'::Count\(\) const'
    label = 'Count'

    def post(self, E):
        return [('number of elements', E.ret == H(E, E.S0).n)]


class VPush(HCon):
    suffix = None
    label = 'std::vector::push_back'
    trusted = True
    verify = False
    why = 'libstdc++'
    params = [('this', 'Heap'), ('aValue', 'Ref')]

    def pre(self, E):
        return H(E, E.S0).vec()

    def modifies(self, E):
        return {kk: v for kk, v in self.keys_mod(E, vec=True).items() if kk[0] != 'Node'}

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        v = E.S0.ld('Ref', 0, 'ptr', E.b('aValue'))
        return [('vec', And(h.bix == 0, h.base == h.endbase, h.n == h0.n + 1, h.base != 0)),
                ('copied', ForAll([k], Implies(And(0 <= k, k < h0.n), h.d(k) == h0.d(k)), patterns=[h.d(k)])),
                ('appended', h.d(h0.n) == v)]


class VReserve(VPush):
    label = 'std::vector::reserve'
    params = [('this', 'Heap'), ('n', None)]

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        return [('vec', And(h.bix == 0, h.base == h.endbase, h.n == h0.n)), Implies(h0.n > 0, h.base != 0)][:1] + [
            ('nn', Implies(h0.n > 0, h.base != 0)),
            ('copied', ForAll([k], Implies(And(0 <= k, k < h0.n), h.d(k) == h0.d(k)), patterns=[h.d(k)]))]


class Reserve(HCon):
    suffix = r'::Reserve\(unsigned int\)'
    label = 'Reserve'
    params = [('this', 'Heap'), ('n', None)]

    def modifies(self, E):
        return {kk: v for kk, v in self.keys_mod(E, vec=True).items() if kk[0] != 'Node'}

    def post(self, E):
        h0, h = H(E, E.S0), H(E, E.S)
        return self.wf(E, E.S) + [('heap order', h.order()), ('size', h.n == h0.n)] + self.same_set(E)


def mk(sp, mm):
    out = []
    for c in (Up, Down, Push, UpdateTop, Update, RemoveTop, Remove, Pop, GetTop, Count, Reserve):
        o = c()
        o.name = N_ % mm + c.suffix
        o.label = '%s-heap %s' % (mm, c.label)
        out.append(o)
    p = VPush()
    p.name = r'std::vector<Node\*, std::allocator<Node\*> ?>::push_back\(Node\* const&\)'
    out.append(p)
    p = VReserve()
    p.name = r'std::vector<Node\*, std::allocator<Node\*> ?>::reserve\(unsigned long\)'
    out.append(p)
    return out


class MinHeap(HeapSpec):
    contracts = mk(None, 'Min')


class MaxHeap(HeapSpec):
    minheap = False
    contracts = mk(None, 'Max')


SPEC = [MinHeap, MaxHeap]
