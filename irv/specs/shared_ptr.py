"""Reference counting: the counter, PrivRef/PrivUnref and the shared pointers.

RefCount: all threads' references are counted; mine of them belong to this thread.  Dec
reports true to exactly the one dropping the last, with the memory orders which make
the others' work happen before the destruction.
SharedPtrIntrusive: the number of references of every object changes by exactly the
number of pointers to it which appear or disappear; nothing is read or written after a
reference was dropped (its object's destruction may take the pointer along).
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, ForAll, Select, Store, BoolVal
from ..spec import *
from ..rg import RG, RCon

x = Int('x_q')
IMAX = (1 << 31) - 1


class RefSpec(RG):
    tu = 'shared_ptr.cpp'
    ghost_sorts = dict(mine=I, others=I, delta=I, lin=I, last=B, dead=I)
    env_ghosts = ('others',)
    assumptions = RG.assumptions + ('less than 2^31 references exist at once', 'destructors of user objects are not verified here')

    def on_attach(self):
        self.kr = ('RC', self.k('off_count'), 'i32')
        self.oo = self.k('off_ref')
        self.ko = ('Obj', self.oo + self.k('off_count'), 'i32')
        self.classes = {'RC': Cls({}), 'Obj': Cls({})}
        self.shared = (self.kr, self.ko)

    def cell(self, E=None):
        c = self.ex.contract
        return self.kr if c.cls == 'RC' else self.ko

    def init_state(self, ex, S):
        self.ex = ex
        RG.init_state(self, ex, S)

    def inv(self, S, E=None):
        g = S.ghost
        k = self.cell()
        c = Select(S.get(k), Int('p_a'))
        return [('counter is the number of references', And(c == g['mine'] + g['others'], g['mine'] >= 0, g['others'] >= 0, c <= IMAX))]

    def rely(self, S0, S):
        return [('a counter without references is left alone', Implies(And(S0.ghost['mine'] == 0, S0.ghost['others'] == 0), S.ghost['others'] == 0)),
                ('room for one more', S.ghost['mine'] + S.ghost['others'] < IMAX)]

    def check(self, ex, S, what):
        for lab, f in self.inv(S):
            ex.prove(S, z3.simplify(f), '%s keeps invariant: %s' % (what, lab), ex.cur_loc, 'invariant')

    def on_access(self, ex, S, p, what):
        if p.local is None and p.cls == 'Obj':
            g = S.ghost
            ex.prove(S, Or(g['mine'] > 0, g['last']), 'the object is touched only by a holder of a reference (%s)' % what, ex.cur_loc, 'race')

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        d = ex.contract.d
        ex.prove(S, If(new >= old, new - old, new - old + (1 << 32) * If(new - old < -(1 << 31), 1, 0)) == d, 'the counter changes by one', ex.cur_loc, 'guarantee')
        if d < 0:
            self.order(ex, S, order, 'release', 'dropping a reference')
            self.order(ex, S, order, 'acquire', 'dropping what may be the last reference')
        g['mine'] = g['mine'] + d
        g['lin'] = g['lin'] + 1
        g['last'] = And(g['mine'] == 0, g['others'] == 0)

    def builtin(self, name):
        d = self.dem(name)
        if d == 'Obj::~Obj()':
            return self.b_dtor
        return RG.builtin(self, name)

    def b_dtor(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, And(g['last'], g['lin'] == 1, g['dead'] == 0, v[0].base == Int('p_a')), 'destroyed by the last owner only', ex.cur_loc, 'safety')
        g['dead'] = IntVal(1)

    def free(self, ex, ctx, S, p):
        ex.prove(S, And(S.ghost['dead'] == 1, p.base == Int('p_a')), 'freed after the destructor', ex.cur_loc, 'safety')
        S.ghost['dead'] = IntVal(2)


class RcCon(RCon):
    cls = 'RC'
    d = 0
    need = 0

    def pre(self, E):
        g = E.S.ghost
        return [('object', E.b('a') != 0), ('ghosts', And(g['lin'] == 0, g['dead'] == 0, Not(g['last']), g['mine'] >= self.need))] + \
            [(l, f) for l, f in E.ex.spec.inv(E.S)] + [('room', g['mine'] + g['others'] < IMAX - 2)]


def rc(fn, lab, dd, nd, post, cl='RC', par=()):
    class C(RcCon):
        name = fn
        label = lab
        cls = cl
        d = dd
        need = nd
        params = [('a', cl)] + list(par)

        def post(self, E):
            return post(E, E.S.ghost, E.S0.ghost)
    return C()


CNT = [
    rc('drv_rc_inc', 'RefCount::Inc', 1, 1, lambda E, g, g0: [('one more reference', And(g['lin'] == 1, g['mine'] == g0['mine'] + 1))]),
    rc('drv_rc_dec', 'RefCount::Dec', -1, 1, lambda E, g, g0: [('one reference less', And(g['lin'] == 1, g['mine'] == g0['mine'] - 1)), ('true for exactly the last one', E.ret == g['last'])]),
    rc('drv_rc_get', 'RefCount::Get', 0, 1, lambda E, g, g0: [('nothing changes', And(g['lin'] == 0, g['mine'] == g0['mine'])), ('a value the counter had', E.ret == g['mine'] + g['others'])]),
    rc('drv_ref', 'PrivRef', 1, 1, lambda E, g, g0: [('one more reference', And(g['lin'] == 1, g['dead'] == 0))], 'Obj'),
    rc('drv_unref', 'PrivUnref', -1, 1, lambda E, g, g0: [('one reference less', g['lin'] == 1), ('deleted exactly by the last owner', g['dead'] == If(g['last'], 2, 0))], 'Obj'),
]


class RefFns(RefSpec):
    contracts = CNT


class RefCtor(RefSpec):
    """construction and destruction are not concurrent"""

    def on_attach(self):
        RefSpec.on_attach(self)
        self.shared = ()

    class C0(RCon):
        cls = 'RC'
        params = [('a', 'RC')]
        name = 'drv_rc_def'
        label = 'RefCount()'

        def pre(self, E):
            return [('object', E.b('a') != 0)]

        def cnt(self, E, S):
            return Select(S.get(E.ex.spec.kr), E.b('a'))

        def post(self, E):
            return [('one reference', self.cnt(E, E.S) == 1)]

    class C1(C0):
        name = 'drv_rc_num'
        label = 'RefCount(count)'
        params = [('a', 'RC'), ('n', None)]

        def pre(self, E):
            return [('object', E.b('a') != 0), ('count', And(0 <= E.a['n'], E.a['n'] <= IMAX))]

        def post(self, E):
            return [('given number of references', self.cnt(E, E.S) == E.a['n'])]

    class CD(C0):
        name = 'drv_rc_del'
        label = '~RefCount'

        def pre(self, E):
            return [('object', E.b('a') != 0), ('no references', self.cnt(E, E.S) == 0)]

        def post(self, E):
            return [('ok', BoolVal(True))]

    contracts = [C0(), C1(), CD()]
    assumptions = ('a counter is constructed and destroyed without concurrent users',)


T = r'mg::box::SharedPtrIntrusive<Obj>'


class PtrSpec(Spec):
    tu = 'shared_ptr.cpp'
    assumptions = ('objects are destroyed inside of PrivUnref, which then may do anything to other pointers',)

    def on_attach(self):
        self.ks = ('SP', self.k('off_obj'), 'ptr')
        self.classes = {'SP': Cls({self.ks[1]: To('Obj')}), 'Obj': Cls({})}

    def init_state(self, ex, S):
        S.ghost['refs'] = z3.Const('gh0_refs', ARR)
        S.ghost['gone'] = BoolVal(False)

    def no_inline(self, n, dem):
        return dem in ('Obj::PrivRef()', 'Obj::PrivUnref()')

    def builtin(self, name):
        d = self.dem(name)
        if d == 'Obj::PrivRef()':
            return self.b_ref
        if d == 'Obj::PrivUnref()':
            return self.b_unref
        return Spec.builtin(self, name)

    def on_access(self, ex, S, p, what):
        if p.local is None:
            ex.prove(S, Not(S.ghost['gone']), 'nothing is touched after a reference was dropped (%s)' % what, ex.cur_loc, 'safety')

    def b_ref(self, ex, ctx, S, v, ins):
        r, o = S.ghost['refs'], v[0].base
        ex.prove(S, And(o != 0, Not(S.ghost['gone']), Select(r, o) >= 1), 'a reference is only taken of a live object', ex.cur_loc, 'call-pre')
        S.ghost['refs'] = Store(r, o, Select(r, o) + 1)

    def b_unref(self, ex, ctx, S, v, ins):
        r, o = S.ghost['refs'], v[0].base
        ex.prove(S, And(o != 0, Not(S.ghost['gone']), Select(r, o) >= 1), 'only a live object is released', ex.cur_loc, 'call-pre')
        S.ghost['refs'] = Store(r, o, Select(r, o) - 1)
        S.ghost['gone'] = BoolVal(True)


class SCon(Con):
    """this / other: (name of parameter, held before, held after)"""
    ptrs = ('this',)
    fresh = ()            # constructed: held nothing before
    gone = ()             # destroyed: holds nothing after
    raw = None            # raw reference of the caller which must be live
    take = 0              # references handed over by / to the caller

    def addrs(self, E):
        return [E.b(n) for n in self.ptrs]

    def live(self, E, S, o):
        return Implies(o != 0, Select(S.ghost['refs'], o) >= 1)

    def pre(self, E):
        k = E.ex.spec.ks
        r = [('pointer', a != 0) for a in self.addrs(E)]
        for n in self.ptrs:
            if n not in self.fresh:
                o = Select(E.S.get(k), E.b(n))
                r.append(('live', self.live(E, E.S, o)))
        a = self.addrs(E)
        if len(a) == 2 and 'alias' not in self.flags:
            r.append(('distinct', a[0] != a[1]))
        if len(a) == 2:
            # two pointers at one object are two references
            o0, o1 = Select(E.S.get(k), a[0]), Select(E.S.get(k), a[1])
            if not self.fresh:
                r.append(('two references', Implies(And(a[0] != a[1], o0 == o1, o0 != 0), Select(E.S.ghost['refs'], o0) >= 2)))
        if self.raw:
            r.append(('live', self.live(E, E.S, E.b(self.raw))))
        return r

    flags = ()

    def held(self, E, S, skip):
        """number of references of x held by the pointers"""
        k = E.ex.spec.ks
        a = [(n, E.b(n)) for n in self.ptrs if n not in skip]
        t = [If(And(Select(S.get(k), b) == x, x != 0), 1, 0) for n, b in a]
        if len(a) == 2:
            t[1] = If(a[0][1] == a[1][1], 0, t[1])
        s = IntVal(0)
        for y in t:
            s = s + y
        return s

    def post(self, E):
        r0, r1 = E.S0.ghost['refs'], E.S.ghost['refs']
        extra = IntVal(0)
        if self.take:
            extra = self.take_of(E)
        bal = Select(r1, x) - Select(r0, x) == self.held(E, E.S, self.gone) - self.held(E, E.S0, self.fresh) + extra
        k = E.ex.spec.ks
        r = [('references are exactly the pointers', ForAll([x], bal))]
        for n, b in self.want(E).items():
            r.append(('%s points at the right object' % n, Select(E.S.get(k), E.b(n)) == b))
        return r + self.more(E)

    def more(self, E):
        return []

    def take_of(self, E):
        return IntVal(0)

    def want(self, E):
        return {}

    def ld0(self, E, n):
        return Select(E.S0.get(E.ex.spec.ks), E.b(n))

    def modifies(self, E):
        return {E.ex.spec.ks: self.addrs(E)}


def sp(fn, lab, ps, want=None, **kw):
    class C(SCon):
        name = fn
        label = lab
        params = ps

        def want(self, E):
            return want(self, E) if want else {}
    for k_, v_ in kw.items():
        setattr(C, k_, v_)
    return C()


TWO = [('this', 'SP'), ('o', 'SP')]
DRV = [('aDst', 'SP'), ('o', 'SP')]
two = dict(ptrs=('this', 'o'))
drv = dict(ptrs=('aDst', 'o'))
Q = r'mg::box::SharedPtrIntrusive<Obj>::'
same = lambda t: (lambda s, E: {t: s.ld0(E, 'o'), **({} if False else {'o': s.ld0(E, 'o')})})
stolen = lambda t: (lambda s, E: {t: s.ld0(E, 'o'), 'o': If(E.b(t) == E.b('o'), s.ld0(E, 'o'), 0)})
cmpf = lambda f: dict(more=lambda self, E: [('comparison', E.ret == f(self, E))])


PTR = [
    sp(Q + r'SharedPtrIntrusive\(\)', 'default constructor', [('this', 'SP')], lambda s, E: {'this': 0}, fresh=('this',)),
    sp(Q + r'SharedPtrIntrusive\(mg::box::SharedPtrIntrusive<Obj> const&\)', 'copy constructor', TWO, same('this'), fresh=('this',), **two),
    sp(Q + r'SharedPtrIntrusive\(mg::box::SharedPtrIntrusive<Obj>&&\)', 'move constructor', TWO, stolen('this'), fresh=('this',), **two),
    sp(Q + r'SharedPtrIntrusive\(Obj\*\)', 'constructor from raw', [('this', 'SP'), ('aObject', 'Obj')], lambda s, E: {'this': E.b('aObject')}, fresh=('this',), raw='aObject'),
    sp(Q + r'~SharedPtrIntrusive\(\)', 'destructor', [('this', 'SP')], None, gone=('this',)),
    sp('drv_child_copy', 'copy constructor from a child', DRV, same('aDst'), fresh=('aDst',), **drv),
    sp('drv_child_move', 'move constructor from a child', DRV, stolen('aDst'), fresh=('aDst',), **drv),
    sp('drv_child_assign', 'copy assignment from a child', DRV, same('aDst'), **drv),
    sp('drv_child_assign_move', 'move assignment from a child', DRV, stolen('aDst'), **drv),
    sp(Q + r'operator=\(mg::box::SharedPtrIntrusive<Obj> const&\)', 'copy assignment', TWO, same('this'), flags=('alias',), ret='SP', **two),
    sp(Q + r'operator=\(mg::box::SharedPtrIntrusive<Obj>&&\)', 'move assignment', TWO, stolen('this'), flags=('alias',), ret='SP', **two),
    sp(Q + r'Wrap\(Obj\*\)', 'Wrap', [('sret', 'SP'), ('aObject', 'Obj')], lambda s, E: {'sret': E.b('aObject')}, ptrs=('sret',), fresh=('sret',), raw='aObject',
       take=1, take_of=lambda s, E: -If(And(x == E.b('aObject'), x != 0), 1, 0)),
    sp(Q + r'Unwrap\(\)', 'Unwrap', [('this', 'SP')], lambda s, E: {'this': 0}, take=1, take_of=lambda s, E: If(And(x == s.ld0(E, 'this'), x != 0), 1, 0),
       more=lambda s, E: [('returned', E.ret.base == s.ld0(E, 'this'))], ret='Obj'),
    sp(Q + r'Set\(Obj\*\)', 'Set', [('this', 'SP'), ('aPointer', 'Obj')], lambda s, E: {'this': E.b('aPointer')}, raw='aPointer'),
    sp(Q + r'Clear\(\)', 'Clear', [('this', 'SP')], lambda s, E: {'this': 0}),
    sp(Q + r'IsSet\(\) const', 'IsSet', [('this', 'SP')], None, **cmpf(lambda s, E: s.ld0(E, 'this') != 0)),
    sp(Q + r'GetPointer\(\)( const)?', 'GetPointer', [('this', 'SP')], None, more=lambda s, E: [('the object', E.ret.base == s.ld0(E, 'this'))]),
    sp(Q + r'operator->\(\)( const)?', 'operator->', [('this', 'SP')], None, more=lambda s, E: [('the object', E.ret.base == s.ld0(E, 'this'))]),
    sp(Q + r'operator\*\(\)( const)?', 'operator*', [('this', 'SP')], None, more=lambda s, E: [('the object', E.ret.base == s.ld0(E, 'this'))]),
]
CMP = [('a', 'SP'), ('b', 'SP')]
RAW = [('a', 'SP'), ('b', 'Obj')]
for _n, _p, _f in (('drv_eq', CMP, True), ('drv_ne', CMP, False), ('drv_eq_kid', CMP, True), ('drv_ne_kid', CMP, False)):
    PTR.append(sp(_n, _n[4:], _p, None, ptrs=('a', 'b'), flags=('alias',),
                  **cmpf((lambda eq: lambda s, E: (s.ld0(E, 'a') == s.ld0(E, 'b')) == BoolVal(eq))(_f))))
for _n, _f in (('drv_eq_raw', True), ('drv_ne_raw', False), ('drv_raw_eq', True), ('drv_raw_ne', False)):
    PTR.append(sp(_n, _n[4:], RAW, None, ptrs=('a',), **cmpf((lambda eq: lambda s, E: (s.ld0(E, 'a') == E.b('b')) == BoolVal(eq))(_f))))
for _n, _f in (('drv_eq_null', True), ('drv_ne_null', False)):
    PTR.append(sp(_n, _n[4:], [('a', 'SP')], None, ptrs=('a',), **cmpf((lambda eq: lambda s, E: (s.ld0(E, 'a') == 0) == BoolVal(eq))(_f))))


class PtrFns(PtrSpec):
    contracts = PTR


SPEC = [RefFns, RefCtor, PtrFns]
