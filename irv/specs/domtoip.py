"""Name resolution (DomainToIP): every request is answered once - resolved, timed out, or canceled - and its context
lives until then."""
import re
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Select, Store, Int, IntVal, BoolVal, Function
from ..sym import *
from ..spec import *
from ..rg import RG, RCon

N_ = r'mg::net::'
C_ = N_ + r'DomainToIPContext::'
W_ = N_ + r'DomainToIPWorker::'
FL = r'mg::box::ForwardList<mg::net::DomainToIPContext, &mg::net::DomainToIPContext::(myNext|myNextCancel)>::'
DL = r'mg::box::DoublyList<mg::net::DomainToIPContext, .*>::'
BH = r'mg::box::BinaryHeap<mg::net::DomainToIPContext\*, .*>::'
AI = z3.ArraySort(I, I)
SETS = ('F', 'X', 'LF', 'LX', 'M', 'H')
x = Int('x')
THIS = Int('p_this')


def has_if(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE) or any(has_if(c) for c in e.children())


def every(f, *pats):
    pats = [q for q in pats if not has_if(q)]
    try:
        return ForAll([x], f, patterns=list(pats))
    except z3.Z3Exception:
        return ForAll([x], f)


class DomSpec(RG):
    tu = 'domtoip.cpp'
    shared = ()
    env_cells = ()
    ghost_sorts = dict({n: AI for n in SETS + ('cb', 'own', 'F1', 'X1')}, **{'n' + n: I for n in SETS}, locked=I, unl=I, top=I, tv=I, now=I, done=I, batch=I, late=I, posted=I, refs=I, made=I, unref=I, waits=I, ts=I)
    handlers = [(r'mg::box::Mutex::Lock\(\)', 'h_lock'), (r'mg::box::Mutex::Unlock\(\)', 'h_unlock'), (r'mg::box::ConditionVariable::Signal\(\)', 'h_signal'), (r'mg::box::ConditionVariable::Wait\(.*', 'h_wait'), (r'mg::box::ConditionVariable::TimedWait\(.*', 'h_twait'), (r'mg::box::TimeDuration::TimeDuration\(.*', 'h_nop'), (r'mg::box::TimeLimit::TimeLimit\(.*', 'h_nop'),
                (FL + r'ForwardList\(\)', 'h_fnew'), (FL + r'IsEmpty\(\) const', 'h_fempty'), (FL + r'Append\(.*', 'h_fappend'), (FL + r'PopFirst\(\)', 'h_fpop'), (FL + r'operator=\(.*', 'h_fmove'), (FL + r'~ForwardList\(\)', 'h_nop'),
                (DL + r'IsEmpty\(\) const', 'h_mempty'), (DL + r'Append\(.*', 'h_mappend'), (DL + r'PopFirst\(\)', 'h_mpop'), (DL + r'Remove\(.*', 'h_mremove'),
                (BH + r'Count\(\) const', 'h_hcount'), (BH + r'GetTop\(\)', 'h_htop'), (BH + r'RemoveTop\(\)', 'h_hrmtop'), (BH + r'Remove\(.*', 'h_hremove'), (BH + r'Push\(.*', 'h_hpush'), (r'mg::box::GetMilliseconds\(\)', 'h_now'),
                (C_ + r'ReturnTimeout\(\)', 'h_rtimeout'), (C_ + r'ReturnCancel\(\)', 'h_rcancel'), (C_ + r'Process\(\)', 'h_process'), (C_ + r'PrivUnref\(\)', 'h_unref'), (C_ + r'PrivRef\(\)', 'h_ref'), (C_ + r'DomainToIPContext\(.*', 'h_new')]
    assumptions = RG.assumptions + ('the lists, the heap, the mutex do what B01, B02, B03, B09 say', 'a request is canceled at most once, after it is posted, and is not posted again while it runs', 'callbacks return', 'the constructor of a context takes the deadline, the name and the callback; its references are counted (B07)')

    def on_attach(self):
        self.classes = {'W': Cls({}), 'Ctx': Cls({}), 'Req': Cls({0: To('Ctx')}), 'Top': Cls({0: To('Ctx')}), 'Str': Cls({}), 'Fun': Cls({})}

    def no_inline(self, n, dem):
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def G(self, ex, S, f, what, kind='guarantee'):
        ex.prove(S, f, what, ex.cur_loc, kind)

    def builtin(self, name):
        d = self.dem(name)
        f = RG.builtin(self, name)
        if f is None or 'ForwardList<' not in d:
            return f

        def call(*a):
            self.canc = 'myNextCancel' in d
            return f(*a)
        return call

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def idx(self, S, t):
        return S.ld('Ctx', self.k('x_index'), 'i32', t)

    def dl(self, S, t):
        return S.ld('Ctx', self.k('x_deadline'), 'i64', t)

    def on_access(self, ex, S, p, what):
        if p.local is None and p.cls == 'Ctx' and ex.contract.role == 'worker':
            self.G(ex, S, Select(S.ghost['own'], p.base) > 0, 'a living context (%s)' % what, 'race')

    # -- sets
    def count(self, ex, S, n):
        g = S.ghost
        ex.assume(S, And(g['n' + n] >= 0, Implies(g['n' + n] == 0, every(Select(g[n], x) == 0, Select(g[n], x)))))

    def empty(self, ex, S, n):
        g = S.ghost
        self.count(ex, S, n)
        w = fresh('member', I)
        ex.assume(S, Implies(g['n' + n] > 0, And(w > 0, Select(g[n], w) == 1)))
        return g['n' + n] == 0

    def add(self, ex, S, n, t):
        g = S.ghost
        self.G(ex, S, And(t > 0, Select(g[n], t) == 0), 'is not there yet', 'call-pre')
        g[n] = Store(g[n], t, 1)
        g['n' + n] = g['n' + n] + 1

    def drop(self, ex, S, n, t):
        g = S.ghost
        self.G(ex, S, And(t > 0, Select(g[n], t) == 1), 'what is removed is there', 'call-pre')
        self.count(ex, S, n)
        g[n] = Store(g[n], t, 0)
        g['n' + n] = g['n' + n] - 1
        self.count(ex, S, n)

    def pop(self, ex, S, n):
        g = S.ghost
        self.count(ex, S, n)
        self.G(ex, S, g['n' + n] > 0, 'there is something to take', 'call-pre')
        t = fresh('ctx', I)
        ex.assume(S, And(t > 0, Select(g[n], t) == 1))
        g[n] = Store(g[n], t, 0)
        g['n' + n] = g['n' + n] - 1
        self.count(ex, S, n)
        return t

    def which(self, ex, S, p, ins, ctx=None):
        """A list: of the worker, or a local one."""
        k = self.k
        canc = self.canc
        if p.local is not None:
            return 'LX' if canc else 'LF'
        n = 'X' if canc else 'F'
        self.G(ex, S, And(p.base == THIS, BoolVal(p.cls == 'W' and p.off == k('w_fcancel' if canc else 'w_front')), S.ghost['locked'] == 1), 'the lists for other threads are under the mutex', 'race')
        return n

    def main(self, ex, S, p, off):
        self.G(ex, S, And(p.base == THIS, BoolVal(p.cls == 'W' and p.off == self.k(off) and ex.contract.role == 'worker')), 'the lists of the worker are not touched by the others', 'race')

    # -- forward lists
    def h_fnew(self, ex, ctx, S, v, ins):
        n = self.which(ex, S, v[0], ins)
        g = S.ghost
        g[n] = z3.K(I, IntVal(0))
        g['n' + n] = IntVal(0)

    def h_fempty(self, ex, ctx, S, v, ins):
        return self.empty(ex, S, self.which(ex, S, v[0], ins))

    def h_fappend(self, ex, ctx, S, v, ins):
        g = S.ghost
        n = self.which(ex, S, v[0], ins)
        t = v[1].base
        self.G(ex, S, And(BoolVal(ex.contract.role == 'user'), g['posted'] == 0), 'posted once, by the user')
        ex.contract.appended(ex, S, n, t)
        self.empty(ex, S, n)
        g['late'] = If(g['n' + n] == 0, 1, g['late'])
        g['posted'] = IntVal(1)
        self.add(ex, S, n, t)

    def h_fpop(self, ex, ctx, S, v, ins):
        n = self.which(ex, S, v[0], ins)
        return Ptr(self.pop(ex, S, n), 0, 'Ctx')

    def h_fmove(self, ex, ctx, S, v, ins):
        g = S.ghost
        a, b = self.which(ex, S, v[0], ins), self.which(ex, S, v[1], ins)
        self.G(ex, S, And(BoolVal((a, b) in (('LF', 'F'), ('LX', 'X'))), g['n' + a] == 0), 'all what is posted is taken')
        self.count(ex, S, b)
        g[a], g['n' + a] = g[b], g['n' + b]
        g['F1' if b == 'F' else 'X1'] = g[b]
        o = fresh('own', AI)
        ex.assume(S, every(Select(o, x) == Select(g['own'], x) + Select(g[b], x), Select(o, x)))
        g['own'] = o
        g[b], g['n' + b] = z3.K(I, IntVal(0)), IntVal(0)
        return v[0]

    # -- the main list and the heap
    def h_mempty(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_main')
        return self.empty(ex, S, 'M')

    def h_mappend(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_main')
        self.G(ex, S, Select(S.ghost['own'], v[1].base) > 0, 'a living context', 'call-pre')
        self.add(ex, S, 'M', v[1].base)

    def h_mpop(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_main')
        return Ptr(self.pop(ex, S, 'M'), 0, 'Ctx')

    def h_mremove(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_main')
        self.drop(ex, S, 'M', v[1].base)

    def heap(self, ex, S):
        """The heap keeps the indexes."""
        g = S.ghost
        key = ('Ctx', self.k('x_index'), 'i32')
        m = fresh('index', AI)
        s = Select(m, x)
        ex.assume(S, every(And(0 <= s, s < (1 << 32), (s < (1 << 31)) == (Select(g['H'], x) == 1)), s))
        ex.touched.add(key)
        S.set(key, m)
        g['tv'] = IntVal(0)

    def h_hcount(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_heap')
        self.count(ex, S, 'H')
        self.empty(ex, S, 'H')
        ex.assume(S, S.ghost['nH'] < (1 << 32))
        return S.ghost['nH']

    def min(self, ex, S):
        g = S.ghost
        self.count(ex, S, 'H')
        self.empty(ex, S, 'H')
        self.G(ex, S, g['nH'] > 0, 'the heap is not empty', 'call-pre')
        t = fresh('top', I)
        ex.assume(S, And(t > 0, Select(g['H'], t) == 1, every(Implies(Select(g['H'], x) == 1, self.dl(S, t) <= self.dl(S, x)), Select(g['H'], x))))
        g['top'] = If(g['tv'] == 1, g['top'], t)
        g['tv'] = IntVal(1)
        return g['top']

    def h_htop(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_heap')
        ex.raw_store(S, Ptr(IntVal(1), 0, 'Top'), 'ptr', Ptr(self.min(ex, S), 0, 'Ctx'))
        return Ptr(IntVal(1), 0, 'Top')

    def h_hrmtop(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_heap')
        t = self.min(ex, S)
        self.drop(ex, S, 'H', t)
        self.heap(ex, S)

    def h_hremove(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_heap')
        self.drop(ex, S, 'H', ex.raw_load(S, v[1], 'ptr').base)
        self.heap(ex, S)

    def h_hpush(self, ex, ctx, S, v, ins):
        self.main(ex, S, v[0], 'w_heap')
        t = ex.raw_load(S, v[1], 'ptr').base
        self.G(ex, S, Select(S.ghost['own'], t) > 0, 'a living context', 'call-pre')
        self.add(ex, S, 'H', t)
        self.heap(ex, S)

    def h_now(self, ex, ctx, S, v, ins):
        t = fresh('now', I)
        ex.assume(S, And(0 <= t, t < (1 << 63), t >= S.ghost['now']))
        S.ghost['now'] = t
        S.ghost['ts'] = If(S.ghost['ts'] < 0, t, S.ghost['ts'])
        return t

    # -- the mutex
    def env(self, ex, S):
        g = S.ghost
        for n in ('F', 'X'):
            a = fresh(n, AI)
            c = fresh('n' + n, I)
            s = Select(a, x)
            ex.assume(S, And(c >= 0, every(And(0 <= s, s <= 1), s)))
            if ex.contract.role == 'worker':
                # Only the worker takes.
                ex.assume(S, And(c >= g['n' + n], every(s >= Select(g[n], x), s)))
            g[n], g['n' + n] = a, c
        F, X, M = (Select(g[n], x) for n in ('F', 'X', 'M'))
        if ex.contract.role == 'worker':
            cb = fresh('cb', AI)        # contexts which were not there before
            c = Select(cb, x)
            ex.assume(S, every(And(Implies(Select(g['own'], x) > 0, c == Select(g['cb'], x)), Or(c == 0, c == 1), Implies(Select(g['cb'], x) == 1, c == 1)), c))
            g['cb'] = cb
            ex.assume(S, every(Implies(F == 1, And(M == 0, Select(cb, x) == 0, Select(g['own'], x) == 0)), F))
            ex.assume(S, every(Implies(X == 1, Or(F == 1, M == 1, And(Select(cb, x) == 1, Select(g['own'], x) == 0))), X))
            if not self.wi:
                raise Unsupported('lock')
        else:
            ex.contract.others(ex, S)

    wi = True

    def h_lock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == THIS, BoolVal(v[0].off == self.k('w_mutex')), g['locked'] == 0), 'the mutex, not twice', 'call-pre')
        self.env(ex, S)
        g['locked'] = IntVal(1)

    def h_unlock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == THIS, BoolVal(v[0].off == self.k('w_mutex')), g['locked'] == 1), 'unlocked by its owner', 'call-pre')
        g['locked'] = IntVal(0)
        g['unl'] = g['unl'] + 1

    def h_signal(self, ex, ctx, S, v, ins):
        self.G(ex, S, And(v[0].base == THIS, BoolVal(v[0].off == self.k('w_cond'))), 'the variable of the worker', 'call-pre')
        self.G(ex, S, Or(S.ghost['locked'] == 1, S.ghost['unl'] == 1), 'not before the request is posted')
        S.ghost['late'] = If(S.ghost['posted'] == 1, 0, S.ghost['late'])

    def sleep(self, ex, S, v):
        g = S.ghost
        self.G(ex, S, And(v[0].base == THIS, v[1].base == THIS, BoolVal(v[0].off == self.k('w_cond') and v[1].off == self.k('w_mutex')), g['locked'] == 1), 'sleeps without the mutex', 'call-pre')
        for n in ('F', 'X', 'M'):
            self.empty(ex, S, n)
        self.G(ex, S, And(g['nF'] == 0, g['nX'] == 0, g['nM'] == 0), 'does not sleep while there is something to do')
        g['waits'] = g['waits'] + 1
        self.env(ex, S)

    def h_wait(self, ex, ctx, S, v, ins):
        self.sleep(ex, S, v)

    def h_twait(self, ex, ctx, S, v, ins):
        self.sleep(ex, S, v)
        return fresh('timedout', B)

    # -- contexts
    def answer(self, ex, S, p, why):
        g = S.ghost
        t = p.base
        sel = lambda n: Select(g[n], t)
        self.G(ex, S, And(g['locked'] == 0, t > 0, sel('M') == 0, sel('H') == 0, sel('LF') == 0, sel('own') > 0, sel('cb') == 0, BoolVal(ex.contract.role == 'worker')), 'a waiting request is answered, once, without the mutex')
        if why == 'timeout':
            self.G(ex, S, self.dl(S, t) <= g['now'], 'only late requests time out')
        elif why == 'cancel':
            self.G(ex, S, Select(g['X1'], t) == 1, 'only canceled requests are canceled')
        g['cb'] = Store(g['cb'], t, 1)
        g['done'] = g['done'] + 1

    def h_rtimeout(self, ex, ctx, S, v, ins):
        self.answer(ex, S, v[0], 'timeout')

    def h_rcancel(self, ex, ctx, S, v, ins):
        self.answer(ex, S, v[0], 'cancel')

    def h_process(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.answer(ex, S, v[0], 'process')
        g['batch'] = g['batch'] + 1

    def h_unref(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[0].base
        if ex.contract.role == 'worker':
            self.G(ex, S, And(Select(g['own'], t) > 0, Or(Select(g['own'], t) > 1, And(Select(g['M'], t) == 0, Select(g['LF'], t) == 0, Select(g['LX'], t) == 0, Select(g['cb'], t) == 1))), 'the reference of an answered request is dropped')
            g['own'] = Store(g['own'], t, Select(g['own'], t) - 1)
        else:
            ex.contract.unref(ex, S, t)

    def h_ref(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == g['made'], g['made'] > 0, g['posted'] == 0), 'a reference for the worker, before it can see the request')
        g['refs'] = g['refs'] + 1

    def alloc(self, ex, ctx, S, size, ins):
        b = fresh('new', I)
        ex.assume(S, And(b > 0, b != S.ld('Req', 0, 'ptr', Int('p_req'))))
        return Ptr(b, 0, 'Ctx')

    def h_new(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['made'] == 0, v[1].base == Int('p_domain'), BoolVal(v[4].cls == 'Fun') if len(v) > 4 else BoolVal(True)), 'a context for the name and the callback')
        g['made'] = v[0].base
        g['refs'] = IntVal(1)


class DW(RCon):
    role = 'worker'
    params = [('this', 'W')]

    def wi(self, E, S):
        g = S.ghost
        sp = E.ex.spec
        s = lambda n: Select(g[n], x)
        return [('the main list and the heap are the same', And(every(And(s('M') == s('H'), 0 <= s('M'), s('M') <= 1), s('M'), s('H')), g['nM'] == g['nH'], g['nM'] >= 0)), ('waiting requests are not answered', every(Implies(s('M') == 1, And(s('cb') == 0)), s('M'))),
                ('indexes are right', every(And(0 <= sp.idx(S, x), sp.idx(S, x) < (1 << 32), (sp.idx(S, x) < (1 << 31)) == (s('H') == 1)), sp.idx(S, x))), ('answers', every(Or(s('cb') == 0, s('cb') == 1), s('cb')))]

    def refs(self, E, S, extra=()):
        g = S.ghost
        return [('the worker references what it keeps', every(Select(g['own'], x) == Select(g['M'], x) + sum([Select(g[n], x) for n in extra]), Select(g['own'], x)))]

    def pre(self, E):
        g = E.S.ghost
        fs = [every(And(0 <= Select(g[n], x), Select(g[n], x) <= 1), Select(g[n], x)) for n in SETS]
        z = every(And(Select(g['LF'], x) == 0, Select(g['LX'], x) == 0), Select(g['LF'], x), Select(g['LX'], x))
        return [('the worker', E.b('this') > 0), ('nothing done', And(*[g[n] == 0 for n in ('locked', 'unl', 'tv', 'done', 'batch', 'waits', 'nLF', 'nLX', 'posted', 'late')], g['ts'] == -1, g['now'] >= 0, *[g['n' + n] >= 0 for n in SETS])), ('sets', And(z, *fs))] + self.wi(E, E.S) + self.refs(E, E.S)

    def base(self, E):
        g = E.S.ghost
        return [('the mutex is free', g['locked'] == 0)] + [('afterwards: ' + l, f) for l, f in self.wi(E, E.S) + self.refs(E, E.S)]


class ProcessMain(DW):
    name = W_ + r'PrivProcessMain\(\)'
    label = 'DomainToIPWorker::PrivProcessMain'

    def all(E, S, S0):
        g, g0 = S.ghost, S0.ghost
        s, s0 = (lambda n: Select(g[n], x)), (lambda n: Select(g0[n], x))
        return [('everything is waiting or is answered once', every(And(Implies(s0('M') == 0, And(s('M') == 0, s('cb') == s0('cb'))), Implies(s0('M') == 1, Or(And(s('M') == 1, s('cb') == 0), And(s('M') == 0, s('cb') == 1)))), s('M'), s('cb')))]

    def same(E, S):
        return [('nothing else changes', And(*[S.ghost[n] == E.L.ghost[n] for n in ('locked', 'unl', 'waits', 'ts', 'now', 'posted', 'late')])), ('deadlines', every(E.ex.spec.dl(S, x) == E.ex.spec.dl(E.S0, x), E.ex.spec.dl(S, x)))]

    def inv1(E):
        c = E.ex.contract
        g = E.S.ghost
        return c.wi(E, E.S) + c.refs(E, E.S) + c.__class__.all(E, E.S, E.S0) + c.__class__.same(E, E.S) + [('there is something', g['nM'] > 0), ('no processing yet', And(g['batch'] == 0, g['ts'] == g['now'], g['ts'] >= 0, g['locked'] == 0, Or(g['tv'] == 0, g['tv'] == 1), Implies(g['tv'] == 1, And(g['top'] > 0, Select(g['H'], g['top']) == 1, every(Implies(Select(g['H'], x) == 1, E.ex.spec.dl(E.S, g['top']) <= E.ex.spec.dl(E.S, x)), Select(g['H'], x))))))]

    def inv2(E):
        c = E.ex.contract
        g = E.S.ghost
        s = lambda n: Select(g[n], x)
        return c.wi(E, E.S) + c.refs(E, E.S) + c.__class__.all(E, E.S, E.S0) + c.__class__.same(E, E.S) + [('nobody is late', every(Implies(s('M') == 1, E.ex.spec.dl(E.S, x) > g['ts']), s('M'))), ('a batch', And(g['locked'] == 0, 0 <= g['batch'], g['batch'] + sgn(E.r['batchSize']) == g['batch'] + sgn(E.r['batchSize']), sgn(E.r['batchSize']) <= 10, sgn(E.r['batchSize']) >= 0, Or(g['batch'] > 0, sgn(E.r['batchSize']) == 10), g['nM'] >= 0))]
    loops = [Loop({}, inv1, lambda E: E.S.ghost['nM']), Loop({'batchSize': 'i32'}, inv2, lambda E: E.S.ghost['nM'])]
    loops_in_order = True

    def post(self, E):
        g, g0 = E.S.ghost, E.S0.ghost
        sp = E.ex.spec
        s, s0 = (lambda n: Select(g[n], x)), (lambda n: Select(g0[n], x))
        return ProcessMain.all(E, E.S, E.S0) + [('late requests are answered', every(Implies(And(s0('M') == 1, sp.dl(E.S0, x) <= g['ts']), s('cb') == 1), s('M'))), ('something is done if anything is waiting', Implies(g0['nM'] > 0, Or(g['nM'] == 0, g['batch'] > 0)))] + self.base(E)


def sgn(v):
    return If(v >= (1 << 31), v - (1 << 32), v)


class ProcessFront(DW):
    name = W_ + r'PrivProcessFront\(\)'
    label = 'DomainToIPWorker::PrivProcessFront'

    def same(E, S):
        g = S.ghost
        sp = E.ex.spec
        s = lambda n: Select(g[n], x)
        return [('nothing else changes', And(*[g[n] == E.L.ghost[n] for n in ('locked', 'unl', 'waits', 'posted', 'late', 'F1', 'X1', 'batch')], g['locked'] == 0, g['nLF'] >= 0, g['nLX'] >= 0)), ('sets', every(And(0 <= s('LF'), s('LF') <= 1, 0 <= s('LX'), s('LX') <= 1), s('LF'), s('LX')))]

    def inv1(E):
        c = E.ex.contract
        g, L = E.S.ghost, E.L.ghost
        s, s0 = (lambda n: Select(g[n], x)), (lambda n: Select(E.S0.ghost[n], x))
        return c.wi(E, E.S) + c.refs(E, E.S, ('LF', 'LX')) + ProcessFront.same(E, E.S) + [('nobody is answered', And(g['cb'] == L['cb'], g['LX'] == L['LX'], g['nLX'] == L['nLX'])), ('everything goes to the worker', every(s('M') + s('LF') == s0('M') + s('F1'), s('M'), s('LF'), s('F1'))), ('all of them are waiting', every(Implies(s('LF') == 1, s('cb') == 0), s('LF'))),
                                                                                  ('canceled ones are known', every(And(0 <= s('X1'), s('X1') <= 1, Implies(s('X1') == 1, Or(s('M') == 1, s('LF') == 1, s('cb') == 1))), s('X1')))]

    def inv2(E):
        c = E.ex.contract
        g, L = E.S.ghost, E.L.ghost
        s, l, s0 = (lambda n: Select(g[n], x)), (lambda n: Select(L[n], x)), (lambda n: Select(E.S0.ghost[n], x))
        return c.wi(E, E.S) + c.refs(E, E.S, ('LF', 'LX')) + ProcessFront.same(E, E.S) + [('all the new ones are taken', And(g['nLF'] == 0, every(s('LF') == 0, s('LF')))),
                                                                                  ('only canceled ones', every(And(s('LX') <= s('X1'), 0 <= s('X1'), s('X1') <= 1, Implies(s('X1') == 1, Or(s('M') == 1, s('cb') == 1))), s('LX'), s('X1'))), ('canceled ones do not wait', every(s('M') == If(And(s('X1') == 1, s('LX') == 0), 0, l('M')), s('M'))), ('canceled ones are answered', every(s('cb') == If(And(s('X1') == 1, s('LX') == 0), 1, l('cb')), s('cb')))]
    loops = [Loop({}, inv1, lambda E: E.S.ghost['nLF']), Loop({}, inv2, lambda E: E.S.ghost['nLX'])]
    loops_in_order = True

    def post(self, E):
        g, g0 = E.S.ghost, E.S0.ghost
        s, s0 = (lambda n: Select(g[n], x)), (lambda n: Select(g0[n], x))
        return [('new requests wait, canceled ones do not', every(s('M') == If(s('X1') == 1, 0, s0('M') + s('F1')), s('M'))), ('all canceled are answered', every(Implies(s('X1') == 1, s('cb') == 1), s('cb'))), ('nobody else is answered', every(Implies(And(s('X1') == 0, s0('M') + s('F1') == 1), s('cb') == 0), s('cb'))), ('all what is posted is taken', And(g['unl'] == 1, g['nLF'] == 0, g['nLX'] == 0))] + self.base(E)


class DU(RCon):
    role = 'user'

    def pre(self, E):
        g = E.S.ghost
        return [('the worker', E.b('this') > 0), ('nothing done', And(*[g[n] == 0 for n in ('locked', 'unl', 'posted', 'late', 'made', 'refs', 'unref')]))] + self.more(E)

    def base(self, E):
        g = E.S.ghost
        return [('the mutex is free', And(g['locked'] == 0, g['unl'] == 1)), ('posted, and the worker is woken up', And(g['posted'] == 1, g['late'] == 0))]


class Post(DU):
    name = W_ + r'Post\(.*'
    label = 'DomainToIPWorker::Post'
    params = [('this', 'W'), ('req', 'Req'), ('domain', 'Str'), ('limit', None), ('limit2', None), ('cb', 'Fun')]

    def more(self, E):
        return [('a request', And(E.b('req') > 0, E.b('domain') > 0, E.b('cb') > 0, E.S.ld('Req', 0, 'ptr', E.b('req')) >= 0))]

    def others(self, ex, S):
        g = S.ghost
        ex.assume(S, And(Select(g['F'], g['made']) == 0, Select(g['X'], g['made']) == 0))

    def appended(self, ex, S, n, t):
        g = S.ghost
        ex.spec.G(ex, S, And(BoolVal(n == 'F'), t == g['made'], t > 0, g['refs'] == 2, S.ld('Req', 0, 'ptr', Int('p_req')) == t), 'a new context, referenced by the request and the worker')

    def unref(self, ex, S, t):
        g = S.ghost
        ex.spec.G(ex, S, And(t > 0, t != g['made'], g['unref'] == 0), 'only the previous request is dropped')
        g['unref'] = t

    def post(self, E):
        g, S0 = E.S.ghost, E.S0
        old = S0.ld('Req', 0, 'ptr', E.b('req'))
        return [('the request is given out', E.S.ld('Req', 0, 'ptr', E.b('req')) == g['made']), ('the previous one is dropped', g['unref'] == old)] + self.base(E)


class Cancel(DU):
    name = W_ + r'Cancel\(.*'
    label = 'DomainToIPWorker::Cancel'
    params = [('this', 'W'), ('req', 'Req')]

    def more(self, E):
        return [('a posted request', And(E.b('req') > 0, E.S.ld('Req', 0, 'ptr', E.b('req')) > 0, E.S.ld('Ctx', E.ex.spec.k('x_canc'), 'i8', E.S.ld('Req', 0, 'ptr', E.b('req'))) == 0))]

    def others(self, ex, S):
        ex.assume(S, Select(S.ghost['X'], self.ctx0(S)) == 0)

    def ctx0(self, S):
        return Int('canceled')

    def pre(self, E):
        return DU.pre(self, E) + [('the context', E.S.ld('Req', 0, 'ptr', E.b('req')) == Int('canceled'))]

    def appended(self, ex, S, n, t):
        ex.spec.G(ex, S, And(BoolVal(n == 'X'), t == Int('canceled'), S.ld('Req', 0, 'ptr', Int('p_req')) == 0), 'the context of the request, which does not reference it anymore')

    def unref(self, ex, S, t):
        ex.spec.G(ex, S, BoolVal(False), 'the reference goes to the worker')

    def post(self, E):
        return [('the request is empty', E.S.ld('Req', 0, 'ptr', E.b('req')) == 0)] + self.base(E)


DomSpec.contracts = [Post(), Cancel(), ProcessMain(), ProcessFront()]


class CtxSpec(RG):
    """The answers: each calls the callback, once."""
    tu = 'domtoip.cpp'
    shared = ()
    env_cells = ()
    ghost_sorts = {'err': I, 'code': I, 'calls': I}
    handlers = [(r'mg::box::ErrorRaise\(mg::box::ErrorCode\)', 'h_raise')]
    assumptions = RG.assumptions + ('ErrorRaise() returns a new error with the given code', 'the callback returns')

    def on_attach(self):
        self.classes = {'Ctx': Cls({self.k('x_domain'): To('Chars'), self.k('x_cb') + 16: To('Man'), self.k('x_cb') + 24: To('Inv')}), 'Err': Cls({0: None, self.k('r_msg'): To('Chars')}), 'Chars': Cls({}), 'Man': Cls({}), 'Inv': Cls({}), 'Mem': Cls({})}

    def no_inline(self, n, dem):
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def alloca_class(self, *a):
        return None

    def G(self, ex, S, f, what, kind='guarantee'):
        ex.prove(S, f, what, ex.cur_loc, kind)

    def memset(self, ex, S, d, v, n):
        if d.local is None or any(k[0] == d.local for k in S.locals):
            raise Unsupported('memset')

    def h_raise(self, ex, ctx, S, v, ins):
        g = S.ghost
        e = fresh('error', I)
        ex.assume(S, And(e > 0, S.ld('Err', self.k('r_ref'), 'i32', e) == 1))
        g['err'], g['code'] = e, v[1]
        ex.raw_store(S, v[0], 'ptr', Ptr(e, 0, 'Err'))

    def indirect_call(self, ex, ctx, S, fv, v, ins):
        g = S.ghost
        k = self.k
        this = Int('p_this')
        self.G(ex, S, And(g['calls'] == 0, fv.base == S.ld('Ctx', k('x_cb') + 24, 'ptr', this), v[0].base == this, BoolVal(v[0].off == k('x_cb') and v[0].cls == 'Ctx')), 'the callback is called, once')
        ex.contract.args(ex, S, v)
        g['calls'] = g['calls'] + 1
        if ex.contract.code is None:
            return
        r = fresh('refs', I)    # it could reference the error
        ex.assume(S, And(r >= 1, r < (1 << 31)))
        ex.raw_store(S, Ptr(g['err'], k('r_ref'), 'Err'), 'i32', r)

    def free(self, ex, ctx, S, p):
        if p.cls == 'Err':
            self.G(ex, S, And(p.base == S.ghost['err'], S.ld('Err', self.k('r_ref'), 'i32', p.base) == 0), 'the unused error is freed')


class Return(RCon):
    params = [('this', 'Ctx')]

    def pre(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return [('a request with a callback, not in the heap', And(E.b('this') > 0, sp_idx(E) >= (1 << 31), sp_idx(E) < (1 << 32), E.S.ld('Ctx', sp.k('x_cb') + 16, 'ptr', E.b('this')) > 0, E.S.ld('Ctx', sp.k('x_cb') + 24, 'ptr', E.b('this')) > 0, g['calls'] == 0, g['err'] == 0))]

    def args(self, ex, S, v):
        sp, g = ex.spec, S.ghost
        name, err = ex.raw_load(S, v[1], 'ptr'), ex.raw_load(S, v[3], 'ptr')
        sp.G(ex, S, name.base == S.ld('Ctx', sp.k('x_domain'), 'ptr', Int('p_this')), 'with the name')
        self.result(ex, S, v, err)

    def empty(self, ex, S, v):
        a, b = (ex.raw_load(S, Ptr(v[2].base, v[2].off + o, v[2].cls, None, v[2].local), 'ptr') for o in (0, 8))
        ex.spec.G(ex, S, And(BoolVal(v[2].local is not None), ex.peq(a, b)), 'with no addresses')

    def result(self, ex, S, v, err):
        ex.spec.G(ex, S, And(err.base == S.ghost['err'], err.base > 0), 'with the error')
        self.empty(ex, S, v)

    def post(self, E):
        g = E.S.ghost
        return [('the callback is called once', g['calls'] == 1)] + ([('with this error', g['code'] == E.ex.spec.k(self.code))] if self.code else [])


def sp_idx(E):
    return E.S.ld('Ctx', E.ex.spec.k('x_index'), 'i32', E.b('this'))


class RTimeout(Return):
    name = C_ + r'ReturnTimeout\(\)'
    label = 'DomainToIPContext::ReturnTimeout'
    code = 'e_timeout'


class RCancel(Return):
    name = C_ + r'ReturnCancel\(\)'
    label = 'DomainToIPContext::ReturnCancel'
    code = 'e_cancel'


class RError(Return):
    name = C_ + r'ReturnError\(.*'
    label = 'DomainToIPContext::ReturnError'
    params = [('this', 'Ctx'), ('error', 'Err')]
    code = None

    def result(self, ex, S, v, err):
        ex.spec.G(ex, S, err.base == Int('p_error'), 'with the error')
        self.empty(ex, S, v)


class REndpoints(Return):
    name = C_ + r'ReturnEndpoints\(.*'
    label = 'DomainToIPContext::ReturnEndpoints'
    params = [('this', 'Ctx'), ('endpoints', 'Mem')]
    code = None

    def result(self, ex, S, v, err):
        ex.spec.G(ex, S, And(BoolVal(err is NULL) if err is NULL else err.base == 0, v[2].base == Int('p_endpoints'), BoolVal(v[2].local is None)), 'with these addresses and no error')


class AnswerSpec(CtxSpec):
    """Their common parts."""


AnswerSpec.contracts = [RError(), REndpoints()]
CtxSpec.contracts = [RTimeout(), RCancel()]


V_ = r'std::vector<mg::net::DomainEndpoint, std::allocator<mg::net::DomainEndpoint> ?>::'
rank, hostof = Function('rank', I, I), Function('hostof', I, I)
EP = Int('endpoints')
i, j = Int('i'), Int('j')


class ProcSpec(RG):
    """The resolution: one answer with all the suitable addresses, without repeats."""
    tu = 'domtoip.cpp'
    shared = ()
    env_cells = ()
    ghost_sorts = {'n': I, 'el': AI, 'src': AI, 'wit': AI, 'in': AI, 'pt': I, 'cur': I, 'res': I, 'rc': I, 'ans': I, 'freed': I, 'vec': I}
    handlers = [(V_ + r'vector\(\)', 'h_vnew'), (V_ + r'begin\(\)( const)?', 'h_begin'), (V_ + r'end\(\)( const)?', 'h_end'), (V_ + r'empty\(\) const', 'h_empty'), (V_ + r'size\(\) const', 'h_size'), (V_ + r'(push_back|emplace_back)\(.*', 'h_push'), (V_ + r'emplace_back<.*', 'h_push'), (V_ + r'~vector\(\)', 'h_nop'),
                (r'mg::net::Host::Host\(\)', 'h_nop'), (r'mg::net::Host::Set\(sockaddr const\*\)', 'h_set'), (r'mg::net::Host::operator!=\(.*', 'h_ne'), (r'mg::net::Host::operator==\(.*', 'h_eq'),
                (C_ + r'ReturnError\(.*', 'h_error'), (C_ + r'ReturnEndpoints\(.*', 'h_endpoints'), (r'mg::box::ErrorRaise.*', 'h_raise'), (r'mg::box::SharedPtrIntrusive<mg::box::Error>::GetPointer\(\).*', 'h_get'), (r'mg::box::SharedPtrIntrusive<mg::box::Error>::~?SharedPtrIntrusive\(\)', 'h_nop'),
                (r'getaddrinfo', 'h_resolve'), (r'freeaddrinfo', 'h_free'), (r'gai_strerror', 'h_str')]
    assumptions = RG.assumptions + ('getaddrinfo() returns a finite list, not empty on success', 'Host::Set() and comparison are exact on IPv4 and IPv6 addresses', 'std::vector')

    def on_attach(self):
        k = self.k
        self.classes = {'Ctx': Cls({k('x_domain'): To('Chars')}), 'Chars': Cls({}), 'Ai': Cls({k('a_addr'): To('Sa'), k('a_next'): To('Ai')}), 'Sa': Cls({}), 'Ep': Cls({}, arr=True, stride=k('k_ep')), 'Err': Cls({})}

    no_inline = CtxSpec.no_inline
    alloca_class = CtxSpec.alloca_class
    G = CtxSpec.G

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def h_str(self, ex, ctx, S, v, ins):
        return Ptr(fresh('str', I), 0, 'Chars')

    def array_bound(self, ex, S, p):
        return (IntVal(0), S.ghost['n'])

    def suit(self, S, t):
        f = S.ld('Ai', self.k('a_family'), 'i32', t)
        return Or(f == self.k('k_inet'), f == self.k('k_inet6'))

    def host(self, S, t):
        return hostof(S.ld('Ai', self.k('a_addr'), 'ptr', t))

    def next(self, S, t):
        return S.ld('Ai', self.k('a_next'), 'ptr', t)

    def on_access(self, ex, S, p, what):
        if p.local is None and p.cls == 'Ai':
            self.G(ex, S, And(S.ghost['freed'] == 0, Select(S.ghost['in'], p.base) == 1), 'the list is read before it is freed', 'race')
            if p.off == self.k('a_addr'):
                S.ghost['cur'] = p.base

    # -- the resolver
    def h_resolve(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['rc'] == -999, v[0].base == S.ld('Ctx', self.k('x_domain'), 'ptr', Int('p_this'))), 'the name is resolved, once')
        rc = fresh('rc', I)
        r = fresh('res', I)
        g['rc'], g['res'] = rc, r
        inn = fresh('in', AI)
        g['in'] = inn
        m, nx = Select(inn, x), self.next(S, x)
        ex.assume(S, And(0 <= rc, rc < (1 << 32), r >= 0, Implies(rc == 0, r > 0), Implies(r > 0, Select(inn, r) == 1), Select(inn, 0) == 0,
                         every(And(Or(m == 0, m == 1), Implies(m == 1, And(x > 0, rank(x) >= 0, rank(x) <= rank(r), (nx == 0) == (rank(x) == 0), Implies(nx != 0, And(Select(inn, nx) == 1, rank(nx) == rank(x) - 1))))), m)))
        ex.assume(S, ForAll([x, i], Implies(And(Select(inn, x) == 1, Select(inn, i) == 1, rank(x) == rank(i)), x == i), patterns=[z3.MultiPattern(Select(inn, x), Select(inn, i))]))
        ex.raw_store(S, v[3], 'ptr', Ptr(r, 0, 'Ai'))
        return rc

    def h_free(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['freed'] == 0, v[0].base == g['res'], g['res'] > 0), 'the list is freed, once')
        g['freed'] = IntVal(1)

    # -- the endpoints
    def vec(self, ex, S, p):
        self.G(ex, S, BoolVal(p.local is not None), 'the list of endpoints', 'call-pre')

    def h_vnew(self, ex, ctx, S, v, ins):
        self.G(ex, S, S.ghost['vec'] == 0, 'one list of endpoints', 'call-pre')
        S.ghost['vec'], S.ghost['n'] = IntVal(1), IntVal(0)

    def h_begin(self, ex, ctx, S, v, ins):
        return Ptr(EP, 0, 'Ep', IntVal(0))

    def h_end(self, ex, ctx, S, v, ins):
        return Ptr(EP, 0, 'Ep', S.ghost['n'])

    def h_empty(self, ex, ctx, S, v, ins):
        return S.ghost['n'] == 0

    def h_size(self, ex, ctx, S, v, ins):
        return S.ghost['n']

    def h_push(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(BoolVal(v[1].local is not None), g['cur'] > 0), 'a new endpoint', 'call-pre')
        n = g['n']
        ex.assume(S, n < (1 << 40))
        g['el'], g['src'], g['wit'], g['n'] = Store(g['el'], n, g['pt']), Store(g['src'], n, g['cur']), Store(g['wit'], g['cur'], n), n + 1

    def h_set(self, ex, ctx, S, v, ins):
        g = S.ghost
        g['pt'] = hostof(v[1].base)
        self.G(ex, S, And(BoolVal(v[0].local is not None), self.suit(S, g['cur']), v[1].base == S.ld('Ai', self.k('a_addr'), 'ptr', g['cur'])), 'the address of an IPv4 or an IPv6 entry', 'call-pre')

    def value(self, S, p):
        return S.ghost['pt'] if p.local is not None else Select(S.ghost['el'], p.idx if p.idx is not None else IntVal(0))

    def h_ne(self, ex, ctx, S, v, ins):
        return Not(self.cmp(ex, S, v))

    def h_eq(self, ex, ctx, S, v, ins):
        return self.cmp(ex, S, v)

    def cmp(self, ex, S, v):
        g = S.ghost
        r = self.value(S, v[0]) == self.value(S, v[1])
        for p in v[:2]:
            if p.local is None:
                ix = p.idx if p.idx is not None else IntVal(0)
                self.G(ex, S, And(p.base == EP, 0 <= ix, ix < g['n']), 'an endpoint of the list', 'safety')
                g['wit'] = If(r, Store(g['wit'], g['cur'], ix), g['wit'])
        return r

    # -- the answers
    def h_raise(self, ex, ctx, S, v, ins):
        e = fresh('error', I)
        ex.assume(S, e > 0)
        ex.raw_store(S, v[0], 'ptr', Ptr(e, 0, 'Err'))

    def h_get(self, ex, ctx, S, v, ins):
        return ex.raw_load(S, v[0], 'ptr')

    def h_error(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['ans'] == 0, v[0].base == Int('p_this'), v[1].base > 0), 'one answer, with an error')
        self.G(ex, S, Implies(g['rc'] == 0, every(Implies(Select(g['in'], x) == 1, Not(self.suit(S, x))), Select(g['in'], x))), 'an error if there is nothing suitable')
        g['ans'] = IntVal(1)

    def h_endpoints(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['ans'] == 0, v[0].base == Int('p_this'), BoolVal(v[1].local is not None), g['rc'] == 0, g['n'] > 0), 'one answer, with endpoints')
        self.G(ex, S, every(Implies(And(Select(g['in'], x) == 1, self.suit(S, x)), And(0 <= Select(g['wit'], x), Select(g['wit'], x) < g['n'], Select(g['el'], Select(g['wit'], x)) == self.host(S, x))), Select(g['in'], x)), 'all the suitable addresses are there')
        for l, f in ex.contract.els(ex.spec, S):
            self.G(ex, S, f, l)
        g['ans'] = IntVal(1)


class Process(RCon):
    name = C_ + r'Process\(\)'
    label = 'DomainToIPContext::Process'
    params = [('this', 'Ctx')]

    def els(self, sp, S):
        g = S.ghost
        e = lambda a: Select(g['el'], a)
        sr = Select(g['src'], i)
        return [('only suitable addresses', ForAll([i], Implies(And(0 <= i, i < g['n']), And(Select(g['in'], sr) == 1, sp.suit(S, sr), sp.host(S, sr) == e(i))), patterns=[sr, e(i)])),
                ('no repeats', ForAll([i, j], Implies(And(0 <= i, i < j, j < g['n']), e(i) != e(j)), patterns=[z3.MultiPattern(e(i), e(j))]))]

    def inv1(E):
        S = E.S
        g, sp = S.ghost, E.ex.spec
        c = E.ex.contract
        p = E.r['pos'].base
        w = Select(g['wit'], x)
        keep = [E.S.locals[k][1].base == g['res'] for k, (t, v) in E.L.locals.items() if isinstance(v, Ptr) and v.base.eq(E.L.ghost['res']) and k in E.S.locals]
        return [('the list is kept', And(*keep)), ('resolved', And(g['rc'] == 0, g['freed'] == 0, g['ans'] == 0, g['vec'] == 1, g['n'] >= 0, g['in'] == E.L.ghost['in'], g['res'] == E.L.ghost['res'])), ('the position', Or(p == 0, And(p > 0, Select(g['in'], p) == 1))),
                ('all before the position are taken', every(Implies(And(Select(g['in'], x) == 1, sp.suit(S, x), Or(p == 0, rank(x) > rank(p))), And(0 <= w, w < g['n'], Select(g['el'], w) == sp.host(S, x))), Select(g['in'], x)))] + c.els(sp, S)

    def inv2(E):
        S = E.S
        g, L = S.ghost, E.L.ghost
        b = E.r['begin']
        ix = b.idx if b.idx is not None else IntVal(0)
        keep = [S.locals[k][1].base == v.base for k, (t, v) in E.L.locals.items() if isinstance(v, Ptr) and v.cls == 'Ai' and k in S.locals]
        return [('the list is kept', And(*keep)), ('nothing changes', And(*[g[q] == L[q] for q in g if q != 'locked'])), ('the range', And(b.base == EP, 0 <= ix, ix <= g['n'])), ('not found', And(E.r['isFound'] == 0, ForAll([i], Implies(And(0 <= i, i < ix), Select(g['el'], i) != g['pt']), patterns=[Select(g['el'], i)])))]
    loops = [Loop({'pos': 'ptr'}, inv1, lambda E: If(E.r['pos'].base == 0, 0, 1 + rank(E.r['pos'].base)), cls={'pos': 'Ai'}), Loop({'begin': 'ptr', 'isFound': 'i8'}, inv2, lambda E: E.S.ghost['n'] - (E.r['begin'].idx if E.r['begin'].idx is not None else IntVal(0)), cls={'begin': 'Ep'})]
    loops_in_order = True

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('a request, not in the heap', And(E.b('this') > 0, sp_idx(E) >= (1 << 31), sp_idx(E) < (1 << 32))), ('nothing done', And(g['n'] == 0, g['vec'] == 0, g['ans'] == 0, g['freed'] == 0, g['rc'] == -999, g['res'] == 0, EP > 0))]

    def post(self, E):
        g = E.S.ghost
        return [('one answer', g['ans'] == 1), ('the list is freed', Implies(g['res'] > 0, g['freed'] == 1))]


ProcSpec.contracts = [Process()]
SPEC = [DomSpec, CtxSpec, AnswerSpec, ProcSpec]
