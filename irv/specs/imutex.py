"""InterruptibleMutex: exclusion, handing the ownership over to the first waiter, wakeup of
the owner, no lost waiter.

Ghosts: own (0 nobody, 1 this thread, 2 another one), imm - this thread holds the internal
mutex, wn - number of queued waiters.  TAKEN <=> own != 0; whenever the internal mutex is
free HAS_WAITERS <=> wn > 0, and then the mutex is taken.
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, Select, BoolVal
from ..spec import *
from ..rg import RG, RCon

Q = r'mg::box::InterruptibleMutex::'
L = r'mg::box::DoublyList<.*>::'


class ImSpec(RG):
    tu = 'imutex.cpp'
    ghost_sorts = dict(own=I, imm=B, wn=I, queued=B, first=B, woke=B, pop=I, npop=I, nsent=I, acq=B, busy=B, me=I)
    env_ghosts = ('own', 'wn')
    handlers = [(r'mg::box::Mutex::Lock\(\)', 'h_lock'), (r'mg::box::Mutex::Unlock\(\)', 'h_unlock'),
                (r'mg::box::Mutex::~?Mutex\(\)', 'h_nop'), (r'mg::box::Signal::Signal\(\)', 'h_nop'), (r'mg::box::Signal::~Signal\(\)', 'h_sigdtor'),
                (r'mg::box::Signal::Send\(\)', 'h_send'), (r'mg::box::Signal::ReceiveBlocking\(\)', 'h_recv'),
                (L + r'IsEmpty\(\) const', 'h_empty'), (L + r'Append\(.*\)', 'h_append'), (L + r'PopFirst\(\)', 'h_pop'),
                (L + r'~?DoublyList\(\)', 'h_nop'),
                (r'std::function<void \(\)>::operator\(\)\(\) const', 'h_wakeup')]
    assumptions = RG.assumptions + (
        'the internal Mutex excludes (B09), Signal delivers and orders (B08), DoublyList is a sequence (B02)',
        'the owner unlocks it; it is destroyed when no thread is inside of its methods')

    def on_attach(self):
        self.os_, self.om, self.ow, self.og = self.k('off_state'), self.k('off_mutex'), self.k('off_waiters'), self.k('off_signal')
        self.T, self.H = self.k('f_taken'), self.k('f_waiters')
        self.ks = ('IM', self.os_, 'i8')
        self.shared = (self.ks,)
        self.classes = {'IM': Cls({}), 'W': Cls({})}

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def st(self, S):
        return Select(S.get(self.ks), Int('p_this'))

    def taken(self, s):
        return Or(s == self.T, s == self.T + self.H)

    def hw(self, s):
        return Or(s == self.H, s == self.T + self.H)

    def inv(self, S, E=None):
        g, s = S.ghost, self.st(S)
        return [('known flags only', Or(s == 0, s == self.T, s == self.H, s == self.T + self.H)),
                ('taken means somebody owns it', self.taken(s) == (g['own'] != 0)),
                ('owner', And(g['own'] >= 0, g['own'] <= 2)), ('waiters', g['wn'] >= 0)]

    def rely(self, S0, S):
        g0, g = S0.ghost, S.ghost
        s0, s = self.st(S0), self.st(S)
        return [('ownership is not stolen or given away by others', (g0['own'] == 1) == (g['own'] == 1)),
                ('only the owner drops the waiters flag', Implies(And(g0['own'] == 1, self.hw(s0)), self.hw(s))),
                ('the waiters are under the internal mutex', Implies(g0['imm'], And(g['wn'] == g0['wn'], self.hw(s) == self.hw(s0)))),
                ('nothing happens to the state with the waiters flag without the internal mutex', Implies(And(g0['imm'], self.hw(s0)), And(s == s0, g['own'] == g0['own'])))]

    def linv(self, S):
        g, s = S.ghost, self.st(S)
        return [('the waiters flag is set exactly when somebody waits', self.hw(s) == (g['wn'] > 0)),
                ('nobody waits for a free mutex', Implies(self.hw(s), self.taken(s)))]

    def on_access(self, ex, S, p, what):
        if p.local is None and p.cls == 'W':
            ex.prove(S, S.ghost['nsent'] == 0, 'a waiter is not touched after its wakeup (%s)' % what, ex.cur_loc, 'safety')

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        T, H = self.T, self.H
        take = And(g['own'] == 0, new == T, Or(old == 0, And(g['imm'], old == H, g['wn'] == 0)))
        drop = And(g['own'] == 1, old == T, new == 0)
        flag = And(g['imm'], Or(old == new, And(Not(self.hw(old)), new == old + H)))
        unfl = And(g['imm'], g['own'] == 1, old == T + H, Or(new == T, new == old))
        ex.prove(S, Or(take, drop, flag, unfl), 'a permitted step', ex.cur_loc, 'guarantee')
        if ex.quick(S, take):
            ex.prove(S, Or(g['acq'], BoolVal(order in ('acquire', 'acq_rel', 'seq_cst'))), 'taking the mutex: sees what the previous owner did (acquire)', ex.cur_loc, 'order')
            g['own'] = IntVal(1)
        elif ex.quick(S, drop):
            self.order(ex, S, order, 'release', 'leaving the mutex: publishes what the owner did')
            g['own'] = IntVal(0)
        elif ex.quick(S, Or(flag, unfl)):
            if order in ('acquire', 'acq_rel', 'seq_cst'):
                g['acq'] = Or(g['acq'], And(g['imm'], self.hw(new), g['own'] == 0))
        else:
            ex.prove(S, BoolVal(False), 'a step which is one of: take, leave, flag', ex.cur_loc, 'guarantee')

    def on_cas_fail(self, ex, S, p, val, order):
        S.ghost['busy'] = val != 0

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def here(self, ex, S, p, off, what):
        ex.prove(S, And(p.base == Int('p_this'), BoolVal(p.local is None and p.off == off)), what, ex.cur_loc, 'call-pre')

    def h_lock(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], self.om, 'the internal mutex')
        ex.prove(S, Not(S.ghost['imm']), 'not locked twice', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        S.ghost['imm'] = BoolVal(True)
        for lab, f in self.linv(S):
            ex.assume(S, f)

    def h_unlock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], self.om, 'the internal mutex')
        ex.prove(S, g['imm'], 'unlocks what it locked', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        for lab, f in self.linv(S):
            ex.prove(S, f, 'internal mutex is released: ' + lab, ex.cur_loc, 'invariant')
        g['imm'] = BoolVal(False)
        g['acq'] = BoolVal(False)
        self.interfere(ex, S)

    def h_empty(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], self.ow, 'the list of waiters')
        ex.prove(S, S.ghost['imm'], 'the waiters are looked at under the internal mutex', ex.cur_loc, 'race')
        return S.ghost['wn'] == 0

    def h_append(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], self.ow, 'the list of waiters')
        ex.prove(S, And(g['imm'], Not(g['queued'])), 'the waiter is added once and under the internal mutex', ex.cur_loc, 'race')
        g['first'] = g['wn'] == 0
        g['wn'] = g['wn'] + 1
        g['queued'] = BoolVal(True)
        ex.prove(S, BoolVal(v[1].local is not None), 'the waiter is this thread\'s', ex.cur_loc, 'call-pre')
        self.mine = v[1].local

    def h_pop(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], self.ow, 'the list of waiters')
        ex.prove(S, And(g['imm'], g['wn'] > 0), 'a waiter is taken from a non-empty list under the internal mutex', ex.cur_loc, 'call-pre')
        ex.prove(S, g['npop'] == 0, 'one waiter per unlock', ex.cur_loc, 'guarantee')
        w = fresh('waiter', I)
        ex.assume(S, w != 0)
        g['wn'] = g['wn'] - 1
        g['pop'] = w
        g['npop'] = g['npop'] + 1
        return Ptr(w, 0, 'W')

    def h_send(self, ex, ctx, S, v, ins):
        g = S.ghost
        p = v[0]
        ex.prove(S, And(g['npop'] == 1, g['nsent'] == 0, p.base == g['pop'], BoolVal(p.local is None and p.off == self.og)), 'the removed waiter is signaled, once', ex.cur_loc, 'guarantee')
        ex.prove(S, g['own'] == 1, 'only the owner gives the ownership away', ex.cur_loc, 'guarantee')
        ex.prove(S, Implies(g['imm'], self.hw(self.st(S)) == (g['wn'] > 0)), 'the new owner finds the waiters flag right', ex.cur_loc, 'guarantee')
        g['nsent'] = g['nsent'] + 1
        g['own'] = IntVal(2)

    def h_recv(self, ex, ctx, S, v, ins):
        g = S.ghost
        p = v[0]
        ex.prove(S, And(g['queued'], Not(g['imm']), BoolVal(p.local is not None and p.local == getattr(self, 'mine', None) and p.off == self.og)), 'waits for its turn when queued, without the internal mutex', ex.cur_loc, 'guarantee')
        ex.prove(S, Implies(g['first'], g['woke']), 'the first waiter wakes the owner up', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        g['queued'] = BoolVal(False)
        S.havoc(self.ks)
        g['own'] = IntVal(1)
        for lab, f in self.inv(S):
            ex.assume(S, f)

    def h_sigdtor(self, ex, ctx, S, v, ins):
        ex.prove(S, Not(S.ghost['queued']), 'a queued waiter is not destroyed', ex.cur_loc, 'safety')

    def h_wakeup(self, ex, ctx, S, v, ins):
        ex.prove(S, And(v[0].base == Int('p_fn'), S.ghost['own'] != 1), 'the given callback wakes another thread', ex.cur_loc, 'call-pre')
        S.ghost['woke'] = BoolVal(True)


class IC(RCon):
    role = 'im'
    params = [('this', 'IM')]

    def pre(self, E):
        g = E.S.ghost
        return [('this', E.b('this') != 0), ('ghosts', And(Not(g['imm']), Not(g['queued']), Not(g['first']), Not(g['woke']), Not(g['acq']), Not(g['busy']), g['npop'] == 0, g['nsent'] == 0)),
                ('role', self.start(g))] + E.ex.spec.inv(E.S)

    def post(self, E):
        g = E.S.ghost
        return [('the internal mutex is free', Not(g['imm'])), ('a removed waiter got the mutex', g['npop'] == g['nsent']), ('is not queued any more', Not(g['queued']))] + self.more(E, g)


class Lock(IC):
    name = Q + r'Lock\(std::function<void \(\)> const&\)'
    label = 'InterruptibleMutex::Lock'
    params = [('this', 'IM'), ('fn', None)]

    def start(self, g):
        return g['own'] != 1

    def more(self, E, g):
        return [('owns the mutex', g['own'] == 1)]


class Try(IC):
    name = Q + r'TryLock\(\)'
    label = 'InterruptibleMutex::TryLock'

    def start(self, g):
        return BoolVal(True)

    def more(self, E, g):
        return [('success means ownership', E.ret == And(g['own'] == 1, E.S0.ghost['own'] != 1)), ('fails only if taken or waited for', Implies(Not(E.ret), g['busy']))]


class Unlock(IC):
    name = Q + r'Unlock\(\)'
    label = 'InterruptibleMutex::Unlock'

    def start(self, g):
        return g['own'] == 1

    def more(self, E, g):
        return [('does not own the mutex any more', g['own'] != 1)]


class ImFns(ImSpec):
    contracts = [Lock(), Try(), Unlock()]


class ImCtor(ImSpec):
    def on_attach(self):
        ImSpec.on_attach(self)
        self.shared = ()

    class C0(RCon):
        name = Q + r'InterruptibleMutex\(\)'
        label = 'InterruptibleMutex()'
        params = [('this', 'IM')]

        def pre(self, E):
            return [('this', E.b('this') != 0)]

        def post(self, E):
            return [('free', E.ex.spec.st(E.S) == 0)]

    class C1(C0):
        name = Q + r'~InterruptibleMutex\(\)'
        label = '~InterruptibleMutex'

        def pre(self, E):
            return [('free', And(E.b('this') != 0, E.ex.spec.st(E.S) == 0))]

        def post(self, E):
            return []
    contracts = [C0(), C1()]
    assumptions = ('constructed and destroyed when nobody else uses it',)


SPEC = [ImFns, ImCtor]
