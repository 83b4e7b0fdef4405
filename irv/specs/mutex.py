"""Mutex, MutexLock and ConditionVariable over std::mutex / std::condition_variable_any.

Ghost state: held - this thread holds the std mutex, n - how many times this thread locked
the Mutex.  Lock invariant (owner == 0 and count == 0) is proved where the std mutex is
released (unlock, wait) and assumed where it is taken; the owner never becomes the id of
this thread by steps of the others.
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, Select, Store, BoolVal
from ..spec import *
from ..rg import RG, RCon

Q = r'mg::box::'
TID = Int('tid')
CENTURY10 = 1000 * 60 * 60 * 24 * 365 * 10


class MuSpec(RG):
    tu = 'mutex.cpp'
    ghost_sorts = dict(held=B, n=I, settled=B, dur=I, asked=I, timed=I, waits=I, timeout=B, notes=I)
    handlers = [(r'std::mutex::lock\(\)', 'h_lock'), (r'std::mutex::try_lock\(\)', 'h_try'), (r'std::mutex::unlock\(\)', 'h_unlock'),
                (r'std::mutex::~?mutex\(\)', 'h_nop'), (r'std::_V2::condition_variable_any::~?condition_variable_any\(\)', 'h_nop'),
                (r'void std::_V2::condition_variable_any::wait<std::mutex>\(std::mutex&\)', 'h_wait'),
                (r'std::cv_status std::_V2::condition_variable_any::wait_for<std::mutex, long, std::ratio<1l, 1000l> ?>\(.*\)', 'h_wait_for'),
                (r'std::_V2::condition_variable_any::notify_(one|all)\(\)', 'h_notify'),
                (r'mg::box::GetCurrentThreadId\(\)', 'h_tid'),
                (r'mg::box::TimeLimit::ToDurationFromNow\(\) const', 'h_dur')]
    assumptions = RG.assumptions + (
        'std::mutex excludes; its try_lock called by the owner returns false (pthreads: EBUSY)',
        'std::condition_variable_any::wait and wait_for release the mutex while sleeping, hold it on return, and do not lose notifications; a wait of more than 10 years equals an infinite one',
        'GetCurrentThreadId returns one nonzero number per thread, different for living threads',
        'TimeLimit::ToDurationFromNow is what B04 says')

    def on_attach(self):
        self.oo, self.oc = self.k('off_owner'), self.k('off_count')
        self.ko, self.kc = ('Mu', self.oo, 'i32'), ('Mu', self.oc, 'i32')
        self.shared = (self.ko,)
        self.ol = self.k('off_lockptr')
        self.classes = {'Mu': Cls({}), 'CV': Cls({}), 'Guard': Cls({self.ol: To('Mu')})}

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def m(self):
        return Int('p_m')

    def own(self, S):
        return Select(S.get(self.ko), self.m())

    def cnt(self, S):
        return Select(S.get(self.kc), self.m())

    def rely(self, S0, S):
        g = S0.ghost
        return [('the holder is the only one to change the owner', Implies(g['held'], self.own(S) == self.own(S0))),
                ('nobody else writes the id of this thread', Implies(Not(g['held']), self.own(S) != TID))]

    def check(self, ex, S, what):
        pass

    def on_access(self, ex, S, p, what):
        if p.local is None and p.cls == 'Mu' and p.off == self.oc:
            ex.prove(S, S.ghost['held'], 'the counter is touched only with the mutex held (%s)' % what, ex.cur_loc, 'race')

    def load_global(self, ex, S, p, ty):
        return fresh('glob', I)

    def on_write(self, ex, S, pre, p, old, new, order, op):
        ex.prove(S, S.ghost['held'], 'the owner is changed only with the mutex held', ex.cur_loc, 'race')
        ex.prove(S, Or(new == 0, new == TID), 'a thread writes only its own id as the owner', ex.cur_loc, 'guarantee')

    # the handle is at offset 0 of Mutex
    def same(self, ex, S, p):
        ex.prove(S, And(p.base == self.m(), BoolVal(p.off == 0)), 'the mutex itself is given', ex.cur_loc, 'call-pre')

    def take(self, ex, S):
        g = S.ghost
        g['held'] = BoolVal(True)
        S.havoc(self.ko)
        S.havoc(self.kc)
        ex.assume(S, And(self.own(S) == 0, self.cnt(S) == 0))

    def free_(self, ex, S, what):
        g = S.ghost
        ex.prove(S, g['held'], '%s with the mutex held' % what, ex.cur_loc, 'call-pre')
        ex.prove(S, And(self.own(S) == 0, self.cnt(S) == 0), 'the mutex has no owner when released (%s)' % what, ex.cur_loc, 'guarantee')
        g['held'] = BoolVal(False)

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def h_tid(self, ex, ctx, S, v, ins):
        ex.assume(S, And(TID > 0, TID < (1 << 32)))
        return TID

    def h_lock(self, ex, ctx, S, v, ins):
        self.same(ex, S, v[0])
        ex.prove(S, Not(S.ghost['held']), 'does not lock what it already holds (deadlock)', ex.cur_loc, 'call-pre')
        self.take(ex, S)

    def h_try(self, ex, ctx, S, v, ins):
        self.same(ex, S, v[0])
        g = S.ghost
        alts = [(Not(g['held']), True), (BoolVal(True), False)]
        alts = [(c, x) for c, x in alts if ex.feasible(S, c)]

        def apply(c2, S2, x):
            c2.fr[ins.dst] = BoolVal(x)
            S2.pending.append(lambda ex2, S3: self.take(ex2, S3) if x else None)
        raise Split(alts, apply)

    def h_unlock(self, ex, ctx, S, v, ins):
        self.same(ex, S, v[0])
        self.free_(ex, S, 'unlock')

    def sleep(self, ex, S, v):
        self.same(ex, S, v[1])
        self.free_(ex, S, 'wait')
        S.ghost['waits'] = S.ghost['waits'] + 1
        self.take(ex, S)

    def h_wait(self, ex, ctx, S, v, ins):
        if ex.topE is not None and 't0' in ex.topE.a:
            ex.prove(S, S.ghost['asked'] >= 1, 'the limit is looked at', ex.cur_loc, 'guarantee')
            ex.prove(S, S.ghost['dur'] >= CENTURY10, 'an unlimited wait only for an (almost) unlimited time limit', ex.cur_loc, 'guarantee')
        self.sleep(ex, S, v)

    def h_wait_for(self, ex, ctx, S, v, ins):
        ms = ex.raw_load(S, v[2], 'i64')
        g = S.ghost
        ex.prove(S, ms * 1000000 < (1 << 62), 'the timeout is representable for the standard library', ex.cur_loc, 'call-pre')
        ex.prove(S, And(g['asked'] >= 1, ms == g['dur']), 'waits as long as the limit says', ex.cur_loc, 'guarantee')
        self.sleep(ex, S, v)
        r = fresh('cvst', I)
        ex.assume(S, And(r >= 0, r <= 1))
        g['timed'] = g['timed'] + 1
        g['timeout'] = r == 1
        return r

    def h_notify(self, ex, ctx, S, v, ins):
        S.ghost['notes'] = S.ghost['notes'] + (1 if 'notify_one' in ins.text else 2)

    def h_dur(self, ex, ctx, S, v, ins):
        a = ex.topE.a
        ex.prove(S, And(ex.raw_load(S, v[0], 'i32') == a['t0'], ex.raw_load(S, Ptr(v[0].base, v[0].off + 8, v[0].cls, v[0].idx, v[0].local), 'i64') == a['t1']), 'the given limit is used', ex.cur_loc, 'call-pre')
        r = fresh('dur', I)
        ex.assume(S, And(r >= 0, r < (1 << 64)))
        S.ghost['dur'] = r
        S.ghost['asked'] = S.ghost['asked'] + 1
        return r


class MC(RCon):
    """state = (n locks by this thread); n > 0 <=> the owner is this thread, count == n"""
    role = 'm'
    params = [('m', 'Mu')]
    need = 0

    def st(self, E, n):
        sp, S = E.ex.spec, E.S
        return [('holds the mutex if it locked it', S.ghost['held'] == (n > 0)),
                ('owner', If(n > 0, sp.own(S) == TID, sp.own(S) != TID)),
                ('count', Implies(n > 0, sp.cnt(S) == n))]

    def pre(self, E):
        g = E.S.ghost
        return [('args', And(E.b('m') != 0, TID > 0, TID < (1 << 32))), ('n', And(g['n'] >= self.need, g['n'] < (1 << 32) - 1)),
                ('g', And(g['waits'] == 0, g['timed'] == 0, g['asked'] == 0, g['notes'] == 0))] + self.st(E, g['n'])

    def post(self, E):
        return self.st(E, self.after(E, E.S0.ghost['n'])) + self.more(E, E.S0.ghost['n'])

    def after(self, E, n):
        return n

    def more(self, E, n):
        return []


def mc(fn, lab, nd=0, aft=None, more=None, par=None):
    class C(MC):
        name = fn
        label = lab
        need = nd
        params = par or [('m', 'Mu')]

        def after(self, E, n):
            return aft(E, n) if aft else n

        def more(self, E, n):
            return more(E, n) if more else []
    return C()


class Guard(MC):
    params = [('l', 'Guard'), ('m', 'Mu')]
    holding = True

    def gp(self, E):
        return Select(E.S.get(('Guard', E.ex.spec.ol, 'ptr')), E.b('l'))

    def pre(self, E):
        return MC.pre(self, E) + [('guard', E.b('l') != 0)]


class GNew(Guard):
    name = 'drv_guard'
    label = 'MutexLock()'

    def after(self, E, n):
        return n + 1

    def more(self, E, n):
        return [('guards this mutex', self.gp(E) == E.b('m'))]


class GDel(Guard):
    name = 'drv_unguard'
    label = '~MutexLock'
    params = [('l', 'Guard')]

    def pre(self, E):
        gp = self.gp(E)
        g = E.S.ghost
        E.a['m'] = Ptr(Int('p_m'), 0, 'Mu')
        return [('guard', And(E.b('l') != 0, Int('p_m') != 0, Or(gp == 0, gp == Int('p_m')), Implies(gp != 0, g['n'] >= 1)))] + [p for p in MC.pre(self, E)]

    def after(self, E, n):
        gp0 = Select(E.S0.get(('Guard', E.ex.spec.ol, 'ptr')), E.b('l'))
        return If(gp0 != 0, n - 1, n)


class GUnlock(GDel):
    name = 'drv_guard_unlock'
    label = 'MutexLock::Unlock'

    def pre(self, E):
        return GDel.pre(self, E) + [('not unlocked yet', self.gp(E) != 0)]

    def more(self, E, n):
        return [('guards nothing any more', self.gp(E) == 0)]


class W(MC):
    need = 1
    params = [('c', 'CV'), ('m', 'Mu')]

    def pre(self, E):
        return MC.pre(self, E) + [('locked once', E.S.ghost['n'] == 1), ('cv', E.b('c') != 0)]


class Wait(W):
    name = Q + r'ConditionVariable::Wait\(mg::box::Mutex&\)'
    label = 'ConditionVariable::Wait'

    def more(self, E, n):
        return [('waits once', E.S.ghost['waits'] == 1)]


class TWait(W):
    name = Q + r'ConditionVariable::TimedWait\(mg::box::Mutex&, mg::box::TimeLimit\)'
    label = 'ConditionVariable::TimedWait'
    params = [('c', 'CV'), ('m', 'Mu'), ('t0', None), ('t1', None)]

    def more(self, E, n):
        g = E.S.ghost
        return [('waits once', g['waits'] == 1), ('false only when the time is over', E.ret == Or(g['timed'] == 0, Not(g['timeout'])))]


class MuFns(MuSpec):
    contracts = [
        mc(Q + r'Mutex::Lock\(\)', 'Mutex::Lock', aft=lambda E, n: n + 1),
        mc(Q + r'Mutex::TryLock\(\)', 'Mutex::TryLock', aft=lambda E, n: If(E.ret, n + 1, n), more=lambda E, n: [('fails only if another thread holds it', Implies(n > 0, E.ret))]),
        mc(Q + r'Mutex::Unlock\(\)', 'Mutex::Unlock', 1, aft=lambda E, n: n - 1),
        mc(Q + r'Mutex::IsOwnedByThisThread\(\) const', 'Mutex::IsOwnedByThisThread', more=lambda E, n: [('owned if locked by this thread', E.ret == (n > 0))]),
        GNew(), GDel(), GUnlock(), Wait(), TWait()]


class MuCtor(MuSpec):
    def on_attach(self):
        MuSpec.on_attach(self)
        self.shared = ()

    class C0(RCon):
        name = 'drv_new'
        label = 'Mutex()'
        params = [('m', 'Mu')]

        def pre(self, E):
            return [('arg', E.b('m') != 0), ('mine', E.S.ghost['held'])]

        def post(self, E):
            return [('free', And(E.ex.spec.own(E.S) == 0, E.ex.spec.cnt(E.S) == 0))]

    class C1(C0):
        name = 'drv_del'
        label = '~Mutex'

        def pre(self, E):
            return [('arg', E.b('m') != 0), ('free', And(E.S.ghost['held'], E.ex.spec.own(E.S) == 0, E.ex.spec.cnt(E.S) == 0))]

        def post(self, E):
            return []

    class C2(RCon):
        name = 'drv_signal'
        label = 'ConditionVariable::Signal'
        params = [('c', 'CV')]
        amount = 1

        def pre(self, E):
            return [('arg', E.b('c') != 0), ('g', E.S.ghost['notes'] == 0)]

        def post(self, E):
            return [('wakes up one waiter at least', E.S.ghost['notes'] >= self.amount)]

    class C3(C2):
        name = 'drv_broadcast'
        label = 'ConditionVariable::Broadcast'
        amount = 2
    contracts = [C0(), C1(), C2(), C3()]
    assumptions = ('a mutex is constructed and destroyed when nobody else uses it',)


SPEC = [MuFns, MuCtor]
