"""Signal: no send is lost, nobody waits while a signal is pending, and the sender never
touches the signal once a receiver may have it (and destroy it).

State machine EMPTY -> PROBE (sender) -> SIGNALED (the same sender, under the lock) ->
EMPTY (receiver).  A send of an already set signal rewrites the state, so that the
receiver is ordered after it too.
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, Select, BoolVal
from ..spec import *
from ..rg import RG, RCon

Q = r'mg::box::Signal::'


class SigSpec(RG):
    tu = 'signal.cpp'
    ghost_sorts = dict(probe=B, lock=B, sets=B, notified=B, left=B, lin=I, recv=I, waited=I, locked=I, torn=B)
    handlers = [(r'mg::box::Mutex::Lock\(\)', 'h_lock'), (r'mg::box::Mutex::Unlock\(\)', 'h_unlock'),
                (r'mg::box::ConditionVariable::Wait\(mg::box::Mutex&\)', 'h_wait'),
                (r'mg::box::ConditionVariable::TimedWait\(mg::box::Mutex&, mg::box::TimeLimit\)', 'h_twait'),
                (r'mg::box::ConditionVariable::(Signal|Broadcast)\(\)', 'h_notify'),
                (r'mg::box::(Mutex::Mutex|ConditionVariable::ConditionVariable)\(\)', 'h_nop'),
                (r'mg::box::(Mutex::~Mutex|ConditionVariable::~ConditionVariable)\(\)', 'h_destroy')]
    assumptions = RG.assumptions + (
        'Mutex excludes, ConditionVariable releases the mutex and sleeps atomically (their contracts: B09)',
        'a signal is destroyed only by a thread which received it, or when nobody uses it')

    def on_attach(self):
        self.off = self.k('off_state')
        self.ks = ('Sig', self.off, 'i32')
        self.shared = (self.ks,)
        self.classes = {'Sig': Cls({})}
        self.E, self.P, self.S_ = self.k('st_empty'), self.k('st_probe'), self.k('st_signaled')

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def st(self, S):
        return Select(S.get(self.ks), Int('p_this'))

    def inv(self, S, E=None):
        s = self.st(S)
        return [('state is one of three', Or(s == self.E, s == self.P, s == self.S_)),
                ('a probing sender', Implies(S.ghost['probe'], s == self.P))]

    def rely(self, S0, S):
        g = S0.ghost
        return [('only the prober leaves the probe state', Implies(g['probe'], self.st(S) == self.P)),
                ('a signal is set only under the lock', Implies(And(g['lock'], self.st(S) == self.S_), self.st(S0) == self.S_))]

    def here(self, ex, S, what):
        ex.prove(S, Not(S.ghost['left']), 'the signal is not touched after it was given away (%s)' % what, ex.cur_loc, 'safety')

    def on_access(self, ex, S, p, what):
        if p.local is None and p.cls == 'Sig':
            self.here(ex, S, what)

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        role = ex.contract.role
        if role == 'send':
            begin = And(old == self.E, new == self.P, Not(g['probe']))
            again = And(old == new, old != self.E, Not(g['probe']))
            fin = And(old == self.P, new == self.S_, g['probe'])
            ex.prove(S, Or(begin, again, fin), 'a step of a sender', ex.cur_loc, 'guarantee')
            if ex.quick(S, fin):
                ex.prove(S, g['lock'], 'the signal is set under the lock', ex.cur_loc, 'guarantee')
                ex.prove(S, BoolVal(op != 'store'), 'sends merged into this one stay visible to the receiver', ex.cur_loc, 'order')
                g['probe'], g['sets'] = BoolVal(False), BoolVal(True)
            else:
                self.order(ex, S, order, 'release', 'publishing what was done before the send')
                g['lin'] = g['lin'] + 1
                g['probe'] = If(old == self.E, BoolVal(True), BoolVal(False))
                g['left'] = Or(g['left'], old != self.E)
        else:
            ex.prove(S, And(old == self.S_, new == self.E), 'a step of a receiver', ex.cur_loc, 'guarantee')
            self.order(ex, S, order, 'acquire', 'seeing what was done before the send')
            g['recv'] = g['recv'] + 1

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def h_destroy(self, ex, ctx, S, v, ins):
        ex.prove(S, And(S.ghost['locked'] >= 1, Not(S.ghost['lock'])), 'destroyed after the last sender left its critical section', ex.cur_loc, 'safety')

    def h_lock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, 'lock')
        ex.prove(S, Not(g['lock']), 'not locked twice', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        g['lock'] = BoolVal(True)
        g['locked'] = g['locked'] + 1

    def h_unlock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, 'unlock')
        ex.prove(S, g['lock'], 'unlocks what it locked', ex.cur_loc, 'call-pre')
        ex.prove(S, Implies(g['sets'], g['notified']), 'a waiter is woken up for the signal', ex.cur_loc, 'guarantee')
        g['lock'] = BoolVal(False)
        g['left'] = Or(g['left'], g['sets'])
        self.interfere(ex, S)

    def h_notify(self, ex, ctx, S, v, ins):
        self.here(ex, S, 'notify')
        ex.prove(S, S.ghost['lock'], 'notified under the lock', ex.cur_loc, 'call-pre')
        S.ghost['notified'] = BoolVal(True)

    def wait(self, ex, S):
        g = S.ghost
        self.here(ex, S, 'wait')
        ex.prove(S, g['lock'], 'waits with the lock held', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        ex.prove(S, self.st(S) != self.S_, 'does not wait while a signal is there', ex.cur_loc, 'guarantee')
        g['lock'] = BoolVal(False)
        self.interfere(ex, S)
        g['lock'] = BoolVal(True)
        g['waited'] = g['waited'] + 1

    def h_wait(self, ex, ctx, S, v, ins):
        self.wait(ex, S)

    def h_twait(self, ex, ctx, S, v, ins):
        a = ex.topE.a
        if 't0' in a:
            ex.prove(S, And(v[2] == a['t0'], v[3] == a['t1']), 'waits for the given limit', ex.cur_loc, 'call-pre')
        self.wait(ex, S)
        return fresh('woken', B)


class SC(RCon):
    role = 'recv'
    params = [('this', 'Sig')]
    loops = [Loop({}, lambda E: E.ex.contract.linv(E))]

    def linv(self, E):
        g = E.S.ghost
        return E.ex.spec.inv(E.S) + [('not received yet', And(g['lock'], g['recv'] == 0, g['lin'] == 0, Not(g['left']), Not(g['sets']), Not(g['probe'])))]

    def pre(self, E):
        g = E.S.ghost
        return [('this', E.b('this') != 0), ('ghosts', And(Not(g['probe']), Not(g['lock']), Not(g['sets']), Not(g['notified']), Not(g['left']),
                                                         g['lin'] == 0, g['recv'] == 0, g['waited'] == 0, g['locked'] == 0))] + E.ex.spec.inv(E.S)

    def post(self, E):
        g = E.S.ghost
        return [('no lock kept', Not(g['lock'])), ('no probe left', Not(g['probe']))] + self.more(E, g)


class Ctor(SC):
    name = Q + r'Signal\(\)'
    label = 'Signal()'

    def pre(self, E):
        return [('this', E.b('this') != 0), ('ghosts', Not(E.S.ghost['left']))]

    def post(self, E):
        return [('empty', E.ex.spec.st(E.S) == E.ex.spec.E)]


class Dtor(SC):
    name = Q + r'~Signal\(\)'
    label = '~Signal'

    def more(self, E, g):
        return [('no sender is inside', g['locked'] >= 1)]


class Send(SC):
    name = Q + r'Send\(\)'
    label = 'Send'
    role = 'send'
    loops = [Loop({'oldState': 'i32'}, lambda E: E.ex.contract.linv(E))]

    def linv(self, E):
        g = E.S.ghost
        o = E.r['oldState']
        sp = E.ex.spec
        return sp.inv(E.S) + [('nothing done yet', And(g['lin'] == 0, g['recv'] == 0, g['locked'] == 0, Not(g['lock']), Not(g['left']), Not(g['sets']), Not(g['probe']), Not(g['notified']))),
                              ('expected', Or(o == sp.E, o == sp.P, o == sp.S_))]

    def more(self, E, g):
        return [('the send takes effect exactly once', g['lin'] == 1), ('nothing received', g['recv'] == 0)]


class Receive(SC):
    name = Q + r'Receive\(\)'
    label = 'Receive'

    def more(self, E, g):
        return [('success means exactly one signal was taken', g['recv'] == If(E.ret, 1, 0)), ('does not block', And(g['locked'] == 0, g['waited'] == 0))]


class Blocking(SC):
    name = Q + r'ReceiveBlocking\(\)'
    label = 'ReceiveBlocking'

    def more(self, E, g):
        return [('exactly one signal was taken', g['recv'] == 1)]


class Timed(SC):
    name = Q + r'ReceiveTimed\(mg::box::TimeLimit\)'
    label = 'ReceiveTimed'
    params = [('this', 'Sig'), ('t0', None), ('t1', None)]

    def more(self, E, g):
        return [('success means exactly one signal was taken', g['recv'] == If(E.ret, 1, 0)), ('gives up only after waiting', Implies(Not(E.ret), g['waited'] >= 1))]


class SigFns(SigSpec):
    contracts = [Dtor(), Send(), Receive(), Blocking(), Timed()]


class SigCtor(SigSpec):
    def on_attach(self):
        SigSpec.on_attach(self)
        self.shared = ()
    contracts = [Ctor()]
    assumptions = ('a signal is constructed before anybody uses it',)


SPEC = [SigFns, SigCtor]
