"""Tasks and the task scheduler.

Ghost state: tok[t] - where the right to run task t is.  There is always exactly one such
place for each task, it only moves by the steps below, and it is what "executed exactly
once per post" means:
  U user code (or another thread executing it)   F  the front queue (or a waker about to push it)
  P parked: waiting for its deadline or a waker   CH popped from the front queue
  PEND pending list   HAND held by the scheduling thread   RL chosen to run   RQ ready queue
  RUN this thread executes / owns it   OWE this thread woke it and owes a push
P <=> the status is WAITING.  The scheduling thread holds the scheduler mutex.
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, ForAll, Select, Store, BoolVal
from ..spec import *
from ..rg import RG, RCon, cursor
from . import io as iospec

S_ = r'mg::sch::'
T_ = S_ + r'Task::'
SC = S_ + r'TaskScheduler::'
HEAP = r'mg::box::BinaryHeap<mg::sch::Task\*, .*>::'
FL = r'mg::box::ForwardList<mg::sch::Task, .*>::'
MP = r'mg::box::MultiProducerQueueIntrusive<mg::sch::Task, .*>::'
MC = r'mg::box::MultiConsumerQueue<mg::sch::Task>::'
U, F, P, PEND, HAND, RL, RQ, CH, OTHER, RUN, OWE = range(11)
HELD = (PEND, HAND, RL, CH)
MINE = HELD + (RUN, OWE)
INF = (1 << 64) - 1
OPS = ('OpY', 'OpR', 'OpD', 'OpE', 'OpS')
NOIDX = (1 << 32) - 1
x = Int('x_t')
SCHED = Int('p_sched')


def isin(t, vals):
    return Or(*[t == v for v in vals])


class TaskRG(RG):
    tu = 'sched.cpp'
    ghost_sorts = dict(tok=ARR, hn=I, top=I, pn=I, chn=I, chh=I, cht=I, rn=I, T=ARR, tpos=ARR, Tn=I, now=I, ts0=I, locked=B, unfl=B, rcount=I,
                       popped=I, hpops=I, proc=I, rsig=I, fsig=I, pushes=I, pres=B, unlocked=I, ran=I, wrote=I, over=I, seen=I, slept=I, mine=I, dl=I, opgone=B, cleared=B, deleted=I, att=B, empty=B, moved=B)
    env_ghosts = ('tok',)
    handlers = [(HEAP + r'Count\(\) const', 'h_hcount'), (HEAP + r'GetTop\(\)', 'h_htop'), (HEAP + r'RemoveTop\(\)', 'h_hremtop'),
                (HEAP + r'Push\(.*', 'h_hpush'), (HEAP + r'Remove\(.*', 'h_hremove'),
                (FL + r'ForwardList\(\)', 'h_nop'), (FL + r'Append\(mg::sch::Task\*\)', 'h_append'), (FL + r'Append\(mg::sch::Task\*, mg::sch::Task\*\)', 'h_appendrange'),
                (FL + r'IsEmpty\(\) const', 'h_lempty'), (FL + r'PopFirst\(\)', 'h_popfirst'), (FL + r'PopAll\(\)', 'h_lpopall'),
                (MP + r'PopAll\(mg::sch::Task\*&\)', 'h_mpopall'), (MP + r'Push\(.*', 'h_mpush'),
                (MC + r'PushPending\(.*', 'h_pushpending'), (MC + r'FlushPending\(\)', 'h_flush'), (MC + r'Count\(\)', 'h_rcount'),
                (r'mg::box::InterruptibleMutex::TryLock\(\)', 'h_trylock'), (r'mg::box::InterruptibleMutex::Unlock\(\)', 'h_unlock'),
                (r'mg::box::Signal::Send\(\)', 'h_send'), (r'mg::box::Signal::ReceiveBlocking\(\)', 'h_recv'), (r'mg::box::Signal::ReceiveTimed\(.*', 'h_recvtimed'),
                (r'mg::box::GetMilliseconds\(\)', 'h_now'), (r'std::function<void \(mg::sch::Task\*\)>::operator\(\)\(mg::sch::Task\*\) const', 'h_callback'),
                (HEAP + '.*', 'h_other'), (FL + '.*', 'h_other'), (MP + '.*', 'h_other'), (MC + '.*', 'h_other'), (r'std::function<.*', 'h_other')]
    assumptions = RG.assumptions + (
        'BinaryHeap (B03), ForwardList (B01), MultiProducerQueue (B06), Signal (B08), InterruptibleMutex (B10) and the multi-consumer queue are what their properties say',
        'a task is used by one scheduler at a time; user code touches it (besides waking and signaling) only while it is not posted, and keeps it alive while others may wake it',
        'the clock does not go back; the batch sizes are positive')

    def on_attach(self):
        k = self.k
        self.off = {n: k(n) for n in ('t_callback', 's_front', 's_sigfront', 's_pending', 's_waiting', 's_sigready', 's_ready', 's_mutex')}
        self.kn, self.ki, self.ks = ('Task', k('t_next'), 'ptr'), ('Task', k('t_index'), 'i32'), ('Task', k('t_status'), 'i32')
        self.kc, self.kd, self.ke = ('Task', k('t_sched'), 'ptr'), ('Task', k('t_deadline'), 'i64'), ('Task', k('t_expired'), 'i8')
        self.kb = ('Sched', k('s_schedbatch'), 'i32')
        self.shared = (self.ks,)
        self.env_cells = (self.kn, self.kd, self.ke, self.kc)
        self.PENDING, self.WAITING, self.READY, self.SIGNALED = k('st_pending'), k('st_waiting'), k('st_ready'), k('st_signaled')
        self.LP, self.LD = k('limit_point'), k('limit_duration')
        self.classes = {'Task': Cls({k('t_next'): To('Task'), k('t_sched'): To('Sched')}), 'Sched': Cls({}), 'Slot': Cls({0: To('Task')}), 'Out': Cls({0: To('Task')})}

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def alloca_class(self, fn, dst, ty):
        return None

    def inheap(self, S, t):
        return Select(S.get(self.ki), t) < (1 << 31)

    def woken(self, s):
        return Or(s == self.READY, s == self.SIGNALED)

    # ---- invariants ------------------------------------------------------------------
    def inv(self, S, E=None):
        st, tok, sc = S.get(self.ks), S.ghost['tok'], S.get(self.kc)
        s, t = Select(st, x), Select(tok, x)
        return [('places', ForAll([x], And(0 <= t, t <= 10, Implies(t != OTHER, And(0 <= s, s <= 3, (t == P) == (s == self.WAITING))),
                                           Implies(isin(t, (RQ, RL, OWE)), self.woken(s)),
                                           Implies(isin(t, (F, P, CH, PEND, HAND, RL, RQ, OWE)), And(x > 0, Select(sc, x) == SCHED))), patterns=[t, s]))]

    def rely(self, S0, S):
        g0, g = S0.ghost, S.ghost
        t0, t = Select(g0['tok'], x), Select(g['tok'], x)
        s0, s = Select(S0.get(self.ks), x), Select(S.get(self.ks), x)
        same = lambda ks: And(*[Select(S.get(k), x) == Select(S0.get(k), x) for k in ks])
        up = Or(s == s0, And(s0 == self.PENDING, s == self.READY), And(s0 != self.WAITING, s == self.SIGNALED))
        return [('steps of the others', ForAll([x], And(
            Implies(isin(t0, MINE), And(t == t0, up)), Implies(isin(t, MINE), t == t0),
            Implies(isin(t0, (PEND, HAND, RL, CH, RUN)), same((self.kn, self.kd, self.ke, self.kc))),
            Implies(t0 == OWE, same((self.kn, self.kd, self.kc))),
            Implies(And(x == g0['mine'], t0 != OTHER), t != OTHER),
            Implies(And(g0['locked'], t == P), t0 == P),
            Implies(And(g0['locked'], isin(t0, (F, P))), And(Or(t == t0, t == F), If(t0 == F, up, Or(s == s0, self.woken(s))), same((self.kd, self.ke, self.kc)))),
        ), patterns=[t, s] + [Select(S.get(k), x) for k in (self.kn, self.kd, self.ke, self.kc)]))]

    def jinv(self, S):
        """while this thread is the scheduling one"""
        g = S.ghost
        t, d = Select(g['tok'], x), Select(S.get(self.kd), x)
        s, ix = Select(S.get(self.ks), x), Select(S.get(self.ki), x)
        return [
            ('counters', And(g['hn'] >= 0, g['pn'] >= 0, g['rn'] >= 0, g['chn'] >= 0, Implies(g['hn'] > 0, And(g['top'] > 0, self.inheap(S, g['top']))))),
            ('the waiting queue keeps only tasks with a deadline which are parked or on their way to the scheduler',
             ForAll([x], And(Or(self.inheap(S, x), ix == NOIDX), Implies(self.inheap(S, x), And(
                 g['hn'] > 0, isin(t, (P, F, CH, PEND, HAND)), s != self.PENDING, d != INF, Select(S.get(self.kd), g['top']) <= d))), patterns=[ix])),
            ('a parked task with a deadline is in the waiting queue', ForAll([x], Implies(And(t == P, d != INF), self.inheap(S, x)), patterns=[t, ix])),
            ('pending tasks are counted', ForAll([x], And(Implies(t == PEND, g['pn'] > 0), Implies(t == CH, g['chn'] > 0), Implies(t == RL, g['rn'] > 0)), patterns=[t])),
        ]

    def released(self, S):
        g = S.ghost
        t = Select(g['tok'], x)
        return [('no task is forgotten', ForAll([x], And(t != HAND, t != RL, t != CH), patterns=[t]))]

    def rl(self, S):
        g = S.ghost
        t, d, e = Select(g['tok'], x), Select(S.get(self.kd), x), Select(S.get(self.ke), x)
        return [('tasks chosen to run are woken or expired', ForAll([x], Implies(t == RL, And(
            Not(self.inheap(S, x)), Implies(e != 0, d <= g['now']), Implies(e == 0, d > g['ts0']))), patterns=[t]))]

    # ---- plain accesses --------------------------------------------------------------
    def alive(self, ex, S, p):
        ex.prove(S, Select(S.ghost['tok'], p.base) != OTHER, 'a task is not touched after it may be deleted', ex.cur_loc, 'race')

    def on_access(self, ex, S, p, what):
        if p.cls in OPS and p.local is None:
            ex.prove(S, Not(S.ghost['opgone']), 'a coroutine frame is not touched after it may be resumed elsewhere or destroyed (%s)' % what, ex.cur_loc, 'race')
        if p.cls != 'Task' or p.local is not None or (p.off, ) == (self.ks[1],):
            return
        g = S.ghost
        t = Select(g['tok'], p.base)
        lk = [And(g['locked'], isin(t, (PEND, HAND, RL, CH)))]
        if p.off != self.kn[1]:
            lk.append(And(g['locked'], isin(t, (P, F))))
        if p.off in (self.kn[1], self.kc[1], self.kd[1]):
            lk.append(t == OWE)
        ex.prove(S, Or(t == RUN, *lk), 'a task is touched only by its owner (%s)' % what, ex.cur_loc, 'race')

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        self.alive(ex, pre, p)
        t = Select(g['tok'], p.base)
        st = p.base
        sched = And(g['locked'], t == HAND)
        d = Select(S.get(self.kd), p.base)
        role = ex.topE.contract_role if hasattr(ex.topE, 'contract_role') else getattr(ex.contract, 'role', None)
        if role == 'sched':
            park = And(t == HAND, old == self.PENDING, new == self.WAITING, d > g['ts0'], Select(S.get(self.ke), p.base) == 0)
            exp = And(t == P, old == self.WAITING, new == self.READY)
            rdy = And(t == HAND, old == self.PENDING, new == self.READY)
            ex.prove(S, Or(park, exp, rdy), 'the scheduler parks, expires or readies a task', ex.cur_loc, 'guarantee')
            ex.prove(S, Implies(new == self.READY, d <= g['now']), 'the scheduler itself never makes a task ready before its deadline', ex.cur_loc, 'guarantee')
            if ex.quick(S, park):
                self.order(ex, S, order, 'release', 'parking a task: wakers see its members')
                g['tok'] = Store(g['tok'], st, IntVal(P))
            elif ex.quick(S, exp):
                g['tok'] = Store(g['tok'], st, IntVal(HAND))
        elif role == 'waker':
            wake = And(new == self.READY, Or(old == self.PENDING, old == self.WAITING))
            sig = new == self.SIGNALED
            ex.prove(S, Or(wake, sig), 'a wakeup never hides a signal and changes nothing else', ex.cur_loc, 'guarantee')
            g['wrote'] = g['wrote'] + 1
            g['over'] = old
            if order not in ('release', 'acq_rel', 'seq_cst'):
                ex.prove(S, Not(sig), 'a signal publishes what its sender did (release)', ex.cur_loc, 'order')
            if order not in ('acquire', 'acq_rel', 'seq_cst'):
                ex.prove(S, old != self.WAITING, 'the waker of a parked task sees its members (acquire)', ex.cur_loc, 'order')
            tk = fresh('tk', I)
            ex.assume(S, tk == If(old == self.WAITING, OWE, t))
            g['tok'] = Store(g['tok'], st, tk)
            g['mine'] = If(old == self.WAITING, st, 0)
        elif role == 'owner':
            ex.prove(S, And(t == RUN, old == self.SIGNALED, new == self.PENDING), 'the owner takes the signal', ex.cur_loc, 'guarantee')
            self.order(ex, S, order, 'acquire', 'the receiver of a signal sees what its sender did')
            g['over'] = old
            g['wrote'] = g['wrote'] + 1
        elif role == 'exec':
            ex.prove(S, And(t == RUN, g['ran'] == 0, old == self.READY, new == self.PENDING), 'the executor takes the wakeup which led to the execution, before it', ex.cur_loc, 'guarantee')
            g['wrote'] = g['wrote'] + 1
        elif role == 'create':
            ex.prove(S, And(t == RUN, new == self.PENDING), 'a new task is pending', ex.cur_loc, 'guarantee')
        else:
            ex.prove(S, BoolVal(False), 'the status is not changed here', ex.cur_loc, 'guarantee')

    def on_read(self, ex, S, p, val, order):
        self.alive(ex, S, p)
        S.ghost['seen'] = val
        if getattr(ex.contract, 'acquire_read', False):
            self.order(ex, S, order, 'acquire', 'who sees a signal sees what its sender did')

    def on_cas_fail(self, ex, S, p, val, order):
        self.alive(ex, S, p)
        S.ghost['seen'] = val

    # ---- primitives ------------------------------------------------------------------
    def here(self, ex, S, p, off, what):
        ex.prove(S, And(p.base == SCHED, BoolVal(p.local is None and p.off == self.off[off])), 'is the scheduler\'s own: ' + what, ex.cur_loc, 'call-pre')

    def under(self, ex, S, what):
        ex.prove(S, S.ghost['locked'], '%s under the scheduler mutex' % what, ex.cur_loc, 'race')

    def retok(self, ex, S, fn):
        """tok'[x] = fn(x, tok[x])"""
        old = S.ghost['tok']
        new = fresh('tok', ARR)
        ex.assume(S, ForAll([x], Select(new, x) == fn(x, Select(old, x)), patterns=[Select(new, x)]))
        ex.assume(S, ForAll([x], Select(new, x) == fn(x, Select(old, x)), patterns=[Select(old, x)]))
        S.ghost['tok'] = new

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def h_other(self, ex, ctx, S, v, ins):
        raise Unsupported('no contract for this call here: ' + ins.text[:200] if hasattr(ins, 'text') else 'call')

    def h_trylock(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_mutex', 'mutex')
        self.interfere(ex, S)

        def apply(c2, S2, ok):
            c2.fr[ins.dst] = BoolVal(ok)
            if ok:
                g = S2.ghost
                g['locked'] = BoolVal(True)
                for n in ('hn', 'top', 'pn'):
                    g[n] = fresh(n, I)
                for k in (self.ki,):
                    S2.havoc(k)
                for n in ('chn', 'rn', 'popped', 'hpops', 'proc', 'ts0', 'now'):
                    g[n] = IntVal(0)
                g['unfl'] = BoolVal(False)
                g['rcount'] = IntVal(-1)

                def later(ex2, S3):
                    for lab, f in self.jinv(S3) + self.released(S3):
                        ex2.assume(S3, f)
                S2.pending.append(later)
        raise Split([(BoolVal(True), True), (BoolVal(True), False)], apply)

    def h_unlock(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_mutex', 'mutex')
        g = S.ghost
        self.under(ex, S, 'unlock')
        for lab, f in self.jinv(S) + self.released(S):
            ex.prove(S, f, 'scheduling is over: ' + lab, ex.cur_loc, 'invariant')
        ex.prove(S, Not(g['unfl']), 'all the ready tasks are visible to the workers', ex.cur_loc, 'guarantee')
        ex.prove(S, g['popped'] >= 1, 'the front queue was emptied', ex.cur_loc, 'guarantee')
        ex.prove(S, Or(g['pn'] == 0, g['proc'] >= 1), 'pending tasks make progress', ex.cur_loc, 'guarantee')
        ex.prove(S, Or(g['hpops'] >= 1, ForAll([x], Implies(self.inheap(S, x), Select(S.get(self.kd), x) > g['ts0']))), 'expired tasks make progress', ex.cur_loc, 'guarantee')
        g['locked'] = BoolVal(False)
        g['unlocked'] = g['unlocked'] + 1
        g['rsig'] = IntVal(0)
        self.interfere(ex, S)

    def h_send(self, ex, ctx, S, v, ins):
        g = S.ghost
        p = v[0]
        ex.prove(S, And(p.base == SCHED, BoolVal(p.off in (self.off['s_sigready'], self.off['s_sigfront']))), 'a signal of the scheduler', ex.cur_loc, 'call-pre')
        n = 'rsig' if p.off == self.off['s_sigready'] else 'fsig'
        g[n] = g[n] + 1

    def idle(self, ex, S):
        g = S.ghost
        self.under(ex, S, 'the front signal is received')
        for lab, f in self.jinv(S) + self.released(S):
            ex.prove(S, f, 'going to sleep: ' + lab, ex.cur_loc, 'invariant')
        ex.prove(S, And(Not(g['unfl']), g['rcount'] == 0, g['pn'] == 0, g['popped'] >= 1), 'sleeps only when nothing is ready or pending', ex.cur_loc, 'guarantee')
        g['slept'] = g['slept'] + 1

    def h_recv(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_sigfront', 'front signal')
        self.idle(ex, S)
        ex.prove(S, S.ghost['hn'] == 0, 'sleeps without a limit only when no task waits for a deadline', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)

    def h_recvtimed(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_sigfront', 'front signal')
        self.idle(ex, S)
        g = S.ghost
        d = Select(S.get(self.kd), g['top'])
        ex.prove(S, And(g['hn'] > 0, Or(And(v[1] == self.LD, v[2] + g['now'] <= d), And(v[1] == self.LP, v[2] <= d))), 'sleeps not longer than until the nearest deadline', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        return fresh('rt', B)

    def h_now(self, ex, ctx, S, v, ins):
        g = S.ghost
        n = fresh('now', I)
        ex.assume(S, And(n >= g['now'], n > 0, n < (1 << 63)))
        g['ts0'] = If(g['now'] == 0, n, g['ts0'])
        g['now'] = n
        return n

    # waiting queue
    def heap(self, ex, S, p, what):
        self.here(ex, S, p, 's_waiting', 'waiting queue')
        self.under(ex, S, 'the waiting queue is used')

    def newtop(self, ex, S):
        g = S.ghost
        g['top'] = fresh('top', I)
        t = g['top']
        ex.assume(S, And(g['hn'] >= 0, Implies(g['hn'] > 0, And(t > 0, self.inheap(S, t)))))
        ix = Select(S.get(self.ki), x)
        ex.assume(S, ForAll([x], Implies(self.inheap(S, x), And(g['hn'] > 0, Select(S.get(self.kd), t) <= Select(S.get(self.kd), x))), patterns=[ix]))

    def reindex(self, ex, S, who, val):
        """positions of the members may change, the membership only of `who`"""
        old = S.get(self.ki)
        S.havoc(self.ki)
        new = S.get(self.ki)
        ex.assume(S, ForAll([x], And(Implies(x != who, And((Select(new, x) < (1 << 31)) == (Select(old, x) < (1 << 31)), Implies(Select(old, x) >= (1 << 31), Select(new, x) == Select(old, x)))),
                                     0 <= Select(new, x), Select(new, x) < (1 << 32)), patterns=[Select(new, x)]))
        ex.assume(S, Select(new, who) == NOIDX if val is None else Select(new, who) < (1 << 31))
        self.newtop(ex, S)

    def h_hcount(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'Count')
        ex.assume(S, S.ghost['hn'] < (1 << 32))
        return S.ghost['hn']

    def h_htop(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'GetTop')
        g = S.ghost
        ex.prove(S, g['hn'] > 0, 'the waiting queue is not empty', ex.cur_loc, 'call-pre')
        b = fresh('slot', I)
        ex.assume(S, And(b > 0, S.ld('Slot', 0, 'ptr', b) == g['top']))
        return Ptr(b, 0, 'Slot')

    def h_hremtop(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'RemoveTop')
        g = S.ghost
        ex.prove(S, g['hn'] > 0, 'the waiting queue is not empty', ex.cur_loc, 'call-pre')
        d = Select(S.get(self.kd), g['top'])
        ex.prove(S, d <= g['now'], 'only an expired task leaves the waiting queue by itself', ex.cur_loc, 'guarantee')
        g['hn'] = g['hn'] - 1
        g['hpops'] = g['hpops'] + 1
        self.reindex(ex, S, g['top'], None)
        return BoolVal(True) if ins.dst else None

    def h_hpush(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'Push')
        g = S.ghost
        t = ex.raw_load(S, v[1], 'ptr').base
        ex.prove(S, And(Not(self.inheap(S, t)), t > 0), 'the task is not in the waiting queue yet', ex.cur_loc, 'call-pre')
        ex.prove(S, isin(Select(g['tok'], t), (P, F)), 'a task goes to the waiting queue after it is parked', ex.cur_loc, 'guarantee')
        g['hn'] = g['hn'] + 1
        self.reindex(ex, S, t, 1)

    def h_hremove(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'Remove')
        g = S.ghost
        t = ex.raw_load(S, v[1], 'ptr').base
        ex.prove(S, And(self.inheap(S, t), g['hn'] > 0), 'the task is in the waiting queue', ex.cur_loc, 'call-pre')
        ex.prove(S, Select(g['tok'], t) == HAND, 'a waiting task is removed when it is in the scheduler\'s hands', ex.cur_loc, 'guarantee')
        g['hn'] = g['hn'] - 1
        self.reindex(ex, S, t, None)
        return BoolVal(True) if ins.dst else None

    # lists: the scheduler's pending one, and local ones
    def pend(self, ex, S, p):
        self.here(ex, S, p, 's_pending', 'pending list')
        self.under(ex, S, 'the pending list is used')

    def h_lempty(self, ex, ctx, S, v, ins):
        if v[0].local is not None:
            return S.ghost['rn'] == 0
        self.pend(ex, S, v[0])
        return S.ghost['pn'] == 0

    def h_popfirst(self, ex, ctx, S, v, ins):
        g = S.ghost
        if v[0].local is not None:
            raise Unsupported('PopFirst of a local list')
        self.pend(ex, S, v[0])
        ex.prove(S, g['pn'] > 0, 'the pending list is not empty', ex.cur_loc, 'call-pre')
        t = fresh('pend', I)
        ex.assume(S, And(t > 0, Select(g['tok'], t) == PEND))
        g['tok'] = Store(g['tok'], t, IntVal(HAND))
        g['pn'] = g['pn'] - 1
        g['proc'] = g['proc'] + 1
        # the count is the number of tasks which are there
        ex.assume(S, ForAll([x], Implies(Select(g['tok'], x) == PEND, g['pn'] > 0), patterns=[Select(g['tok'], x)]))
        return Ptr(t, 0, 'Task')

    def h_append(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        if v[0].local is None:
            raise Unsupported('Append of one task to the pending list')
        ex.prove(S, Select(g['tok'], t) == HAND, 'a task chosen to run is in the scheduler\'s hands', ex.cur_loc, 'guarantee')
        ex.prove(S, self.woken(Select(S.get(self.ks), t)), 'a task chosen to run is marked so', ex.cur_loc, 'guarantee')
        ex.prove(S, Not(self.inheap(S, t)), 'a task chosen to run is not in the waiting queue', ex.cur_loc, 'guarantee')
        e, d = Select(S.get(self.ke), t), Select(S.get(self.kd), t)
        ex.prove(S, Implies(e != 0, d <= g['now']), 'IsExpired is not reported before the deadline', ex.cur_loc, 'guarantee')
        ex.prove(S, Implies(e == 0, d > g['ts0']), 'IsExpired is reported after the deadline', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(RL))
        g['rn'] = g['rn'] + 1
        S.havoc_at(self.kn, t) if hasattr(S, 'havoc_at') else S.set(self.kn, Store(S.get(self.kn), t, fresh('lnk', I)))

    def h_appendrange(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.pend(ex, S, v[0])
        ex.prove(S, And(v[1].base == g['chh'], v[2].base == g['cht'], g['popped'] > 0), 'exactly the popped tasks become pending', ex.cur_loc, 'guarantee')
        self.retok(ex, S, lambda y, t: If(t == CH, IntVal(PEND), t))
        g['pn'] = g['pn'] + g['chn']
        g['chn'] = IntVal(0)

    def h_lpopall(self, ex, ctx, S, v, ins):
        g = S.ghost
        if v[0].local is None:
            raise Unsupported('PopAll of the pending list')
        T, tp, n = fresh('T', ARR), fresh('tpos', ARR), g['rn']
        S.havoc(self.kn) if False else None
        nx0 = S.get(self.kn)
        S.havoc(self.kn)
        nx, tok = S.get(self.kn), g['tok']
        k = Int('k_t')
        e = Select(T, k)
        ex.assume(S, ForAll([k], Implies(And(0 <= k, k < n), And(e > 0, Select(tok, e) == RL, Select(tp, e) == k, Select(nx, e) == If(k + 1 < n, Select(T, k + 1), 0))), patterns=[e]))
        ex.assume(S, ForAll([x], Implies(Select(tok, x) == RL, And(0 <= Select(tp, x), Select(tp, x) < n, Select(T, Select(tp, x)) == x)), patterns=[Select(tok, x)]))
        ex.assume(S, ForAll([x], Implies(Select(tok, x) != RL, Select(nx, x) == Select(nx0, x)), patterns=[Select(nx, x)]))
        g['T'], g['tpos'], g['Tn'] = T, tp, n
        g['rn'] = IntVal(0) + n
        r = If(n == 0, 0, Select(T, 0))
        c = fresh('chain', I)
        ex.assume(S, c == r)
        g['chh'] = c
        self.chain0 = c
        return Ptr(c, 0, 'Task')

    # queues
    def h_mpopall(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], 's_front', 'front queue')
        self.under(ex, S, 'the front queue is popped')
        ex.prove(S, g['chn'] == 0, 'one chain at a time', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        got = fresh('got', ARR)
        n, h, t = fresh('chn', I), fresh('chh', I), fresh('cht', I)
        ex.assume(S, And(n >= 0, (n == 0) == (h == 0), (n == 0) == (t == 0), h >= 0, t >= 0))
        old = g['tok']
        new = fresh('tok', ARR)
        a, b = Select(old, x), Select(new, x)
        f = And(Or(b == a, And(a == F, b == CH, n > 0)))
        ex.assume(S, ForAll([x], f, patterns=[b]))
        ex.assume(S, ForAll([x], f, patterns=[a]))
        g['tok'] = new
        g['chn'], g['chh'], g['cht'] = n, h, t
        g['popped'] = g['popped'] + 1
        ex.raw_store(S, v[1], 'ptr', Ptr(t, 0, 'Task'))
        return Ptr(h, 0, 'Task')

    def h_mpush(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        self.here(ex, S, v[0], 's_front', 'front queue')
        ex.prove(S, isin(Select(g['tok'], t), (RUN, OWE)), 'a task is pushed by the one who has the right to', ex.cur_loc, 'guarantee')
        ex.prove(S, Select(S.get(self.kc), t) == SCHED, 'a task in the scheduler knows it', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(F))
        g['pushes'] = g['pushes'] + 1
        g['pres'] = fresh('pres', B)
        g['dl'] = Select(S.get(self.kd), t)
        g['mine'] = IntVal(0)
        g['opgone'] = BoolVal(True)
        r = g['pres']
        self.interfere(ex, S)
        return r

    def h_pushpending(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        self.here(ex, S, v[0], 's_ready', 'ready queue')
        self.under(ex, S, 'tasks become ready')
        ex.prove(S, Select(g['tok'], t) == RL, 'a task becomes ready once, after it is chosen to run', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(RQ))
        g['unfl'] = BoolVal(True)
        g['rcount'] = IntVal(-1)
        return fresh('pp', B) if ins.dst else None

    def h_flush(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_ready', 'ready queue')
        self.under(ex, S, 'ready tasks are flushed')
        S.ghost['unfl'] = BoolVal(False)
        return fresh('fp', B) if ins.dst else None

    def h_rcount(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_ready', 'ready queue')
        n = fresh('rcount', I)
        ex.assume(S, And(n >= 0, n < (1 << 32)))
        S.ghost['rcount'] = n
        return n

    def h_callback(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        self.interfere(ex, S)
        ex.prove(S, And(v[0].base == t, BoolVal(v[0].off == self.off['t_callback'] and v[1].off == 0)), 'the task\'s own callback is called with the task', ex.cur_loc, 'guarantee')
        ex.prove(S, And(Select(g['tok'], t) == RUN, g['ran'] == 0), 'one execution, by the thread which owns the task', ex.cur_loc, 'guarantee')
        ex.prove(S, And(Select(S.get(self.kc), t) == 0, Select(S.get(self.kd), t) == 0), 'the callback sees a task out of the scheduler and with no deadline', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(U))
        g['mine'] = IntVal(0)
        g['ran'] = g['ran'] + 1
        self.interfere(ex, S)


class C(RCon):
    role = None
    zero = ('rsig', 'fsig', 'pushes', 'unlocked', 'ran', 'wrote', 'slept')
    where = None

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        r = [('counters', And(*[g[n] == 0 for n in self.zero])), ('seen', g['seen'] == -1), ('lock', Not(g['locked'])), ('scheduler', SCHED > 0)] + sp.inv(E.S)
        if self.where is not None:
            r.append(('the task', And(self.t(E) > 0, isin(Select(g['tok'], self.t(E)), self.where))))
        return r + self.more(E)

    def t(self, E):
        return E.b('this')

    def more(self, E):
        return []

    def same(self, E, keep):
        t = self.t(E)
        return [('other members unchanged', And(*[Select(E.S.get(k), t) == Select(E.S0.get(k), t) for k in keep]))]

    def notouch(self, E):
        t = self.t(E)
        return Select(E.S.ghost['tok'], t) == Select(E.S0.ghost['tok'], t)


def lock_inv(E):
    sp = E.ex.spec
    g = E.S.ghost
    return sp.inv(E.S) + sp.jinv(E.S) + sp.rl(E.S) + [('locked', And(g['locked'], g['unlocked'] == 0, g['fsig'] == 0, g['slept'] == 0)),
        ('time', And(g['now'] > 0, g['ts0'] > 0, g['ts0'] <= g['now'], g['now'] < (1 << 63)))]


def untouched_phis(E):
    return And(*([E.phis[d] == v for d, v in E.phi0.items() if not isinstance(v, Ptr) and not z3.is_bool(v)] or [BoolVal(True)]))


def no_tok(E, vals):
    t = Select(E.S.ghost['tok'], x)
    return ForAll([x], And(*[t != v for v in vals]), patterns=[t])


def wait_inv(E):
    g = E.S.ghost
    return lock_inv(E) + [('places', no_tok(E, (HAND, CH))), ('counts', And(g['chn'] == 0, g['popped'] == 0, g['proc'] == 0, g['hpops'] >= 0, Not(g['unfl']))),
                          ('no progress yet means all the tries are ahead', Implies(g['hpops'] == 0, untouched_phis(E)))]


def pend_inv(E):
    g = E.S.ghost
    sp = E.ex.spec
    return lock_inv(E) + [('no progress yet means all the tries are ahead', Implies(g['proc'] == 0, untouched_phis(E))),
                          ('places', no_tok(E, (HAND, CH))), ('counts', And(g['chn'] == 0, g['popped'] >= 1, Not(g['unfl']), g['proc'] >= 0, g['hpops'] == E.L.ghost['hpops'])),
                          ('waiting tasks did not expire', Or(g['hpops'] >= 1, ForAll([x], Implies(sp.inheap(E.S, x), Select(E.S.get(sp.kd), x) > g['ts0']), patterns=[Select(E.S.get(sp.ki), x)])))]


def ready_inv(E):
    sp = E.ex.spec
    g = E.S.ghost
    cur = cursor(E, g['chh']).base
    T, tp, n = g['T'], g['tpos'], g['Tn']
    k = If(cur == 0, n, Select(tp, cur))
    nx = E.S.get(sp.kn)
    t = Select(g['tok'], x)
    j = Int('j_t')
    e = Select(T, j)
    return sp.inv(E.S) + sp.jinv(E.S) + [
        ('cursor', And(0 <= k, k <= n, Implies(cur != 0, And(k < n, cur > 0, Select(T, k) == cur)))),
        ('rest', ForAll([j], Implies(And(k <= j, j < n), And(e > 0, Select(g['tok'], e) == RL, Select(tp, e) == j, Select(nx, e) == If(j + 1 < n, Select(T, j + 1), 0))), patterns=[e])),
        ('handed over', ForAll([x], Implies(t == RL, And(k <= Select(tp, x), Select(tp, x) < n, Select(T, Select(tp, x)) == x)), patterns=[t])),
        ('places', no_tok(E, (HAND, CH))),
        ('state', And(g['locked'], g['unlocked'] == 0, g['chn'] == 0, g['popped'] >= 1)),
    ]


class PrivSchedule(C):
    name = SC + r'PrivSchedule\(\)'
    label = 'TaskScheduler::PrivSchedule'
    role = 'sched'
    loops_in_order = True
    params = [('sched', 'Sched')]
    loops = [Loop({}, wait_inv, lambda E: E.S.ghost['hn']), Loop({}, pend_inv, lambda E: E.S.ghost['pn']),
             Loop({}, ready_inv, lambda E: If(cursor(E, E.S.ghost['chh']).base == 0, 0, E.S.ghost['Tn'] - Select(E.S.ghost['tpos'], cursor(E, E.S.ghost['chh']).base)))]

    def more(self, E):
        return [('batch', E.S.ld(*E.ex.spec.kb, SCHED) > 0)]

    def post(self, E):
        g = E.S.ghost
        return [('a failed attempt does nothing', Implies(Not(E.ret), And(Not(g['locked']), g['unlocked'] == 0, g['slept'] == 0))),
                ('the scheduling role is left', Implies(E.ret, And(Not(g['locked']), g['unlocked'] == 1))),
                ('and another worker is told so', Implies(E.ret, g['rsig'] >= 1))]


class SchedSpec(TaskRG):
    contracts = [PrivSchedule()]


# ---- wakers ---------------------------------------------------------------------------
def sent(E):
    g = E.S.ghost
    return [('a task is pushed exactly when it was parked', g['pushes'] == If(And(g['wrote'] == 1, g['over'] == E.ex.spec.WAITING), 1, 0)),
            ('and the scheduler is told when its queue was empty', g['fsig'] == If(And(g['pushes'] == 1, g['pres']), 1, 0))]


class Wake(C):
    role = 'waker'
    params = [('this', 'Task')]
    where = (U, F, P, RQ, RUN)

    def more(self, E):
        g = E.S.ghost
        t = E.b('this')
        return [('kept alive', g['mine'] == t)]

    def eff(self, E):
        g = E.S.ghost
        return [('at most one change', And(g['wrote'] <= 1, g['wrote'] >= 0))] + sent(E)


class PostWakeup(Wake):
    name = T_ + r'PostWakeup\(\)'
    label = 'Task::PostWakeup'
    loops = [Loop({}, lambda E: E.ex.spec.inv(E.S) + [
        ('nothing done yet', And(*[E.S.ghost[n] == 0 for n in C.zero])), ('the task is there', isin(Select(E.S.ghost['tok'], E.b('this')), (U, F, P, RQ, RUN))), ('kept alive', E.S.ghost['mine'] == E.S0.ghost['mine']),
        ('last seen', Or(*[v == E.S.ghost['seen'] for v in statuses(E)] + [BoolVal(False)]))])]

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return self.eff(E) + [('the task will be executed: woken, or was to be anyway', Or(g['wrote'] == 1, And(g['wrote'] == 0, sp.woken(g['seen']))))]


def statuses(E):
    return [v for v in E.phis.values() if not isinstance(v, Ptr) and z3.is_int(v)] + \
           [E.S.locals[k][1] for k in E.S.locals if not isinstance(E.S.locals[k][1], Ptr) and z3.is_expr(E.S.locals[k][1]) and z3.is_int(E.S.locals[k][1])]


class PostSignal(Wake):
    name = T_ + r'PostSignal\(\)'
    label = 'Task::PostSignal'

    def post(self, E):
        return self.eff(E) + [('the signal is sent', E.S.ghost['wrote'] == 1)]


# ---- the owner's operations ------------------------------------------------------------
class Own(C):
    role = 'owner'
    params = [('this', 'Task')]
    where = (RUN,)

    def more(self, E):
        sp = E.ex.spec
        t = self.t(E)
        return [('not in a scheduler', Select(E.S.get(sp.kc), t) == 0), ('deadline', And(0 <= Select(E.S.get(sp.kd), t), Select(E.S.get(sp.kd), t) <= INF))]

    def keep(self, E):
        sp = E.ex.spec
        return [('the task stays with its owner', Select(E.S.ghost['tok'], self.t(E)) == RUN)] + self.same(E, (sp.kn, sp.ki, sp.kc, sp.ke))

    def dl(self, E, S):
        return Select(S.get(E.ex.spec.kd), self.t(E))


class ReceiveSignal(Own):
    name = T_ + r'ReceiveSignal\(\)'
    label = 'Task::ReceiveSignal'

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return self.keep(E) + self.same(E, (sp.kd,)) + [('received iff it was signaled, once', If(E.ret, g['wrote'] == 1, And(g['wrote'] == 0, g['seen'] != sp.SIGNALED, g['seen'] >= 0)))]


class IsSignaled(Own):
    name = T_ + r'IsSignaled\(\)'
    label = 'Task::IsSignaled'
    acquire_read = True
    where = (U, F, P, RQ, RUN)

    def more(self, E):
        return [('kept alive', E.S.ghost['mine'] == E.b('this'))]

    def post(self, E):
        g = E.S.ghost
        return [('reads the status', And(E.ret == (g['seen'] == E.ex.spec.SIGNALED), g['seen'] >= 0, g['wrote'] == 0))]


class SetDelay(Own):
    name = T_ + r'SetDelay\(.*'
    label = 'Task::SetDelay'
    params = [('this', 'Task'), ('d', None)]

    def post(self, E):
        return self.keep(E) + [('the deadline is now plus the delay', self.dl(E, E.S) == E.S.ghost['now'] + E.a['d']), ('nothing else', E.S.ghost['wrote'] == 0)]


class AdjustDelay(SetDelay):
    name = T_ + r'AdjustDelay\(.*'
    label = 'Task::AdjustDelay'

    def post(self, E):
        o, n = self.dl(E, E.S0), E.S.ghost['now'] + E.a['d']
        return self.keep(E) + [('the deadline can only come closer', self.dl(E, E.S) == If(n < o, n, o))]


class SetDeadline(Own):
    name = T_ + r'SetDeadline\(.*'
    label = 'Task::SetDeadline'
    params = [('this', 'Task'), ('d', None)]

    def post(self, E):
        return self.keep(E) + [('the deadline is as told', self.dl(E, E.S) == E.a['d'])]


class AdjustDeadline(SetDeadline):
    name = T_ + r'AdjustDeadline\(.*'
    label = 'Task::AdjustDeadline'

    def post(self, E):
        o, n = self.dl(E, E.S0), E.a['d']
        return self.keep(E) + [('the deadline can only come closer', self.dl(E, E.S) == If(n < o, n, o))]


class IsExpired(Own):
    name = T_ + r'IsExpired\(\) const'
    label = 'Task::IsExpired'

    def post(self, E):
        sp = E.ex.spec
        return self.keep(E) + self.same(E, (sp.kd,)) + [('the flag', E.ret == (Select(E.S0.get(sp.ke), self.t(E)) != 0))]

    def more(self, E):
        e = Select(E.S.get(E.ex.spec.ke), self.t(E))
        return Own.more(self, E) + [('a boolean', And(0 <= e, e <= 1))]


class GetDeadline(Own):
    name = T_ + r'GetDeadline\(\) const'
    label = 'Task::GetDeadline'

    def post(self, E):
        return self.keep(E) + [('the deadline', E.ret == self.dl(E, E.S0)), ('unchanged', self.dl(E, E.S) == self.dl(E, E.S0))]


class PrivCreate(C):
    name = T_ + r'PrivCreate\(\)'
    label = 'Task::PrivCreate'
    role = 'create'
    params = [('this', 'Task')]
    where = (RUN,)

    def post(self, E):
        sp = E.ex.spec
        t = self.t(E)
        v = lambda k: Select(E.S.get(k), t)
        return [('a new task', And(v(sp.kn) == 0, v(sp.ki) == NOIDX, v(sp.kc) == 0, v(sp.kd) == 0, v(sp.ke) == 0, v(sp.ks) == sp.PENDING))]


class LessEq(C):
    name = T_ + r'operator<=\(mg::sch::Task const&\) const'
    label = 'Task::operator<='
    params = [('this', 'Task'), ('o', 'Task')]

    def pre(self, E):
        g = E.S.ghost
        return [('under the lock', And(g['locked'], E.b('this') > 0, E.b('o') > 0))] + [
            ('in the waiting queue', isin(Select(g['tok'], E.b(n)), (P, F, HAND))) for n in ('this', 'o')]

    def post(self, E):
        kd = E.ex.spec.kd
        return [('the order of deadlines', E.ret == (Select(E.S.get(kd), E.b('this')) <= Select(E.S.get(kd), E.b('o'))))]


# ---- posts ------------------------------------------------------------------------------
class Post(C):
    name = SC + r'Post\(mg::sch::Task\*\)'
    label = 'TaskScheduler::Post'
    params = [('sched', 'Sched'), ('task', 'Task')]
    where = (RUN,)
    role = 'owner'
    this_is_sched = True

    def t(self, E):
        return E.b('task')

    def more(self, E):
        sp = E.ex.spec
        t = self.t(E)
        return [('this scheduler', E.b('sched') == SCHED), ('not in a scheduler', Select(E.S.get(sp.kc), t) == 0),
                ('deadline', And(0 <= Select(E.S.get(sp.kd), t), Select(E.S.get(sp.kd), t) <= INF)), ('frame', Not(E.S.ghost['opgone']))]

    def want(self, E):
        return Select(E.S0.get(E.ex.spec.kd), self.t(E))

    def post(self, E):
        g = E.S.ghost
        return [('pushed once, and the scheduler is told when its queue was empty', And(g['pushes'] == 1, g['wrote'] == 0, g['fsig'] == If(g['pres'], 1, 0))),
                ('with the right deadline', g['dl'] == self.want(E))]


class PostDelay(Post):
    name = r'drv_post_delay'
    label = 'TaskScheduler::PostDelay'
    params = [('sched', 'Sched'), ('task', 'Task'), ('d', None)]

    def want(self, E):
        return E.S.ghost['now'] + E.a['d']


class PostDeadline(PostDelay):
    name = r'drv_post_deadline'
    label = 'TaskScheduler::PostDeadline'

    def want(self, E):
        return E.a['d']


class PostWait(Post):
    name = r'drv_post_wait'
    label = 'TaskScheduler::PostWait'

    def want(self, E):
        return IntVal(INF)


class PrivPost(C):
    name = SC + r'PrivPost\(mg::sch::Task\*\)'
    label = 'TaskScheduler::PrivPost'
    params = [('sched', 'Sched'), ('task', 'Task')]
    where = (RUN, OWE)
    role = 'owner'

    def t(self, E):
        return E.b('task')

    def more(self, E):
        sp = E.ex.spec
        return [('this scheduler', And(E.b('sched') == SCHED, Select(E.S.get(sp.kc), self.t(E)) == SCHED))]

    def post(self, E):
        g = E.S.ghost
        return [('pushed once, and the scheduler is told when its queue was empty', And(g['pushes'] == 1, g['wrote'] == 0, g['fsig'] == If(g['pres'], 1, 0)))]


class PrivExecute(C):
    name = SC + r'PrivExecute\(mg::sch::Task\*\)'
    label = 'TaskScheduler::PrivExecute'
    role = 'exec'
    params = [('sched', 'Sched'), ('task', 'Task')]

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        t = E.b('task')
        return C.pre(self, E) + [('this scheduler', E.b('sched') == SCHED), ('an own task, taken from the ready queue', And(t >= 0, Implies(t != 0, popped(sp, E.S, t))))]

    def post(self, E):
        g = E.S.ghost
        t = E.b('task')
        return [('executed once if there is a task', And(E.ret == (t != 0), g['ran'] == If(t != 0, 1, 0)))]


def popped(sp, S, t):
    return And(t > 0, Select(S.ghost['tok'], t) == RUN, sp.woken(Select(S.get(sp.ks), t)), Select(S.get(sp.kc), t) == SCHED)


class OpSpec(TaskRG):
    contracts = [PostWakeup(), PostSignal(), ReceiveSignal(), IsSignaled(), SetDelay(), AdjustDelay(), SetDeadline(), AdjustDeadline(), IsExpired(), GetDeadline(),
                 PrivCreate(), LessEq(), Post(), PostDelay(), PostDeadline(), PostWait(), PrivPost(), PrivExecute()]


# ---- coroutine operations ---------------------------------------------------------------
FN = r'std::function<void \(mg::sch::Task\*\)>::'


class CoroBase(TaskRG):
    handlers = [(FN + r'function\(std::function<void \(mg::sch::Task\*\)>&&\)', 'h_fmove'), (FN + r'operator=\(std::function<void \(mg::sch::Task\*\)>&&\)', 'h_fassign'),
                (FN + r'operator=\(decltype\(nullptr\)\)', 'h_fclear'), (FN + r'~function\(\)', 'h_fdestroy'),
                (r'std::function<void \(\)>::operator\(\)\(\) const', 'h_oneshot')] + TaskRG.handlers

    def on_attach(self):
        TaskRG.on_attach(self)
        k = self.k
        T, Sc = To('Task'), To('Sched')
        self.classes.update(OpY=Cls({k('oy_task'): T, k('oy_sched'): Sc}), OpR=Cls({k('or_task'): T, k('or_sched'): Sc}), OpD=Cls({k('od_task'): T}),
                            OpE=Cls({k('oe_task'): T}), OpS=Cls({k('os_task'): T, k('os_sig'): To('Sig')}), Sig=Cls({}), Frame=Cls({}))

    def iscb(self, p, t=None):
        return p.local is None and p.cls == 'Task' and p.off in (self.off['t_callback'], self.k('one_cb'))

    def owned(self, ex, S, p, what):
        ex.prove(S, Select(S.ghost['tok'], p.base) == RUN, 'a callback is touched only by the owner of the task (%s)' % what, ex.cur_loc, 'race')

    def h_fmove(self, ex, ctx, S, v, ins):
        if v[0].local is None or v[1].cls != 'OpE' or v[1].local is not None:
            raise Unsupported('a move of a callback')
        self.on_access(ex, S, v[1], 'move')
        ex.prove(S, BoolVal(v[1].off == self.k('oe_cb')), 'the new callback is taken', ex.cur_loc, 'guarantee')
        S.ghost['moved'] = BoolVal(True)

    def h_fassign(self, ex, ctx, S, v, ins):
        if not self.iscb(v[0]) or v[1].local is None:
            raise Unsupported('an assignment of a callback')
        self.owned(ex, S, v[0], 'assign')
        ex.prove(S, S.ghost['moved'], 'the new callback is assigned', ex.cur_loc, 'guarantee')
        S.ghost['opgone'] = BoolVal(True)
        S.ghost['cleared'] = BoolVal(True)
        return v[0]

    def h_fclear(self, ex, ctx, S, v, ins):
        if not self.iscb(v[0]):
            raise Unsupported('a clearing of a callback')
        self.owned(ex, S, v[0], 'clear')
        S.ghost['opgone'] = BoolVal(True)
        S.ghost['cleared'] = BoolVal(True)
        return v[0]

    def h_fdestroy(self, ex, ctx, S, v, ins):
        if v[0].local is not None:
            return
        self.owned(ex, S, v[0], 'destroy')
        S.ghost['opgone'] = BoolVal(True)
        S.ghost['cleared'] = BoolVal(True)

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        # the manager of a std::function: operation 3 destroys the object
        if len(vals) == 3 and z3.is_int_value(z3.simplify(vals[2])) and z3.simplify(vals[2]).as_long() == 3:
            self.h_fdestroy(ex, ctx, S, vals, ins)
            return BoolVal(False)
        raise Unsupported('indirect call')

    def h_send(self, ex, ctx, S, v, ins):
        p = v[0]
        g = S.ghost
        if p.cls != 'Sig':
            return TaskRG.h_send(self, ex, ctx, S, v, ins)
        ex.prove(S, And(p.base == SIG, g['cleared']), 'the signal is sent after the coroutine is destroyed', ex.cur_loc, 'guarantee')
        g['rsig'] = g['rsig'] + 1
        g['opgone'] = BoolVal(True)
        g['mine'] = IntVal(0)
        g['tok'] = Store(g['tok'], TSK, IntVal(OTHER))

    def h_callback(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        self.interfere(ex, S)
        ex.prove(S, And(v[0].base == t, BoolVal(v[0].off == self.off['t_callback'] and v[1].off == 0)), 'the task\'s own callback is called with the task', ex.cur_loc, 'guarantee')
        ex.prove(S, And(Select(g['tok'], t) == RUN, g['ran'] == 0, g['cleared'], g['moved']), 'the new callback is called once, by the owner', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(U))
        g['mine'] = IntVal(0)
        g['ran'] = g['ran'] + 1
        self.interfere(ex, S)

    def h_oneshot(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, And(v[0].base == TSK, BoolVal(v[0].off == self.k('one_cb')), g['ran'] == 0, g['deleted'] == 0), 'the function is executed once, before the task is deleted', ex.cur_loc, 'guarantee')
        g['ran'] = g['ran'] + 1
        self.interfere(ex, S)

    def free(self, ex, ctx, S, p):
        g = S.ghost
        ex.prove(S, And(p.base == TSK, BoolVal(p.off == 0), Select(g['tok'], p.base) == RUN), 'the owner deletes the task', ex.cur_loc, 'guarantee')
        g['deleted'] = g['deleted'] + 1
        g['mine'] = IntVal(0)
        g['tok'] = Store(g['tok'], p.base, IntVal(OTHER))


SIG, TSK = Int('p_sig'), Int('p_tsk')


class Op(C):
    role = 'owner'
    params = [('this', 'OpY'), ('h', 'Frame')]
    zero = C.zero + ('deleted',)
    cells = None
    where = (RUN,)

    def t(self, E):
        sp = E.ex.spec
        return E.S0.ld(self.params[0][1], sp.k(self.cells[0]), 'ptr', E.b('this'))

    def pre(self, E):
        g = E.S.ghost
        return C.pre(self, E) + [('nothing done', Not(Or(g['opgone'], g['cleared'], g['moved']))), ('this', And(E.b('this') > 0, self.t(E) == TSK))]

    def more(self, E):
        sp = E.ex.spec
        t = self.t(E)
        r = [('not in a scheduler', Select(E.S.get(sp.kc), t) == 0), ('deadline', And(0 <= Select(E.S.get(sp.kd), t), Select(E.S.get(sp.kd), t) <= INF))]
        if len(self.cells) > 1:
            r.append(('this scheduler', E.S.ld(self.params[0][1], sp.k(self.cells[1]), 'ptr', E.b('this')) == (SIG if self.cells[1] == 'os_sig' else SCHED)))
        return r


class OpYield(Op):
    name = S_ + r'TaskCoroOpYield::await_suspend\(.*'
    label = 'TaskCoroOpYield::await_suspend'
    cells = ('oy_task', 'oy_sched')

    def post(self, E):
        g = E.S.ghost
        return [('suspends', E.ret), ('posted once with its deadline', And(g['pushes'] == 1, g['wrote'] == 0, g['fsig'] == If(g['pres'], 1, 0),
                                                                         g['dl'] == Select(E.S0.get(E.ex.spec.kd), self.t(E))))]


class OpRecv(OpYield):
    name = S_ + r'TaskCoroOpReceiveSignal::await_suspend\(.*'
    label = 'TaskCoroOpReceiveSignal::await_suspend'
    cells = ('or_task', 'or_sched')
    params = [('this', 'OpR'), ('h', 'Frame')]


class OpResume(Op):
    name = S_ + r'TaskCoroOpReceiveSignal::await_resume\(\) const'
    label = 'TaskCoroOpReceiveSignal::await_resume'
    cells = ('or_task',)
    params = [('this', 'OpR')]

    def post(self, E):
        g = E.S.ghost
        return [('received iff it was signaled', If(E.ret, g['wrote'] == 1, And(g['wrote'] == 0, g['seen'] != E.ex.spec.SIGNALED, g['seen'] >= 0)))]


class OpDelete(Op):
    name = S_ + r'TaskCoroOpExitDelete::await_suspend\(.*'
    label = 'TaskCoroOpExitDelete::await_suspend'
    cells = ('od_task',)
    params = [('this', 'OpD'), ('h', 'Frame')]

    def post(self, E):
        g = E.S.ghost
        return [('suspends for ever', E.ret), ('deleted once', And(g['deleted'] == 1, g['pushes'] == 0))]


class OpExec(Op):
    name = S_ + r'TaskCoroOpExitExec::await_suspend\(.*'
    label = 'TaskCoroOpExitExec::await_suspend'
    cells = ('oe_task',)
    params = [('this', 'OpE'), ('h', 'Frame')]

    def post(self, E):
        g = E.S.ghost
        return [('suspends for ever', E.ret), ('the new callback is executed once', And(g['ran'] == 1, g['deleted'] == 0, g['pushes'] == 0))]


class OpSig(Op):
    name = S_ + r'TaskCoroOpExitSendSignal::await_suspend\(.*'
    label = 'TaskCoroOpExitSendSignal::await_suspend'
    cells = ('os_task', 'os_sig')
    params = [('this', 'OpS'), ('h', 'Frame')]

    def post(self, E):
        g = E.S.ghost
        return [('suspends for ever', E.ret), ('the signal is sent once', And(g['rsig'] == 1, g['deleted'] == 0, g['pushes'] == 0))]


class OneShot(C):
    name = S_ + r'TaskOneShot::Execute\(.*'
    label = 'TaskOneShot::Execute'
    role = 'owner'
    params = [('this', 'Task'), ('task', 'Task')]
    zero = C.zero + ('deleted',)
    where = (RUN,)

    def more(self, E):
        return [('itself', And(E.b('this') == TSK, E.b('task') == TSK)), ('not in a scheduler', Select(E.S.get(E.ex.spec.kc), TSK) == 0), ('fresh', Not(E.S.ghost['cleared']))]

    def post(self, E):
        g = E.S.ghost
        return [('executed once and deleted', And(g['ran'] == 1, g['deleted'] == 1))]


class CoroSpec(CoroBase):
    contracts = [OpYield(), OpRecv(), OpResume(), OpDelete(), OpExec(), OpSig(), OneShot()]


# ---- workers ---------------------------------------------------------------------------
class RunRG(TaskRG):
    handlers = [(r'mg::box::Thread::StopRequested\(\)', 'h_stop'), (SC + r'PrivSchedule\(\)', 'h_schedule'), (r'mg::box::MCQBaseConsumer::Pop\(\)', 'h_pop')] + TaskRG.handlers

    def on_attach(self):
        TaskRG.on_attach(self)
        k = self.k
        self.kw = ('W', k('w_state'), 'i32')
        self.keb = ('Sched', k('s_execbatch'), 'i32')
        self.IDLE, self.RUNNING = k('ws_idle'), k('ws_running')
        self.classes.update(W=Cls({k('w_sched'): To('Sched')}), Tls=Cls({0: To('Sched')}), Raw=Cls({}))

    def builtin(self, name):
        if name.startswith('llvm.threadlocal.address'):
            return lambda ex, ctx, S, v, ins: Ptr(TLS, 0, 'Tls')
        return TaskRG.builtin(self, name)

    def state(self, S):
        return Select(S.get(self.kw), W0)

    def h_stop(self, ex, ctx, S, v, ins):
        return fresh('stop', B)

    def h_schedule(self, ex, ctx, S, v, ins):
        self.here0(ex, S, v[0], 'the scheduler')
        ex.prove(S, no_tok2(S, (RUN,)), 'schedules with nothing in hands', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        S.ghost['att'] = BoolVal(True)
        S.ghost['empty'] = BoolVal(False)
        return fresh('sched', B)

    def here0(self, ex, S, p, what):
        ex.prove(S, And(p.base == SCHED, BoolVal(p.local is None and p.off == 0)), 'is the own one: ' + what, ex.cur_loc, 'call-pre')

    def h_pop(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, And(v[0].base == W0, BoolVal(v[0].off == self.k('w_consumer'))), 'the worker\'s own consumer', ex.cur_loc, 'call-pre')
        ex.prove(S, self.state(S) == self.RUNNING, 'a worker which can take a task says that it runs', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        t = fresh('popped', I)
        old = g['tok']
        ex.assume(S, And(t >= 0, Implies(t != 0, And(Select(old, t) == RQ))))
        new = fresh('tok', ARR)
        ex.assume(S, new == Store(old, t, If(t != 0, IntVal(RUN), Select(old, t))))
        g['tok'] = new
        g['empty'] = t == 0
        g['ran'] = IntVal(0)
        return Ptr(t, 0, 'Task')

    def h_callback(self, ex, ctx, S, v, ins):
        ex.prove(S, S.ld('Tls', 0, 'ptr', TLS) == SCHED, 'the task sees its scheduler as the current one', ex.cur_loc, 'guarantee')
        ex.prove(S, self.state(S) == self.RUNNING, 'a worker which executes a task says that it runs', ex.cur_loc, 'guarantee')
        return TaskRG.h_callback(self, ex, ctx, S, v, ins)

    def h_recv(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], 's_sigready', 'ready signal')
        ex.prove(S, And(g['att'], g['empty'], no_tok2(S, (RUN,))), 'a worker sleeps only after it tried to schedule and then found the ready queue empty', ex.cur_loc, 'guarantee')
        ex.prove(S, self.state(S) == self.IDLE, 'a sleeping worker says that it is idle', ex.cur_loc, 'guarantee')
        g['att'] = BoolVal(False)
        g['empty'] = BoolVal(False)
        g['rsig'] = IntVal(0)
        self.interfere(ex, S)


TLS, W0 = Int('p_tls'), Int('p_w')


def no_tok2(S, vals):
    t = Select(S.ghost['tok'], x)
    return ForAll([x], And(*[t != v for v in vals]), patterns=[t])


def run_inv(E):
    sp = E.ex.spec
    g = E.S.ghost
    mb = E.S.ld(*sp.keb, SCHED)
    ints = [v for v in E.phis.values() if not isinstance(v, Ptr) and z3.is_int(v)]
    return sp.inv(E.S) + [('owns nothing', no_tok(E, (RUN, HAND, RL, CH, PEND, OWE))), ('state', And(Not(g['locked']), g['rsig'] >= 0, E.S.ld('Tls', 0, 'ptr', TLS) == SCHED))] + \
        [('batch', And(v >= 0, v < mb)) for v in ints] + \
        [('progress', And(g['att'] == E.L.ghost['att'], sp.state(E.S) == sp.state(E.L)) if ints else BoolVal(True))]


def run_do(E):
    sp = E.ex.spec
    return run_inv(E) + [('running', sp.state(E.S) == sp.RUNNING)]


class Run(C):
    name = S_ + r'TaskSchedulerThread::Run\(\)'
    label = 'TaskSchedulerThread::Run'
    role = 'exec'
    params = [('this', 'W')]
    loops = [Loop({}, run_inv), Loop({}, run_do), Loop({}, lambda E: run_inv(E) + [('running', E.ex.spec.state(E.S) == E.ex.spec.RUNNING), ('tried', E.S.ghost['att'])])]
    loops_in_order = True

    def pre(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return C.pre(self, E) + [('this', And(E.b('this') == W0, W0 > 0, TLS > 0)), ('its scheduler', E.S.ld('W', sp.k('w_sched'), 'ptr', W0) == SCHED),
                                 ('batch', And(E.S.ld(*sp.keb, SCHED) > 0, E.S.ld(*sp.keb, SCHED) < (1 << 32))),
                                 ('owns nothing', no_tok2(E.S, (RUN, HAND, RL, CH, PEND, OWE))), ('nothing done', Not(Or(g['att'], g['empty'])))]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return [('leaves nothing behind', no_tok2(E.S, (RUN,))), ('is idle', sp.state(E.S) == sp.IDLE), ('another worker is told', g['rsig'] >= 1),
                ('no current scheduler', E.S.ld('Tls', 0, 'ptr', TLS) == 0)]


class RunSpec(RunRG):
    contracts = [Run()]


# ---- IsEmpty ----------------------------------------------------------------------------
# While the scheduler mutex is held tasks only go ready queue -> a worker -> front queue.
# rz: the ready queue was seen empty; idle[w]: then worker w was seen idle; fz: then the
# front queue was seen empty.  Each fact is stable from the moment it is observed because
# the previous one is.
V0, NV = Int('p_vec'), Int('n_vec')


class EmptyRG(RunRG):
    ghost_sorts = dict(TaskRG.ghost_sorts, rz=B, fz=B, hz=B, pz=B, idle=z3.ArraySort(I, B))
    handlers = [(r'mg::box::InterruptibleMutex::Lock\(.*', 'h_lock'), (MP + r'IsEmpty\(\)', 'h_fempty'), (r'std::function<void \(\)>::function<.*', 'h_nop')] + RunRG.handlers

    def on_attach(self):
        RunRG.on_attach(self)
        k = self.k
        self.classes.update(Vec=Cls({0: To('W')}, arr=True, stride=8),
                            Sched=Cls({k('s_threads'): To('Vec', idx=True), k('s_threads') + 8: To('Vec', idx=True)}))
        self.shared = (self.ks, self.kw)

    def array_bound(self, ex, S, p):
        return (IntVal(0), NV)

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        if len(vals) == 3 and vals[0].local is not None:
            return BoolVal(False)
        raise Unsupported('indirect call')

    def h_lock(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_mutex', 'mutex')
        self.interfere(ex, S)
        g = S.ghost
        ex.prove(S, Not(g['locked']), 'the mutex is not recursive', ex.cur_loc, 'call-pre')
        g['locked'] = BoolVal(True)
        ex.assume(S, And(g['hn'] >= 0, g['pn'] >= 0))

    def h_unlock(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 's_mutex', 'mutex')
        self.under(ex, S, 'unlock')
        S.ghost['locked'] = BoolVal(False)
        S.ghost['unlocked'] = S.ghost['unlocked'] + 1
        S.ghost['rsig'] = IntVal(0)
        self.interfere(ex, S)

    def h_hcount(self, ex, ctx, S, v, ins):
        r = TaskRG.h_hcount(self, ex, ctx, S, v, ins)
        S.ghost['hz'] = r == 0
        return r

    def h_lempty(self, ex, ctx, S, v, ins):
        r = TaskRG.h_lempty(self, ex, ctx, S, v, ins)
        S.ghost['pz'] = r
        return r

    def h_rcount(self, ex, ctx, S, v, ins):
        self.under(ex, S, 'the ready queue is checked')
        r = TaskRG.h_rcount(self, ex, ctx, S, v, ins)
        S.ghost['rz'] = Or(S.ghost['rz'], r == 0)
        return r

    def on_read(self, ex, S, p, val, order):
        if (p.cls, p.off) != self.kw[:2]:
            return TaskRG.on_read(self, ex, S, p, val, order)
        g = S.ghost
        self.order(ex, S, order, 'acquire', 'what an idle worker posted is seen')
        g['idle'] = Store(g['idle'], p.base, Or(Select(g['idle'], p.base), And(g['locked'], g['rz'], val == self.IDLE)))

    def on_write(self, ex, S, pre, p, old, new, order, op):
        ex.prove(S, BoolVal(False), 'IsEmpty changes nothing', ex.cur_loc, 'guarantee')

    def h_fempty(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], 's_front', 'front queue')
        self.interfere(ex, S)
        r = fresh('fe', B)
        b = fresh('allidle', B)
        ex.assume(S, b == allidle(S, NV))
        g['fz'] = Or(g['fz'], And(r, b, g['locked']))
        return r


def vec(S, i):
    return Select(Select(S.get(('Vec', 0, 'ptr', 'A')), V0), i)


def allidle(S, n):
    i = Int('i_v')
    e = vec(S, i)
    return ForAll([i], Implies(And(0 <= i, i < n), Select(S.ghost['idle'], e)), patterns=[e])


def empty_inv(E):
    sp = E.ex.spec
    g, L = E.S.ghost, E.L.ghost
    cur = None
    for d, v in E.phis.items():
        if isinstance(v, Ptr) and v.cls == 'Vec':
            cur = v.idx if v.idx is not None else IntVal(0)
            at = [('cursor', v.base == V0)]
        elif not isinstance(v, Ptr) and z3.is_int(v) and cur is None:
            cur, at = v, []
    if cur is None:
        raise Unsupported('no cursor over the workers')
    return sp.inv(E.S) + at + [('range', And(0 <= cur, cur <= NV)), ('the checked ones are idle', Implies(L['rz'], allidle(E.S, cur))),
                               ('state', And(g['locked'], g['unlocked'] == 0, g['rz'] == L['rz'], g['hz'] == L['hz'], g['pz'] == L['pz']))]


class IsEmpty(C):
    name = SC + r'IsEmpty\(\)'
    label = 'TaskScheduler::IsEmpty'
    params = [('sched', 'Sched')]
    loops = [Loop({}, empty_inv)]

    def pre(self, E):
        g = E.S.ghost
        k = E.ex.spec.k('s_threads')
        vecpre = [('the workers', And(V0 > 0, NV >= 0, E.S.ld('Sched', k, 'ptr', SCHED) == V0, E.S.ld('Sched', k, 'ix', SCHED) == 0,
                                      E.S.ld('Sched', k + 8, 'ptr', SCHED) == V0, E.S.ld('Sched', k + 8, 'ix', SCHED) == NV)),
                  ('are there', ForAll([x], Implies(And(0 <= x, x < NV), vec(E.S, x) > 0), patterns=[vec(E.S, x)]))]
        return C.pre(self, E) + [('this', E.b('sched') == SCHED), ('nothing is known', And(Not(Or(g['rz'], g['fz'], g['hz'], g['pz'])), ForAll([x], Not(Select(g['idle'], x)))))] + vecpre

    def post(self, E):
        g = E.S.ghost
        return [('the lock is released and the workers are told', And(Not(g['locked']), g['unlocked'] == 1, g['rsig'] >= 1)),
                ('empty means there is no task anywhere', Implies(E.ret, And(g['rz'], g['fz'], g['hz'], g['pz'])))]


class EmptySpec(EmptyRG):
    contracts = [IsEmpty()]


# ---- Stop -------------------------------------------------------------------------------
class TSStop(iospec.StopBase):
    tu = TaskRG.tu
    handlers = [(r'mg::box::InterruptibleMutex::Lock\(.*', 'h_lock'), (r'mg::box::InterruptibleMutex::Unlock\(\)', 'h_unlock'), (r'mg::box::Thread::Stop\(\)', 'h_wstop'), (r'mg::box::Thread::StopAndDelete\(\)', 'h_wdelete'),
                (r'mg::box::Signal::Send\(\)', 'h_send'), (r'std::function<void \(\)>::function<.*', 'h_nop')]

    def on_attach(self):
        k = self.k('s_threads')
        self.classes = {'Sched': Cls({k: To('Vec', idx=True), k + 8: To('Vec', idx=True)}), 'Vec': Cls({0: To('W')}, arr=True, stride=8), 'W': Cls({}), 'Raw': Cls({})}

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        if len(vals) == 3 and vals[0].local is not None:
            return BoolVal(False)
        raise Unsupported('indirect call')

    def stopping(self, S, told):
        return BoolVal(True)


class Stop(iospec.Stop):
    name = SC + r'Stop\(\)'
    label = 'TaskScheduler::Stop'
    params = [('sched', 'Sched')]
    vecoff = 's_threads'
    root, cls = SCHED, 'Sched'

    def pre(self, E):
        return [('this', And(E.b('sched') == SCHED, SCHED > 0))] + self.vec_pre(E)

    def post(self, E):
        g = E.S.ghost
        return [('the lock is free, and a worker is told about that', And(g['locked'] == 0, g['unl'] == 1, g['rsig'] >= 1))] + self.gone(E)


TSStop.contracts = [Stop()]

SPEC = [SchedSpec, OpSpec, CoroSpec, RunSpec, EmptySpec, TSStop]
