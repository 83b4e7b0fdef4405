"""I/O tasks and the I/O core (epoll).

Ghost state as for the tasks of the task scheduler: tok[t] - where the right to run task t is.
  U user code (or another thread executing it)   F  the front queue (or a waker about to push it)
  P parked: waits for events, a deadline or a waker   CH popped from the front queue
  PEND pending list   HAND held by the scheduling thread   RL chosen to run   RQ ready queue
  RUN this thread executes / owns it   OWE this thread woke it and owes a push
P <=> the status is WAITING.  clo[t] - who closes (or re-creates) it: 0 nobody, 1 another
thread, 2 this one.  reg[t] - its socket is in the epoll.  The scheduling thread has the flag.
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, ForAll, Select, Store, BoolVal
from ..spec import *
from ..rg import RG, RCon, cursor

A_ = r'mg::aio::'
T_ = A_ + r'IOTask::'
CO = A_ + r'IOCore::'
HEAP = r'mg::box::BinaryHeap<mg::aio::IOTask\*, .*>::'
FL = r'mg::box::ForwardList<mg::aio::IOTask, .*>::'
MP = r'mg::box::MultiProducerQueueIntrusive<mg::aio::IOTask, .*>::'
MC = r'mg::box::MultiConsumerQueue<mg::aio::IOTask>::'
SUBP = r'mg::box::SharedPtrIntrusive<mg::aio::IOSubscription>::'
U, F, P, PEND, HAND, RL, RQ, CH, OTHER, RUN, OWE = range(11)
HELD = (PEND, HAND, RL, CH)
MINE = HELD + (RUN, OWE)
INCORE = (F, P, PEND, HAND, RL, RQ, CH, OWE)
INF = (1 << 64) - 1
NOIDX = (1 << 32) - 1
NOSOCK = (1 << 32) - 1
M32 = 1 << 32
x = Int('x_t')
CORE = Int('p_core')
TLS = Int('p_tls')
IOR = z3.Function('ior', I, I, I)


_FA = ForAll


def ForAll(vs, body, patterns=()):
    try:
        return _FA(vs, body, patterns=list(patterns))
    except z3.Z3Exception:
        # an undecided index in a dry run
        return _FA(vs, body)


def isin(t, vals):
    return Or(*[t == v for v in vals])


class IORG(RG):
    tu = 'io.cpp'
    ghost_sorts = dict(tok=ARR, clo=ARR, reg=z3.ArraySort(I, B), hn=I, top=I, pn=I, chn=I, chh=I, cht=I, rn=I, T=ARR, tpos=ARR, Tn=I, now=I, ts0=I, locked=B, unfl=B, rcount=I,
                       popped=I, hpops=I, proc=I, rsig=I, fsig=I, pushes=I, pres=B, unlocked=I, ran=I, wrote=I, over=I, seen=I, slept=I, mine=I, cur=I, dl=I, att=B, empty=B,
                       evn=I, ki=I, mg=z3.ArraySort(I, B), hand=I, hr=I, hp=I, hs=I, sclosed=I, acq=I, isrun=B, inc=I, dec=I, subs=I, args=I, wsub=I, opened=B, guards=I, waited=B)
    env_ghosts = ('tok', 'clo', 'reg')
    handlers = [(HEAP + r'Count\(\) const', 'h_hcount'), (HEAP + r'GetTop\(\)', 'h_htop'), (HEAP + r'RemoveTop\(\)', 'h_hremtop'),
                (HEAP + r'Push\(.*', 'h_hpush'), (HEAP + r'Remove\(.*', 'h_hremove'),
                (FL + r'ForwardList\(\)', 'h_nop'), (FL + r'Append\(mg::aio::IOTask\*\)', 'h_append'), (FL + r'Append\(mg::aio::IOTask\*, mg::aio::IOTask\*\)', 'h_appendrange'),
                (FL + r'IsEmpty\(\) const', 'h_lempty'), (FL + r'PopFirst\(\)', 'h_popfirst'), (FL + r'PopAll\(\)', 'h_lpopall'),
                (MP + r'PopAll\(mg::aio::IOTask\*&\)', 'h_mpopall'), (MP + r'Push\(.*', 'h_mpush'),
                (MC + r'PushPending\(.*', 'h_pushpending'), (MC + r'FlushPending\(\)', 'h_flush'), (MC + r'Count\(\)', 'h_rcount'),
                (r'mg::box::Signal::Send\(\)', 'h_send'), (r'mg::box::Signal::ReceiveBlocking\(\)', 'h_recv'),
                (r'mg::box::GetMilliseconds\(\)', 'h_now'), (r'epoll_wait', 'h_epoll_wait'), (r'epoll_ctl', 'h_epoll_ctl'), (r'eventfd_write', 'h_eventfd_write'),
                (r'poll', 'h_poll'), (r'__errno_location', 'h_errno'), (r'mg::net::SocketClose\(int\)', 'h_sockclose'), (SUBP + r'PrivUnref\(.*', 'h_unref'), (SUBP + r'PrivRef\(.*', 'h_ref'),
                (r'mg::box::Sleep\(.*', 'h_sleep'),
                (HEAP + '.*', 'h_other'), (FL + '.*', 'h_other'), (MP + '.*', 'h_other'), (MC + '.*', 'h_other')]
    assumptions = RG.assumptions + (
        'BinaryHeap (B03), ForwardList (B01), MultiProducerQueue (B06), MultiConsumerQueue (B16) and Signal (B08) are what their properties say',
        'the kernel: epoll_wait returns only registered data pointers (or the null one of the eventfd) and fails only with EINTR, epoll_ctl and eventfd_write of a valid descriptor succeed, an event stays available to a nested poll until epoll_wait takes it',
        'a task is used with one core; user code touches it (besides waking and closing) only when it is not posted or inside of OnEvent, and keeps it alive while others may wake or close it',
        'the clock does not go back')

    def on_attach(self):
        k = self.k
        self.off = {n: k(n) for n in ('c_front', 'c_pending', 'c_waiting', 'c_ready', 'c_sigready')}
        c = lambda n, ty: ('Task', k(n), ty)
        self.kn, self.ki, self.ks, self.kg = c('t_next', 'ptr'), c('t_index', 'i32'), c('t_status', 'i32'), c('t_guard', 'i8')
        self.kd, self.ke, self.kq, self.kcl = c('t_deadline', 'i64'), c('t_expired', 'i8'), c('t_inq', 'i8'), c('t_closed', 'i8')
        self.ksub, self.kso, self.kr, self.kp, self.kc = c('t_sub', 'ptr'), c('t_sock', 'i32'), c('t_ready', 'i32'), c('t_pending', 'i32'), c('t_core', 'ptr')
        o = lambda n, ty: ('Core', k(n), ty)
        self.kflag, self.kcount, self.kstate = o('c_flag', 'i8'), o('c_count', 'i32'), o('c_state', 'i32')
        self.knat, self.kevfd, self.kb, self.keb = o('c_native', 'i32'), o('c_eventfd', 'i32'), o('c_schedbatch', 'i32'), o('c_execbatch', 'i32')
        self.shared = (self.ks, self.kg, self.kflag, self.kcount, self.kstate)
        self.own = (self.kn, self.kd, self.ke, self.kq, self.kcl, self.ksub, self.kso, self.kr)
        self.env_cells = self.own + (self.kp,)
        self.PENDING, self.WAITING, self.READY, self.CLOSING, self.CLOSED = [k('st_' + n) for n in ('pending', 'waiting', 'ready', 'closing', 'closed')]
        self.MASK = k('k_epollin') | k('k_epollout') | k('k_epollerr') | k('k_epollhup') | k('k_epollet')
        self.classes = {'Task': Cls({k('t_next'): To('Task'), k('t_sub'): To('Sub'), k('t_core'): To('Core'), k('t_in'): To('Ev'), k('t_out'): To('Ev')}),
                        'Core': Cls({}), 'Slot': Cls({0: To('Task')}), 'Out': Cls({0: To('Task')}), 'Evs': Cls({4: To('Task')}, arr=True, stride=12),
                        'Sub': Cls({0: To('VT')}), 'VT': Cls({}), 'Ev': Cls({}), 'Tls': Cls({0: To('Task')}), 'Err': Cls({})}
        self.kevp, self.keve = ('Evs', 4, 'ptr', 'A'), ('Evs', 0, 'i32', 'A')

    def alloca_class(self, fn, dst, ty):
        return 'Evs' if isinstance(ty, tuple) and ty[0] == 'arr' and ty[2] == '%struct.epoll_event' else None

    def array_bound(self, ex, S, p):
        return (IntVal(0), IntVal(1024))

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def bitop(self, ex, S, op, n, a, b):
        return self.ior(ex, S, a, b) if op == 'or' else None

    def ior(self, ex, S, a, b):
        r = IOR(a, b)
        ex.assume(S, And(r == IOR(b, a), Implies(a == 0, r == b), Implies(b == 0, r == a), (r == 0) == And(a == 0, b == 0), r >= 0, r < M32))
        return r

    def memset(self, ex, S, d, v, n):
        if d.local is None or not z3.is_int_value(n) or not z3.is_int_value(v) or v.as_long() != 0:
            raise Unsupported('memset')
        lay = {12: [(0, 'i32'), (4, 'ptr')], 8: [(0, 'i32'), (4, 'i16'), (6, 'i16')],
               56: [(0, 'ptr'), (8, 'i32'), (16, 'ptr'), (24, 'i64'), (32, 'ptr'), (40, 'i64'), (48, 'i32')]}.get(n.as_long())
        if lay is None:
            raise Unsupported('memset')
        for o, ty in lay:
            ex.raw_store(S, Ptr(d.base, d.off + o, d.cls, d.idx, d.local), ty, Ptr(IntVal(0), 0, None) if ty == 'ptr' else IntVal(0))

    def inheap(self, S, t):
        return Select(S.get(self.ki), t) < (1 << 31)

    def c(self, S, k, t):
        return Select(S.get(k), t)

    def core(self, S, k):
        return Select(S.get(k), CORE)

    def woken(self, s):
        return isin(s, (self.READY, self.CLOSING))

    # ---- invariants ------------------------------------------------------------------
    def tinv(self, S, x):
        """of one task"""
        g = S.ghost
        t, s, gd, cl, r = Select(g['tok'], x), self.c(S, self.ks, x), self.c(S, self.kg, x), Select(g['clo'], x), Select(g['reg'], x)
        core = isin(t, INCORE)
        return And(0 <= t, t <= 10, 0 <= cl, cl <= 2,
                   Implies(t != OTHER, And(x > 0, self.c(S, self.kc, x) == CORE, 0 <= s, s <= 4, (t == P) == (s == self.WAITING), 0 <= gd, gd <= 1,
                                           Implies(cl != 0, And(gd != 0, s != self.CLOSING, s != self.CLOSED)), Implies(gd == 0, cl == 0),
                                           Implies(And(gd != 0, cl == 0), isin(s, (self.CLOSING, self.CLOSED))), Implies(gd == 0, s <= self.READY))),
                   Implies(isin(t, (RQ, RL)), isin(s, (self.READY, self.CLOSING, self.CLOSED))), Implies(t == OWE, self.woken(s)),
                   Implies(isin(t, (F, CH, PEND, P)), s != self.CLOSED),
                   Implies(core, And(self.c(S, self.kq, x) == 1, self.c(S, self.ksub, x) > 0)),
                   Implies(t == U, self.c(S, self.kq, x) == 0),
                   Implies(And(core, t != HAND), And(self.c(S, self.kcl, x) == If(s == self.CLOSED, 1, 0), r == (self.c(S, self.kso, x) != NOSOCK))),
                   Implies(r, And(t != OTHER, s != self.CLOSED)),
                   Implies(And(Not(r), t != HAND, t != OTHER), self.c(S, self.kp, x) == 0))

    def inv(self, S, E=None):
        g = S.ghost
        pats = [Select(g['tok'], x), self.c(S, self.ks, x), Select(g['clo'], x), Select(g['reg'], x), self.c(S, self.kp, x)]
        return [('places', ForAll([x], self.tinv(S, x), patterns=pats)), ('flag', And(0 <= self.core(S, self.kflag), self.core(S, self.kflag) <= 1, Implies(g['locked'], self.core(S, self.kflag) == 1)))]

    def up(self, s0, s):
        return Or(s == s0, And(s0 == self.PENDING, self.woken(s)), And(s0 == self.READY, s == self.CLOSING))

    def rely(self, S0, S):
        g0, g = S0.ghost, S.ghost
        t0, t = Select(g0['tok'], x), Select(g['tok'], x)
        s0, s = self.c(S0, self.ks, x), self.c(S, self.ks, x)
        r0, r = Select(g0['reg'], x), Select(g['reg'], x)
        same = lambda ks: And(*[self.c(S, k, x) == self.c(S0, k, x) for k in ks])
        lk = g0['locked']
        pats = [t, s, r, Select(g['clo'], x), self.c(S, self.kg, x)] + [self.c(S, k, x) for k in self.env_cells]
        return [('steps of the others', ForAll([x], And(
            Implies(isin(t0, MINE), And(t == t0, self.up(s0, s))), Implies(isin(t, MINE), t == t0),
            Implies(isin(t0, MINE), And(same(self.own), r == r0)),
            Implies(And(x == g0['mine'], t0 != OTHER), t != OTHER),
            Implies(And(t0 == RUN, Not(r0)), same((self.kp,))),
            Implies(And(lk, t0 != OTHER, Or(r0, t0 != U)), same((self.kp,))), Implies(And(lk, r0), r),
            Implies(And(lk, t == P), t0 == P),
            Implies(And(lk, isin(t0, (F, P))), And(Or(t == t0, t == F), If(t0 == F, self.up(s0, s), Or(s == s0, self.woken(s))), same(self.own[1:]), r == r0)),
            (Select(g['clo'], x) == 2) == (Select(g0['clo'], x) == 2), Implies(Select(g0['clo'], x) == 2, self.c(S, self.kg, x) == 1),
        ), patterns=pats))]

    def jinv(self, S):
        """while this thread is the scheduling one"""
        g = S.ghost
        t, d = Select(g['tok'], x), Select(S.get(self.kd), x)
        s, ix = Select(S.get(self.ks), x), Select(S.get(self.ki), x)
        return [
            ('counters', And(g['hn'] >= 0, g['pn'] >= 0, g['rn'] >= 0, g['chn'] >= 0, Implies(g['hn'] > 0, And(g['top'] > 0, self.inheap(S, g['top']))))),
            ('the waiting queue keeps only tasks with a deadline which are parked or on their way to the scheduler',
             ForAll([x], And(Or(self.inheap(S, x), ix == NOIDX), Implies(self.inheap(S, x), And(
                 g['hn'] > 0, isin(t, (P, F, CH, PEND, HAND)), s != self.PENDING, d != INF, Select(S.get(self.kd), g['top']) <= d))), patterns=[ix])),
            ('a parked task with a deadline is in the waiting queue', ForAll([x], Implies(And(t == P, d != INF), self.inheap(S, x)), patterns=[t, ix])),
            ('a parked task has no events', ForAll([x], Implies(t == P, self.c(S, self.kp, x) == 0), patterns=[t])),
            ('pending tasks are counted', ForAll([x], And(Implies(t == PEND, g['pn'] > 0), Implies(t == CH, g['chn'] > 0), Implies(t == RL, g['rn'] > 0)), patterns=[t])),
        ]

    def released(self, S):
        g = S.ghost
        t = Select(g['tok'], x)
        return [('no task is forgotten', ForAll([x], And(t != HAND, t != RL, t != CH), patterns=[t]))]

    def rl(self, S):
        g = S.ghost
        t, d, e = Select(g['tok'], x), Select(S.get(self.kd), x), Select(S.get(self.ke), x)
        return [('tasks chosen to run are woken or expired', ForAll([x], Implies(t == RL, And(
            Not(self.inheap(S, x)), Implies(e != 0, d <= g['now']), Implies(e == 0, d > g['ts0']))), patterns=[t]))]

    # ---- plain accesses --------------------------------------------------------------
    def alive(self, ex, S, p):
        if p.cls == 'Task':
            ex.prove(S, Select(S.ghost['tok'], p.base) != OTHER, 'a task is not touched after it may be deleted', ex.cur_loc, 'race')

    def on_access(self, ex, S, p, what):
        g = S.ghost
        if p.cls == 'Evs':
            g['ki'] = p.idx if p.idx is not None else IntVal(0)
            return
        if p.cls != 'Task' or p.local is not None or p.off in (self.ks[1], self.kg[1], self.kc[1]):
            return
        t = Select(g['tok'], p.base)
        if p.off == self.kp[1]:
            ok = Or(And(g['locked'], Or(Select(g['reg'], p.base), isin(t, HELD))), And(t == RUN, Not(Select(g['reg'], p.base))))
        else:
            lk = [And(g['locked'], isin(t, HELD))]
            if p.off in (self.kd[1], self.ki[1]):
                lk.append(And(g['locked'], isin(t, (P, F))))
            if p.off in (self.kn[1], self.kq[1]):
                lk.append(t == OWE)
            ok = Or(t == RUN, *lk)
        ex.prove(S, ok, 'a task is touched only by its owner (%s)' % what, ex.cur_loc, 'race')

    def sethand(self, S, t):
        g = S.ghost
        g['tok'] = Store(g['tok'], t, IntVal(HAND))
        g['hand'] = t
        g['hr'], g['hp'], g['hs'] = self.c(S, self.kr, t), self.c(S, self.kp, t), self.c(S, self.kso, t)
        g['sclosed'], g['acq'] = IntVal(0), IntVal(0)

    def wrote(self, ex, S, pre, p, old, new, order, op):
        # a step changes one task only, the invariant of the others stays
        self.on_write(ex, S, pre, p, old, new, order, op)
        if p.cls == 'Task':
            self.ck(ex, S, p.base, '%s: the task' % op)
        else:
            ex.prove(S, self.inv(S)[1][1], '%s keeps invariant: flag' % op, ex.cur_loc, 'invariant')

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        key = (p.cls, p.off)
        role = getattr(ex.contract, 'role', None)
        G = lambda f, what: ex.prove(S, f, what, ex.cur_loc, 'guarantee')
        if key == self.kflag[:2]:
            if role == 'start':
                G(And(new == 1, Not(g['locked'])), 'the scheduling role is taken')
                self.order(ex, S, order, 'acquire', 'the new scheduler sees what the previous one did')
                ok = fresh('lk', B)
                ex.assume(S, ok == (old == 0))
                g['locked'] = ok
            elif role == 'end':
                G(And(new == 0, g['locked'], old == 1), 'the scheduling role is left by the one who has it')
                self.order(ex, S, order, 'release', 'the next scheduler sees what this one did')
                for lab, f in self.jinv(S) + self.released(S):
                    G(f, 'scheduling is over: ' + lab)
                g['locked'] = BoolVal(False)
                g['unlocked'] = g['unlocked'] + 1
                g['rsig'] = IntVal(0)
            else:
                G(BoolVal(False), 'the scheduling flag is not changed here')
            return
        if key == self.kcount[:2]:
            if role == 'exec':
                G(And(new == (old + M32 - 1) % M32, g['dec'] == 0, g['ran'] == 1), 'a finished task is uncounted once, after its last event')
                self.order(ex, S, order, 'release', 'who sees that there are no tasks sees what they did')
                g['dec'] = g['dec'] + 1
            elif role == 'attach':
                G(And(new == (old + 1) % M32, g['inc'] == 0, g['pushes'] == 0), 'a new task is counted once, before it becomes visible')
                g['inc'] = g['inc'] + 1
            else:
                G(BoolVal(False), 'the number of tasks is not changed here')
            return
        if key == self.kstate[:2]:
            G(BoolVal(False), 'the state of the core is not changed here')
            return
        st = p.base
        self.alive(ex, pre, p)
        t = Select(g['tok'], p.base)
        if key == self.kg[:2]:
            if role == 'closer':
                G(And(new == 1, st == g['cur'], g['guards'] == 0), 'the closing is tried once')
                ex.prove(S, Select(g['clo'], st) != 2, 'not closing yet', ex.cur_loc, 'guarantee')
                nc = fresh('clo', I)
                ex.assume(S, nc == If(old == 0, IntVal(2), Select(g['clo'], st)))
                g['clo'] = Store(g['clo'], st, nc)
                g['guards'] = g['guards'] + 1
            elif role == 'attach':
                G(And(new == 0, Select(g['clo'], st) == 2, t == RUN, self.c(S, self.kcl, st) == 0), 'a re-created task can be closed again when it is ready for that')
                g['clo'] = Store(g['clo'], st, IntVal(0))
            elif role == 'create':
                G(And(t == RUN, new == 0), 'a new task is not closed')
                g['clo'] = Store(g['clo'], st, IntVal(0))
            else:
                G(BoolVal(False), 'the close guard is not changed here')
            return
        d = self.c(S, self.kd, p.base)
        if role == 'sched':
            pe = self.c(S, self.kp, st)
            due = Or(pe != 0, d <= g['now'])
            park = And(t == HAND, old == self.PENDING, new == self.WAITING, d > g['ts0'], pe == 0)
            exp = And(t == P, old == self.WAITING, new == self.READY, due)
            rdy = And(t == HAND, old == self.PENDING, new == self.READY, due)
            cls = And(t == HAND, old == self.CLOSING, new == self.CLOSED, st == g['hand'])
            G(Or(park, exp, rdy, cls), 'the scheduler parks an idle task, wakes a task which has events or expired, or finishes a closing')
            if ex.quick(S, cls):
                if order not in ('acquire', 'acq_rel', 'seq_cst'):
                    G(g['acq'] == st, 'the one who closes a task sees what the closing thread did (acquire)')
                G(And(Not(Select(g['reg'], st)), self.c(S, self.kso, st) == NOSOCK, Or(g['hs'] == NOSOCK, g['sclosed'] == st)), 'a closed task is out of the kernel and its socket is closed')
            elif ex.quick(S, park):
                self.order(ex, S, order, 'release', 'parking a task: wakers see its members')
                G(g['hand'] == st, 'the parked task is the one in hands')
                ex.prove(S, Or(self.c(S, self.kr, st) == g['hr']), 'a parked task keeps its events', ex.cur_loc, 'guarantee')
                g['tok'] = Store(g['tok'], st, IntVal(P))
            elif ex.quick(S, exp):
                self.sethand(S, st)
        elif role == 'waker':
            G(And(new == self.READY, Or(old == self.PENDING, old == self.WAITING)), 'a wakeup never hides a closing and changes nothing else')
            self.woke(ex, S, st, t, old, order)
        elif role == 'closer':
            G(And(new == self.CLOSING, Select(g['clo'], st) == 2, isin(old, (self.PENDING, self.WAITING, self.READY)), st == g['cur']), 'the closing is requested by the one who started it, once')
            self.order(ex, S, order, 'release', 'the one who closes the task sees what the closing thread did')
            g['clo'] = Store(g['clo'], st, IntVal(0))
            self.woke(ex, S, st, t, old, order)
        elif role == 'exec':
            G(And(t == RUN, g['ran'] == 0, old == self.READY, new == self.PENDING), 'the executor takes the wakeup which led to the execution, before it')
            g['wrote'] = g['wrote'] + 1
        elif role == 'attach':
            G(And(t == RUN, old == self.CLOSED, new == self.PENDING, self.c(S, self.kg, st) == 1, Select(g['clo'], st) == 0), 'a closed task is re-created by its owner')
            g['clo'] = Store(g['clo'], st, IntVal(2))
        elif role == 'create':
            G(And(t == RUN, new == self.PENDING), 'a new task is pending')
        else:
            G(BoolVal(False), 'the status is not changed here')

    def woke(self, ex, S, st, t, old, order):
        g = S.ghost
        g['wrote'] = g['wrote'] + 1
        g['over'] = old
        if order not in ('acquire', 'acq_rel', 'seq_cst'):
            ex.prove(S, old != self.WAITING, 'the waker of a parked task sees its members (acquire)', ex.cur_loc, 'order')
        tk = fresh('tk', I)
        ex.assume(S, tk == If(old == self.WAITING, OWE, t))
        g['tok'] = Store(g['tok'], st, tk)
        g['mine'] = If(old == self.WAITING, st, 0)

    def on_read(self, ex, S, p, val, order):
        self.alive(ex, S, p)
        g = S.ghost
        if (p.cls, p.off) == self.ks[:2]:
            g['seen'] = val
            if order in ('acquire', 'acq_rel', 'seq_cst'):
                a = fresh('acq', I)
                ex.assume(S, a == If(val == self.CLOSING, p.base, g['acq']))
                g['acq'] = a
        elif (p.cls, p.off) == self.kstate[:2]:
            g['isrun'] = val == self.k('cs_running')
        elif (p.cls, p.off) == self.kcount[:2]:
            self.count_read(ex, S, val, order)

    def count_read(self, ex, S, val, order):
        pass

    def on_cas_fail(self, ex, S, p, val, order):
        self.alive(ex, S, p)
        if (p.cls, p.off) == self.ks[:2]:
            S.ghost['seen'] = val

    # ---- primitives ------------------------------------------------------------------
    def here(self, ex, S, p, off, what):
        ex.prove(S, And(p.base == CORE, BoolVal(p.local is None and p.off == self.off[off])), 'is the core\'s own: ' + what, ex.cur_loc, 'call-pre')

    def under(self, ex, S, what):
        ex.prove(S, S.ghost['locked'], '%s in the scheduling role' % what, ex.cur_loc, 'race')

    def retok(self, ex, S, fn):
        """tok'[x] = fn(x, tok[x])"""
        old = S.ghost['tok']
        new = fresh('tok', ARR)
        ex.assume(S, ForAll([x], Select(new, x) == fn(x, Select(old, x)), patterns=[Select(new, x)]))
        ex.assume(S, ForAll([x], Select(new, x) == fn(x, Select(old, x)), patterns=[Select(old, x)]))
        S.ghost['tok'] = new

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def h_other(self, ex, ctx, S, v, ins):
        raise Unsupported('no contract for this call here: ' + ins.text[:200] if hasattr(ins, 'text') else 'call')

    def h_send(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 'c_sigready', 'ready signal')
        S.ghost['rsig'] = S.ghost['rsig'] + 1

    def h_recv(self, ex, ctx, S, v, ins):
        raise Unsupported('nobody waits for the ready signal here')

    h_sleep = h_recv

    def h_unref(self, ex, ctx, S, v, ins):
        ex.prove(S, v[-1].base == 0, 'references to the subscription are not changed here', ex.cur_loc, 'guarantee')

    def h_ref(self, ex, ctx, S, v, ins):
        ex.prove(S, ex.raw_load(S, v[0], 'ptr').base == 0, 'references to the subscription are not changed here', ex.cur_loc, 'guarantee')

    def h_eventfd_write(self, ex, ctx, S, v, ins):
        ex.prove(S, And(v[0] == self.core(S, self.kevfd), v[1] > 0), 'the scheduler is told via its eventfd', ex.cur_loc, 'call-pre')
        S.ghost['fsig'] = S.ghost['fsig'] + 1
        return IntVal(0)

    def h_epoll_wait(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.under(ex, S, 'events are taken from the kernel')
        ex.prove(S, And(v[0] == self.core(S, self.knat), v[2] > 0, v[2] <= 1024, v[3] == 0), 'takes what the kernel has now, without blocking', ex.cur_loc, 'call-pre')
        ex.prove(S, self.handled(S), 'the previous events are handled', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        b = v[1].base
        if v[1].cls != 'Evs':
            raise Unsupported('events are returned to an unknown array')
        n = fresh('evn', I)
        for k in (self.kevp, self.keve):
            S.havoc(k)
        j = Int('j_e')
        e = Select(Select(S.get(self.kevp), b), j)
        m = Select(Select(S.get(self.keve), b), j)
        ex.assume(S, And(n >= -1, n <= v[2]))
        ex.assume(S, ForAll([j], Implies(And(0 <= j, j < n), And(Or(e == 0, And(e > 0, Select(g['reg'], e))), m > 0, m < M32)), patterns=[e, m]))
        g['mg'] = z3.K(I, BoolVal(False))
        en = fresh('evn', I)
        ex.assume(S, And(en == If(n < 0, 0, n), en <= 1024))
        g['evn'] = en
        self.evb = b
        g['popped'] = IntVal(0)
        g['isrun'] = BoolVal(False)
        r = fresh('evc', I)
        ex.assume(S, And(r == If(n < 0, M32 - 1, n)))
        return r

    def h_errno(self, ex, ctx, S, v, ins):
        b = fresh('errno', I)
        ex.assume(S, And(b > 0, Select(S.get(('Err', 0, 'i32')), b) == self.k('k_eintr')))
        return Ptr(b, 0, 'Err')

    def ev(self, S, j):
        return Select(Select(S.get(self.kevp), self.evb), j), Select(Select(S.get(self.keve), self.evb), j)

    def shared_store(self, ex, S, p, ty, v, order):
        g = S.ghost
        if p.cls == 'Task' and p.local is None and p.off == self.kp[1] and getattr(ex.contract, 'role', None) == 'sched':
            old = ex.raw_load(S, p, ty)
            if not (z3.is_int_value(v) and v.as_long() == 0) and hasattr(self, 'evb'):
                t, e = self.ev(S, g['ki'])
                ex.prove(S, And(p.base == t, v == IOR(old, e), 0 <= g['ki'], g['ki'] < g['evn']), 'kernel events are added to those which the task already has', ex.cur_loc, 'guarantee')
                g['mg'] = Store(g['mg'], g['ki'], BoolVal(True))
            else:
                ex.prove(S, And(v == 0, Select(g['tok'], p.base) == HAND), 'events of a task are taken when it is in the scheduler\'s hands', ex.cur_loc, 'guarantee')
        return RG.shared_store(self, ex, S, p, ty, v, order)

    def h_epoll_ctl(self, ex, ctx, S, v, ins):
        g = S.ghost
        role = getattr(ex.contract, 'role', None)
        t = g['hand'] if role == 'sched' else g['cur']
        so = self.c(S, self.kso, t)
        ex.prove(S, And(v[0] == self.core(S, self.knat), v[2] == so, so != NOSOCK), 'the socket of the task in the core\'s epoll', ex.cur_loc, 'call-pre')
        if z3.is_int_value(v[1]) and v[1].as_long() == self.k('k_add'):
            ev = ex.raw_load(S, Ptr(v[3].base, v[3].off, v[3].cls, v[3].idx, v[3].local), 'i32')
            d = ex.raw_load(S, Ptr(v[3].base, v[3].off + 4, v[3].cls, v[3].idx, v[3].local), 'ptr')
            bits = ev.as_long() if z3.is_int_value(ev) else 0
            ex.prove(S, And(d.base == t, BoolVal(d.off == 0), BoolVal(bits & self.MASK == self.MASK)), 'the kernel reports all the events of the socket, with the task', ex.cur_loc, 'guarantee')
            ex.prove(S, And(Select(g['tok'], t) == RUN, Not(Select(g['reg'], t)), self.c(S, self.kp, t) == 0, self.c(S, self.ks, t) != self.CLOSED), 'a task gets into the kernel once, by its owner', ex.cur_loc, 'guarantee')
            g['reg'] = Store(g['reg'], t, BoolVal(True))
        elif z3.is_int_value(v[1]) and v[1].as_long() == self.k('k_del'):
            ex.prove(S, And(g['locked'], Select(g['tok'], t) == HAND, Select(g['reg'], t), self.c(S, self.ks, t) == self.CLOSING), 'a task is removed from the kernel by the scheduler when it is being closed', ex.cur_loc, 'guarantee')
            g['reg'] = Store(g['reg'], t, BoolVal(False))
        else:
            raise Unsupported('epoll_ctl operation')
        self.interfere(ex, S)
        return IntVal(0)

    def h_sockclose(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = g['hand']
        ex.prove(S, And(g['locked'], Select(g['tok'], t) == HAND, v[0] == self.c(S, self.kso, t), v[0] != NOSOCK, self.c(S, self.ks, t) == self.CLOSING), 'the socket of a task which is being closed is closed', ex.cur_loc, 'guarantee')
        ex.prove(S, And(Not(Select(g['reg'], t)), g['sclosed'] != t), 'once, after it is out of the kernel', ex.cur_loc, 'guarantee')
        g['sclosed'] = t
        self.interfere(ex, S)

    def h_poll(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.under(ex, S, 'waits for the kernel')
        for lab, f in self.jinv(S) + self.released(S):
            ex.prove(S, f, 'going to sleep: ' + lab, ex.cur_loc, 'invariant')
        fd = ex.raw_load(S, v[0], 'i32')
        evs = ex.raw_load(S, Ptr(v[0].base, v[0].off + 4, v[0].cls, v[0].idx, v[0].local), 'i16')
        ex.prove(S, And(v[1] == 1, fd == self.core(S, self.knat), evs % 2 == 1 if self.k('k_pollin') == 1 else BoolVal(False)), 'waits for the core\'s epoll', ex.cur_loc, 'call-pre')
        ex.prove(S, And(Not(g['unfl']), g['rcount'] == 0, g['pn'] == 0, g['popped'] >= 1, self.handled(S)), 'sleeps only when nothing is ready or pending, and the front queue was emptied after the last look into the kernel', ex.cur_loc, 'guarantee')
        ex.prove(S, g['isrun'], 'sleeps only when the core was seen running after the last look into the kernel', ex.cur_loc, 'guarantee')
        d = Select(S.get(self.kd), g['top'])
        ex.prove(S, Implies(g['hn'] > 0, And(v[2] < (1 << 31), v[2] + g['now'] <= d)), 'sleeps not longer than until the nearest deadline', ex.cur_loc, 'guarantee')
        g['slept'] = g['slept'] + 1
        self.interfere(ex, S)
        return fresh('poll', I)

    def h_now(self, ex, ctx, S, v, ins):
        g = S.ghost
        n = fresh('now', I)
        ex.assume(S, And(n >= g['now'], n > 0, n < (1 << 63)))
        g['ts0'] = If(g['now'] == 0, n, g['ts0'])
        g['now'] = n
        return n

    # waiting queue
    def heap(self, ex, S, p, what):
        self.here(ex, S, p, 'c_waiting', 'waiting queue')
        self.under(ex, S, 'the waiting queue is used')

    def newtop(self, ex, S):
        g = S.ghost
        g['top'] = fresh('top', I)
        t = g['top']
        ex.assume(S, And(g['hn'] >= 0, Implies(g['hn'] > 0, And(t > 0, self.inheap(S, t)))))
        ix = Select(S.get(self.ki), x)
        ex.assume(S, ForAll([x], Implies(self.inheap(S, x), And(g['hn'] > 0, Select(S.get(self.kd), t) <= Select(S.get(self.kd), x))), patterns=[ix]))

    def reindex(self, ex, S, who, val):
        """positions of the members may change, the membership only of `who`"""
        old = S.get(self.ki)
        S.havoc(self.ki)
        new = S.get(self.ki)
        ex.assume(S, ForAll([x], And(Implies(x != who, And((Select(new, x) < (1 << 31)) == (Select(old, x) < (1 << 31)), Implies(Select(old, x) >= (1 << 31), Select(new, x) == Select(old, x)))),
                                     0 <= Select(new, x), Select(new, x) < (1 << 32)), patterns=[Select(new, x)]))
        ex.assume(S, Select(new, who) == NOIDX if val is None else Select(new, who) < (1 << 31))
        self.newtop(ex, S)

    def h_hcount(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'Count')
        ex.assume(S, S.ghost['hn'] < (1 << 32))
        return S.ghost['hn']

    def h_htop(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'GetTop')
        g = S.ghost
        ex.prove(S, g['hn'] > 0, 'the waiting queue is not empty', ex.cur_loc, 'call-pre')
        b = fresh('slot', I)
        ex.assume(S, And(b > 0, S.ld('Slot', 0, 'ptr', b) == g['top']))
        return Ptr(b, 0, 'Slot')

    def h_hremtop(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'RemoveTop')
        g = S.ghost
        ex.prove(S, g['hn'] > 0, 'the waiting queue is not empty', ex.cur_loc, 'call-pre')
        d = Select(S.get(self.kd), g['top'])
        ex.prove(S, d <= g['now'], 'only an expired task leaves the waiting queue by itself', ex.cur_loc, 'guarantee')
        g['hn'] = g['hn'] - 1
        g['hpops'] = g['hpops'] + 1
        self.reindex(ex, S, g['top'], None)
        return BoolVal(True) if ins.dst else None

    def h_hpush(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'Push')
        g = S.ghost
        t = ex.raw_load(S, v[1], 'ptr').base
        ex.prove(S, And(Not(self.inheap(S, t)), t > 0), 'the task is not in the waiting queue yet', ex.cur_loc, 'call-pre')
        ex.prove(S, isin(Select(g['tok'], t), (P, F)), 'a task goes to the waiting queue after it is parked', ex.cur_loc, 'guarantee')
        g['hn'] = g['hn'] + 1
        self.reindex(ex, S, t, 1)

    def h_hremove(self, ex, ctx, S, v, ins):
        self.heap(ex, S, v[0], 'Remove')
        g = S.ghost
        t = ex.raw_load(S, v[1], 'ptr').base
        ex.prove(S, And(self.inheap(S, t), g['hn'] > 0), 'the task is in the waiting queue', ex.cur_loc, 'call-pre')
        ex.prove(S, Select(g['tok'], t) == HAND, 'a waiting task is removed when it is in the scheduler\'s hands', ex.cur_loc, 'guarantee')
        g['hn'] = g['hn'] - 1
        self.reindex(ex, S, t, None)
        return BoolVal(True) if ins.dst else None

    # lists: the scheduler's pending one, and local ones
    def pend(self, ex, S, p):
        self.here(ex, S, p, 'c_pending', 'pending list')
        self.under(ex, S, 'the pending list is used')

    def h_lempty(self, ex, ctx, S, v, ins):
        if v[0].local is not None:
            return S.ghost['rn'] == 0
        self.pend(ex, S, v[0])
        return S.ghost['pn'] == 0

    def h_popfirst(self, ex, ctx, S, v, ins):
        g = S.ghost
        if v[0].local is not None:
            raise Unsupported('PopFirst of a local list')
        self.pend(ex, S, v[0])
        ex.prove(S, g['pn'] > 0, 'the pending list is not empty', ex.cur_loc, 'call-pre')
        t = fresh('pend', I)
        ex.assume(S, And(t > 0, Select(g['tok'], t) == PEND))
        self.sethand(S, t)
        g['pn'] = g['pn'] - 1
        g['proc'] = g['proc'] + 1
        # the count is the number of tasks which are there
        ex.assume(S, ForAll([x], Implies(Select(g['tok'], x) == PEND, g['pn'] > 0), patterns=[Select(g['tok'], x)]))
        return Ptr(t, 0, 'Task')

    def h_append(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        if v[0].local is None:
            raise Unsupported('Append of one task to the pending list')
        ex.prove(S, Select(g['tok'], t) == HAND, 'a task chosen to run is in the scheduler\'s hands', ex.cur_loc, 'guarantee')
        s, r = self.c(S, self.ks, t), self.c(S, self.kr, t)
        ex.prove(S, And(t == g['hand'], isin(s, (self.READY, self.CLOSING, self.CLOSED))), 'a task chosen to run is marked so', ex.cur_loc, 'guarantee')
        ex.prove(S, And(self.c(S, self.kp, t) == 0, r == If(s == self.CLOSED, 0, self.ior(ex, S, g['hr'], g['hp']))), 'a task gets all its kernel events, or none when it is closed', ex.cur_loc, 'guarantee')
        ex.prove(S, Not(self.inheap(S, t)), 'a task chosen to run is not in the waiting queue', ex.cur_loc, 'guarantee')
        e, d = Select(S.get(self.ke), t), Select(S.get(self.kd), t)
        ex.prove(S, Implies(e != 0, d <= g['now']), 'IsExpired is not reported before the deadline', ex.cur_loc, 'guarantee')
        ex.prove(S, Implies(e == 0, d > g['ts0']), 'IsExpired is reported after the deadline', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(RL))
        self.ck(ex, S, t, 'a task chosen to run')
        g['rn'] = g['rn'] + 1
        S.havoc_at(self.kn, t) if hasattr(S, 'havoc_at') else S.set(self.kn, Store(S.get(self.kn), t, fresh('lnk', I)))

    def h_appendrange(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.pend(ex, S, v[0])
        ex.prove(S, And(v[1].base == g['chh'], v[2].base == g['cht'], g['popped'] > 0), 'exactly the popped tasks become pending', ex.cur_loc, 'guarantee')
        self.retok(ex, S, lambda y, t: If(t == CH, IntVal(PEND), t))
        g['pn'] = g['pn'] + g['chn']
        g['chn'] = IntVal(0)

    def h_lpopall(self, ex, ctx, S, v, ins):
        g = S.ghost
        if v[0].local is None:
            raise Unsupported('PopAll of the pending list')
        T, tp, n = fresh('T', ARR), fresh('tpos', ARR), g['rn']
        S.havoc(self.kn) if False else None
        nx0 = S.get(self.kn)
        S.havoc(self.kn)
        nx, tok = S.get(self.kn), g['tok']
        k = Int('k_t')
        e = Select(T, k)
        ex.assume(S, ForAll([k], Implies(And(0 <= k, k < n), And(e > 0, Select(tok, e) == RL, Select(tp, e) == k, Select(nx, e) == If(k + 1 < n, Select(T, k + 1), 0))), patterns=[e]))
        ex.assume(S, ForAll([x], Implies(Select(tok, x) == RL, And(0 <= Select(tp, x), Select(tp, x) < n, Select(T, Select(tp, x)) == x)), patterns=[Select(tok, x)]))
        ex.assume(S, ForAll([x], Implies(Select(tok, x) != RL, Select(nx, x) == Select(nx0, x)), patterns=[Select(nx, x)]))
        g['T'], g['tpos'], g['Tn'] = T, tp, n
        g['rn'] = IntVal(0) + n
        r = If(n == 0, 0, Select(T, 0))
        c = fresh('chain', I)
        ex.assume(S, c == r)
        g['chh'] = c
        self.chain0 = c
        return Ptr(c, 0, 'Task')

    # queues
    def h_mpopall(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], 'c_front', 'front queue')
        self.under(ex, S, 'the front queue is popped')
        ex.prove(S, g['chn'] == 0, 'one chain at a time', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        got = fresh('got', ARR)
        n, h, t = fresh('chn', I), fresh('chh', I), fresh('cht', I)
        ex.assume(S, And(n >= 0, (n == 0) == (h == 0), (n == 0) == (t == 0), h >= 0, t >= 0))
        old = g['tok']
        new = fresh('tok', ARR)
        a, b = Select(old, x), Select(new, x)
        f = And(Or(b == a, And(a == F, b == CH, n > 0)))
        ex.assume(S, ForAll([x], f, patterns=[b]))
        ex.assume(S, ForAll([x], f, patterns=[a]))
        g['tok'] = new
        g['chn'], g['chh'], g['cht'] = n, h, t
        g['popped'] = g['popped'] + 1
        ex.raw_store(S, v[1], 'ptr', Ptr(t, 0, 'Task'))
        return Ptr(h, 0, 'Task')

    def h_mpush(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        self.here(ex, S, v[0], 'c_front', 'front queue')
        ex.prove(S, isin(Select(g['tok'], t), (RUN, OWE)), 'a task is pushed by the one who has the right to', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(F))
        g['pushes'] = g['pushes'] + 1
        g['pres'] = fresh('pres', B)
        g['dl'] = Select(S.get(self.kd), t)
        self.ck(ex, S, t, 'a pushed task')
        g['mine'] = IntVal(0)
        r = g['pres']
        self.interfere(ex, S)
        return r

    def h_pushpending(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        self.here(ex, S, v[0], 'c_ready', 'ready queue')
        self.under(ex, S, 'tasks become ready')
        ex.prove(S, Select(g['tok'], t) == RL, 'a task becomes ready once, after it is chosen to run', ex.cur_loc, 'guarantee')
        g['tok'] = Store(g['tok'], t, IntVal(RQ))
        g['unfl'] = BoolVal(True)
        g['rcount'] = IntVal(-1)
        return fresh('pp', B) if ins.dst else None

    def h_flush(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 'c_ready', 'ready queue')
        self.under(ex, S, 'ready tasks are flushed')
        S.ghost['unfl'] = BoolVal(False)
        return fresh('fp', B) if ins.dst else None

    def h_rcount(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0], 'c_ready', 'ready queue')
        n = fresh('rcount', I)
        ex.assume(S, And(n >= 0, n < (1 << 32)))
        S.ghost['rcount'] = n
        return n


    def ck(self, ex, S, t, what):
        ex.prove(S, self.tinv(S, t), '%s is in order' % what, ex.cur_loc, 'invariant')

    def handled(self, S):
        if not hasattr(self, 'evb'):
            return S.ghost['evn'] == 0
        j = Int('j_e')
        e, _ = self.ev(S, j)
        return ForAll([j], Implies(And(0 <= j, j < S.ghost['evn']), Or(e == 0, Select(S.ghost['mg'], j))), patterns=[e])


class C(RCon):
    role = None
    zero = ('rsig', 'fsig', 'pushes', 'unlocked', 'ran', 'wrote', 'slept', 'evn', 'inc', 'dec', 'subs', 'guards', 'acq')
    where = None
    free = True

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        r = [('counters', And(*[g[n] == 0 for n in self.zero])), ('seen', g['seen'] == -1), ('core', And(CORE > 0, TLS > 0, Not(g['isrun']))), ('ints', sp.core(E.S, sp.knat) < (1 << 31))] + sp.inv(E.S)
        if self.free:
            r.append(('lock', Not(g['locked'])))
        if self.where is not None:
            r.append(('the task', And(self.t(E) > 0, isin(Select(g['tok'], self.t(E)), self.where), g['cur'] == self.t(E))))
        return r + self.more(E)

    def t(self, E):
        return E.b('this')

    def more(self, E):
        return []

    def same(self, E, keep):
        t = self.t(E)
        return [('other members unchanged', And(*[Select(E.S.get(k), t) == Select(E.S0.get(k), t) for k in keep]))]


def lock_inv(E):
    sp = E.ex.spec
    g = E.S.ghost
    return sp.inv(E.S) + sp.jinv(E.S) + sp.rl(E.S) + [('locked', And(g['locked'], g['unlocked'] == 0, g['fsig'] == 0, g['slept'] == 0, g['popped'] >= 1, g['chn'] == 0, Not(g['unfl']), g['wrote'] == 0)),
        ('time', And(g['now'] > 0, g['ts0'] > 0, g['ts0'] <= g['now'], g['now'] < (1 << 63))), ('places', no_tok(E, (HAND, CH)))]


def untouched_phis(E):
    return And(*([E.phis[d] == v for d, v in E.phi0.items() if not isinstance(v, Ptr) and not z3.is_bool(v)] or [BoolVal(True)]))


def no_tok(E, vals):
    t = Select(E.S.ghost['tok'], x)
    return ForAll([x], And(*[t != v for v in vals]), patterns=[t])


def kern_inv(E):
    g = E.S.ghost
    sp = E.ex.spec
    j = Int('j_e')
    e, m = sp.ev(E.S, j)
    i = E.r['i']
    return lock_inv(E) + [('counts', And(g['proc'] == 0, g['hpops'] == 0, 0 <= i, i <= g['evn'], g['evn'] <= 1024)),
                          ('handled events', ForAll([j], Implies(And(0 <= j, j < i), Or(e == 0, Select(g['mg'], j))), patterns=[e])),
                          ('other events', ForAll([j], Implies(And(0 <= j, j < g['evn']), And(Or(e == 0, And(e > 0, Select(g['reg'], e))), m > 0, m < M32)), patterns=[e, m]))]


def pend_inv(E):
    g = E.S.ghost
    return lock_inv(E) + [('no progress yet means all the tries are ahead', Implies(g['proc'] == 0, untouched_phis(E))),
                          ('counts', And(g['proc'] >= 0, g['hpops'] == 0))]


def wait_inv(E):
    g = E.S.ghost
    return lock_inv(E) + [('counts', And(g['hpops'] >= 0, g['proc'] == E.L.ghost['proc'], g['pn'] == E.L.ghost['pn'])),
                          ('no progress yet means all the tries are ahead', Implies(g['hpops'] == 0, untouched_phis(E)))]


def ready_inv(E):
    sp = E.ex.spec
    g = E.S.ghost
    cur = cursor(E, g['chh']).base
    T, tp, n = g['T'], g['tpos'], g['Tn']
    k = If(cur == 0, n, Select(tp, cur))
    nx = E.S.get(sp.kn)
    t = Select(g['tok'], x)
    j = Int('j_t')
    e = Select(T, j)
    return sp.inv(E.S) + sp.jinv(E.S) + [
        ('cursor', And(0 <= k, k <= n, Implies(cur != 0, And(k < n, cur > 0, Select(T, k) == cur)))),
        ('rest', ForAll([j], Implies(And(k <= j, j < n), And(e > 0, Select(g['tok'], e) == RL, Select(tp, e) == j, Not(sp.inheap(E.S, e)), Select(nx, e) == If(j + 1 < n, Select(T, j + 1), 0))), patterns=[e])),
        ('handed over', ForAll([x], Implies(t == RL, And(k <= Select(tp, x), Select(tp, x) < n, Select(T, Select(tp, x)) == x)), patterns=[t])),
        ('places', no_tok(E, (HAND, CH))),
        ('state', And(g['locked'], g['unlocked'] == 0, g['chn'] == 0, g['popped'] >= 1)),
    ]


class ScheduleDo(C):
    name = CO + r'PrivScheduleDo\(\)'
    label = 'IOCore::PrivScheduleDo'
    role = 'sched'
    free = False
    loops_in_order = True
    params = [('this', 'Core')]
    loops = [Loop({'i': 'i32'}, kern_inv, lambda E: E.S.ghost['evn'] - E.r['i']), Loop({}, pend_inv, lambda E: E.S.ghost['pn']), Loop({}, wait_inv, lambda E: E.S.ghost['hn']),
             Loop({}, ready_inv, lambda E: If(cursor(E, E.S.ghost['chh']).base == 0, 0, E.S.ghost['Tn'] - Select(E.S.ghost['tpos'], cursor(E, E.S.ghost['chh']).base)))]

    def more(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return sp.jinv(E.S) + sp.released(E.S) + [('batch', And(E.b('this') == CORE, sp.core(E.S, sp.kb) > 1)), ('scheduling', And(g['locked'], Not(g['unfl']))),
                                                  ('new attempt', And(*[g[n] == 0 for n in ('chn', 'rn', 'popped', 'hpops', 'proc', 'ts0', 'now', 'hand')])), ('not counted', g['rcount'] == -1)]

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('still scheduling', And(g['locked'], g['unlocked'] == 0, g['slept'] <= 1))] + sp.jinv(E.S) + sp.released(E.S) + [
            ('all the kernel events are handled', sp.handled(E.S)),
            ('all the ready tasks are visible to the workers', Not(g['unfl'])), ('the front queue was emptied', g['popped'] >= 1), ('pending tasks make progress', Or(g['pn'] == 0, g['proc'] >= 1)),
            ('expired tasks make progress', Or(g['hpops'] >= 1, g['slept'] >= 1, ForAll([x], Implies(sp.inheap(E.S, x), Select(E.S.get(sp.kd), x) > g['ts0']), patterns=[Select(E.S.get(sp.ki), x)]))),
            ('the scheduling role is kept only when there is nothing to execute', Or(E.ret, And(g['rcount'] == 0, g['pn'] == 0)))]


# ---- the scheduling role ----------------------------------------------------------------
class ScheduleStart(C):
    name = CO + r'PrivScheduleStart\(\)'
    label = 'IOCore::PrivScheduleStart'
    role = 'start'
    params = [('this', 'Core')]

    def more(self, E):
        return [('this', E.b('this') == CORE)]

    def post(self, E):
        return [('who got the role knows it', E.ret == E.S.ghost['locked'])]


class ScheduleEnd(C):
    name = CO + r'PrivScheduleEnd\(\)'
    label = 'IOCore::PrivScheduleEnd'
    role = 'end'
    free = False
    params = [('this', 'Core')]

    def more(self, E):
        sp = E.ex.spec
        return [('this', And(E.b('this') == CORE, E.S.ghost['locked']))] + sp.jinv(E.S) + sp.released(E.S)

    def post(self, E):
        g = E.S.ghost
        return [('the role is free', And(Not(g['locked']), g['unlocked'] == 1)), ('a worker is told after that', g['rsig'] >= 1)]


# ---- execution --------------------------------------------------------------------------
def exec_pre(sp, S, t):
    """of a task which is taken from the ready queue"""
    c = lambda k: sp.c(S, k, t)
    s = c(sp.ks)
    return [('the status', isin(s, (sp.READY, sp.CLOSING, sp.CLOSED))), ('in queues', And(c(sp.kq) == 1, c(sp.ksub) > 0)),
            ('the closed flag', c(sp.kcl) == If(s == sp.CLOSED, 1, 0)), ('the socket is in the kernel', Select(S.ghost['reg'], t) == (c(sp.kso) != NOSOCK))]


class Execute(C):
    name = CO + r'PrivExecute\(mg::aio::IOTask\*\)'
    label = 'IOCore::PrivExecute'
    role = 'exec'
    params = [('this', 'Core'), ('task', 'Task')]

    def t(self, E):
        return E.b('task')

    def more(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        S = E.S
        t = self.t(E)

        c = lambda k: sp.c(S, k, t)
        i, o = c(('Task', sp.k('t_in'), 'ptr')), c(('Task', sp.k('t_out'), 'ptr'))
        lk = lambda e: S.ld('Ev', sp.k('e_locked'), 'i8', e) == 1
        return [('this', E.b('this') == CORE), ('the task', Implies(t != 0, And(t > 0, Select(g['tok'], t) == RUN, g['cur'] == t, g['mine'] == t))),
                ('no current task', S.ld('Tls', 0, 'ptr', TLS) == 0)] + \
            [(l, Implies(t != 0, f)) for l, f in exec_pre(sp, S, t)] + \
            [('snapshots', And(g['wsub'] == c(sp.ksub), g['args'] == c(sp.kr), g['evi'] == i, g['evo'] == o)), ('a subscription', Implies(t != 0, S.ld('Sub', 0, 'ptr', c(sp.ksub)) > 0)),
             ('waited events', Implies(t != 0, And(i >= 0, o >= 0, Implies(i != 0, And(lk(i), i != o)), Implies(o != 0, lk(o)))))]

    def post(self, E):
        sp = E.ex.spec
        g, g0 = E.S.ghost, E.S0.ghost
        t = self.t(E)
        closed = Select(E.S0.get(sp.kcl), t) == 1
        return [('says if there was a task', E.ret == (t != 0)), ('one event is delivered', g['ran'] == If(t != 0, 1, 0)), ('no current task', E.S.ld('Tls', 0, 'ptr', TLS) == 0),
                ('returned to the scheduler exactly when it is not closed', g['pushes'] == If(And(t != 0, Not(closed)), 1, 0)),
                ('the scheduler is told when its queue was empty', Implies(And(g['pushes'] == 1, g['pres']), g['fsig'] >= 1)),
                ('a closed task is uncounted and its subscription is released', And(g['dec'] == If(And(t != 0, closed), 1, 0), g['subs'] == g['dec']))]


class IOExec(IORG):
    ghost_sorts = dict(IORG.ghost_sorts, evi=I, evo=I)

    def on_attach(self):
        IORG.on_attach(self)
        self.kin, self.kout = ('Task', self.k('t_in'), 'ptr'), ('Task', self.k('t_out'), 'ptr')
        self.kvt = ('VT', 0, 'ptr')

    def builtin(self, name):
        if name.startswith('llvm.threadlocal.address'):
            return lambda ex, ctx, S, v, ins: Ptr(TLS, 0, 'Tls')
        return IORG.builtin(self, name)

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        g = S.ghost
        sub, t = vals[0].base, g['cur']
        G = lambda f, what: ex.prove(S, f, what, ex.cur_loc, 'guarantee')
        c = lambda k: self.c(S, k, t)
        G(And(sub == g['wsub'], fv.base == Select(S.get(self.kvt), S.ld('Sub', 0, 'ptr', sub))), 'the event is delivered to the subscription of the task')
        G(And(g['ran'] == 0, Select(g['tok'], t) == RUN), 'one event at a time, by the one who executes the task')
        G(And(S.ld('Tls', 0, 'ptr', TLS) == t), 'the task knows that it is executed now')
        G(ex.raw_load(S, vals[1], 'i32') == g['args'], 'all the ready events are delivered')
        G(c(self.kr) == 0, 'and only once')
        G(Or(g['wrote'] == 1, g['seen'] == self.CLOSING, g['seen'] == self.CLOSED), 'the wakeup which led to the execution is taken')
        G(And(c(self.kq) == 0, c(self.kn) == 0), 'the task is out of queues')
        G(c(self.kd) == INF, 'the deadline does not fire again')
        ran = IntVal(1)
        if ex.quick(S, c(self.kcl) == 1):
            G(c(self.ksub) == 0, 'a closed task can be posted again')
            G(And(c(self.kin) == 0, c(self.kout) == 0), 'a closed task waits for nothing')
            for n in ('evi', 'evo'):
                e = g[n]
                f = lambda o, ty: S.ld('Ev', self.k(o), ty, e)
                G(Implies(e != 0, And(f('e_locked', 'i8') == 0, f('e_empty', 'i8') == 0, f('e_error', 'i8') == 1, f('e_value', 'i32') == self.k('k_aborted'))), 'the operation in progress is aborted')
            # the user can delete or post it again
            tk = fresh('tk', I)
            ex.assume(S, isin(tk, (U, OTHER, F, RQ)))
            old = g['tok']
            self.leave(ex, S, t, tk)
        else:
            G(And(c(self.kcl) == 0), 'a boolean')
            G(And(c(self.ksub) == sub), 'the subscription stays')
            k0, r0 = c(self.kso), Select(g['reg'], t)
            S.set(self.kd, Store(S.get(self.kd), t, fresh('dl', I)))
            S.set(self.kr, Store(S.get(self.kr), t, fresh('re', I)))
            so, rg = fresh('so', I), fresh('rg', B)
            ex.assume(S, And(0 <= so, so < M32, rg == (so != NOSOCK), Implies(k0 != NOSOCK, And(so == k0, rg == r0)), 0 <= c(self.kd), c(self.kd) <= INF, 0 <= c(self.kr), c(self.kr) < M32))
            S.set(self.kso, Store(S.get(self.kso), t, so))
            g['reg'] = Store(g['reg'], t, rg)
            for k in (self.kin, self.kout):
                S.set(k, Store(S.get(k), t, fresh('ev', I)))
        g['ran'] = ran
        self.interfere(ex, S)
        return None

    def leave(self, ex, S, t, tk):
        """the task is not ours anymore"""
        g = S.ghost
        g['mine'] = IntVal(0)
        g['tok'] = Store(g['tok'], t, IntVal(OTHER))

    def h_unref(self, ex, ctx, S, v, ins):
        g = S.ghost
        p = v[-1].base
        if z3.is_int_value(z3.simplify(p)) and z3.simplify(p).as_long() == 0:
            return
        G = lambda f, what: ex.prove(S, f, what, ex.cur_loc, 'guarantee')
        G(And(p == g['wsub'], g['subs'] == 0, g['ran'] == 1), 'the subscription is released once, after the last event')
        G(S.ld('Tls', 0, 'ptr', TLS) == 0, 'a task which may be deleted is not the current one')
        g['subs'] = g['subs'] + 1
        self.interfere(ex, S)

    contracts = [Execute()]


class IOSched(IORG):
    contracts = [ScheduleDo(), ScheduleStart(), ScheduleEnd()]


# ---- posts ------------------------------------------------------------------------------
class PostSock(C):
    name = T_ + r'Post\(int, mg::aio::IOSubscription\*\)'
    label = 'IOTask::Post(socket)'
    role = 'attach'
    params = [('this', 'Task'), ('sock', None), ('sub', 'Sub')]
    where = (RUN,)

    def sock(self, E):
        return E.a['sock']

    def more(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        S = E.S
        t = self.t(E)
        c = lambda k: sp.c(S, k, t)
        so = self.sock(E)
        return [('not posted', And(c(sp.kq) == 0, c(sp.kn) == 0, c(sp.ksub) == 0, c(sp.kso) == NOSOCK, c(sp.kr) == 0, c(sp.kp) == 0, Not(Select(g['reg'], t)))),
                ('closed, when is posted again', And(c(sp.kcl) == If(c(sp.ks) == sp.CLOSED, 1, 0), c(sp.ks) != sp.WAITING, Implies(c(sp.kcl) == 1, S.ld('Tls', 0, 'ptr', TLS) == t), Select(g['clo'], t) != 2)),
                ('alive', g['mine'] == t), ('the subscription', And(E.b('sub') > 0, g['wsub'] == E.b('sub'))), ('the socket', And(g['hs'] == so, 0 <= so, so < M32, self.valid(so)))]

    def valid(self, so):
        return so != NOSOCK

    def post(self, E):
        g = E.S.ghost
        return [('counted and pushed once, with a reference to the subscription', And(g['inc'] == 1, g['pushes'] == 1, g['subs'] == 1)),
                ('the scheduler is told when its queue was empty', Implies(g['pres'], g['fsig'] >= 1)), ('frame', g['dec'] == 0)]


class PostServer(PostSock):
    name = T_ + r'Post\(mg::aio::IOServerSocket\*, mg::aio::IOSubscription\*\)'
    label = 'IOTask::Post(server socket)'
    params = [('this', 'Task'), ('srv', 'Srv'), ('sub', 'Sub')]

    def sock(self, E):
        return E.S0.ld('Srv', E.ex.spec.k('s_sock'), 'i32', E.b('srv')) if E.S0 is not None else E.S.ld('Srv', E.ex.spec.k('s_sock'), 'i32', E.b('srv'))

    def more(self, E):
        return PostSock.more(self, E) + [('the server socket', And(E.b('srv') > 0, E.S.ghost['srv'] == E.b('srv'), E.S.ghost['freed'] == 0))]

    def post(self, E):
        return PostSock.post(self, E) + [('the server socket object is deleted', E.S.ghost['freed'] == 1)]


class PostSub(PostSock):
    name = T_ + r'Post\(mg::aio::IOSubscription\*\)'
    label = 'IOTask::Post'
    params = [('this', 'Task'), ('sub', 'Sub')]

    def sock(self, E):
        return IntVal(NOSOCK)

    def valid(self, so):
        return BoolVal(True)


class IOPost(IORG):
    ghost_sorts = dict(IORG.ghost_sorts, freed=I, srv=I)

    def on_attach(self):
        IORG.on_attach(self)
        self.classes['Srv'] = Cls({})

    def builtin(self, name):
        if name.startswith('llvm.threadlocal.address'):
            return lambda ex, ctx, S, v, ins: Ptr(TLS, 0, 'Tls')
        return IORG.builtin(self, name)

    def h_ref(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, And(ex.raw_load(S, v[0], 'ptr').base == g['wsub'], g['subs'] == 0, g['pushes'] == 0), 'a posted task takes one reference to its subscription', ex.cur_loc, 'guarantee')
        g['subs'] = g['subs'] + 1

    def h_mpush(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[1].base
        G = lambda f, what: ex.prove(S, f, what, ex.cur_loc, 'guarantee')
        c = lambda k: self.c(S, k, t)
        G(And(t == g['cur'], c(self.ksub) == g['wsub'], c(self.kso) == g['hs'], Select(g['reg'], t) == (g['hs'] != NOSOCK)), 'the pushed task has its subscription, and its socket in the kernel')
        G(And(c(self.kcl) == 0, Select(g['clo'], t) != 2), 'the pushed task is not closed and can be closed')
        return IORG.h_mpush(self, ex, ctx, S, v, ins)

    def free(self, ex, ctx, S, p):
        g = S.ghost
        ex.prove(S, And(p.base == g['srv'], BoolVal(p.cls == 'Srv'), g['freed'] == 0), 'the server socket is deleted once', ex.cur_loc, 'safety')
        g['freed'] = g['freed'] + 1

    contracts = [PostSock(), PostServer(), PostSub()]


class AttachSocket(C):
    name = T_ + r'AttachSocket\(int\)'
    label = 'IOTask::AttachSocket'
    role = 'attach'
    params = [('this', 'Task'), ('sock', None)]
    where = (RUN,)

    def more(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        t = self.t(E)
        c = lambda k: sp.c(E.S, k, t)
        so = E.a['sock']
        return [('in OnEvent', And(E.S.ld('Tls', 0, 'ptr', TLS) == t, c(sp.kq) == 0, c(sp.kcl) == 0, c(sp.ks) != sp.CLOSED)),
                ('no socket', And(c(sp.kso) == NOSOCK, c(sp.kr) == 0, c(sp.kp) == 0, Not(Select(g['reg'], t)))), ('the socket', And(0 <= so, so < M32, so != NOSOCK))]

    def post(self, E):
        sp = E.ex.spec
        t = self.t(E)
        return [('the socket is in the kernel', And(Select(E.S.ghost['reg'], t), sp.c(E.S, sp.kso, t) == E.a['sock']))] + self.same(E, (sp.ksub, sp.kd, sp.kq, sp.kcl, sp.kr))


class IOAttach(IOPost):
    contracts = [AttachSocket()]


# ---- wakeups and closing ----------------------------------------------------------------
class Wakeup(C):
    name = T_ + r'PostWakeup\(\)'
    label = 'IOTask::PostWakeup'
    role = 'waker'
    params = [('this', 'Task')]
    loops = [Loop({}, lambda E: E.ex.spec.inv(E.S) + [('nothing is done yet', And(E.S.ghost['wrote'] == 0, E.S.ghost['mine'] == E.L.ghost['mine'], E.S.ghost['pushes'] == 0, E.S.ghost['fsig'] == 0, 0 <= E.S.ghost['seen'], E.S.ghost['seen'] <= 4,
                      Not(E.S.ghost['locked']), Select(E.S.ghost['tok'], E.b('this')) != OTHER))] +
                  [('the last status seen', v == E.S.ghost['seen']) for v in E.phis.values() if not isinstance(v, Ptr) and z3.is_int(v)])]

    def more(self, E):
        g = E.S.ghost
        return [('the task is alive', And(self.t(E) > 0, Select(g['tok'], self.t(E)) != OTHER, g['mine'] == self.t(E), g['cur'] == self.t(E), Select(g['tok'], self.t(E)) != OWE))]

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('pushed by the one who woke a parked task', g['pushes'] == If(And(g['wrote'] == 1, g['over'] == sp.WAITING), 1, 0)),
                ('not woken only when it was awake or closed', Or(g['wrote'] == 1, And(g['wrote'] == 0, isin(g['seen'], (sp.READY, sp.CLOSING, sp.CLOSED))))),
                ('the scheduler is told when its queue was empty', Implies(And(g['pushes'] == 1, g['pres']), g['fsig'] >= 1))]


class Close(C):
    name = T_ + r'PostClose\(\)'
    label = 'IOTask::PostClose'
    role = 'closer'
    params = [('this', 'Task')]

    def more(self, E):
        g = E.S.ghost
        return Wakeup.more(self, E) + [('not closing', Select(g['clo'], self.t(E)) != 2)]

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('tried once', g['guards'] == 1), ('the one who started the closing requests it', Implies(g['g0'] == 0, g['wrote'] == 1)), ('the others do nothing', Implies(g['g0'] != 0, And(g['wrote'] == 0, g['pushes'] == 0))),
                ('pushed by the one who woke a parked task', g['pushes'] == If(And(g['wrote'] == 1, g['over'] == sp.WAITING), 1, 0)),
                ('the scheduler is told when its queue was empty', Implies(And(g['pushes'] == 1, g['pres']), g['fsig'] >= 1))]


class IOWake(IORG):
    ghost_sorts = dict(IORG.ghost_sorts, g0=I)

    def on_write(self, ex, S, pre, p, old, new, order, op):
        IORG.on_write(self, ex, S, pre, p, old, new, order, op)
        if (p.cls, p.off) == self.kg[:2]:
            S.ghost['g0'] = old

    contracts = [Wakeup(), Close()]


# ---- waiting for the end ----------------------------------------------------------------
class WaitEmpty(C):
    name = CO + r'WaitEmpty\(mg::box::TimeLimit\)'
    label = 'IOCore::WaitEmpty'
    params = [('this', 'Core'), ('type', None), ('value', None)]
    loops = [Loop({}, lambda E: E.ex.spec.inv(E.S) + [('time', And(E.S.ghost['now'] >= 0, Or(E.L.ghost['now'] == 0, E.S.ghost['ts0'] == E.L.ghost['ts0']), E.S.ghost['now'] >= E.L.ghost['now'])), ('state', Not(E.S.ghost['locked']))] +
                  [('not empty', v != 0) for v in E.phis.values() if not isinstance(v, Ptr) and z3.is_int(v)])]

    def more(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return [('this', E.b('this') == CORE), ('the limit', Or(E.a['type'] == sp.k('tl_point'), E.a['type'] == sp.k('tl_duration'))), ('new', And(g['now'] == 0, g['ts0'] == 0, Not(g['empty'])))]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        v = E.a['value']
        return [('says empty only when it was, and sees what the tasks did', Implies(E.ret == 0, g['empty'])),
                ('gives up only after the time limit', Implies(E.ret != 0, g['now'] >= If(E.a['type'] == sp.k('tl_point'), v, g['ts0'] + v)))]


class IOWait(IORG):
    def count_read(self, ex, S, val, order):
        S.ghost['empty'] = And(val == 0, BoolVal(order in ('acquire', 'acq_rel', 'seq_cst')))

    def h_sleep(self, ex, ctx, S, v, ins):
        self.interfere(ex, S)

    contracts = [WaitEmpty()]


# ---- workers ----------------------------------------------------------------------------
W0 = Int('p_w')


def no_tok2(S, vals):
    t = Select(S.ghost['tok'], x)
    return ForAll([x], And(*[t != v for v in vals]), patterns=[t])


class IORun(IOPost):
    ghost_sorts = dict(IOPost.ghost_sorts, sdone=B)
    handlers = [(r'mg::box::Thread::StopRequested\(\)', 'h_stop'), (CO + r'PrivScheduleStart\(\)', 'h_start'), (CO + r'PrivScheduleDo\(\)', 'h_do'), (CO + r'PrivScheduleEnd\(\)', 'h_end'),
                (CO + r'PrivExecute\(.*', 'h_exec'), (r'mg::box::MCQBaseConsumer::Pop\(\)', 'h_pop')] + IOPost.handlers

    def on_attach(self):
        IOPost.on_attach(self)
        k = self.k
        self.classes.update(W=Cls({k('w_core'): To('Core')}), Raw=Cls({}))

    def thecore(self, ex, S, p):
        ex.prove(S, And(p.base == CORE, BoolVal(p.local is None and p.off == 0)), 'is the worker\'s core', ex.cur_loc, 'call-pre')

    def h_stop(self, ex, ctx, S, v, ins):
        ex.prove(S, And(v[0].base == W0, BoolVal(v[0].off == 0)), 'the stop of this worker is looked at', ex.cur_loc, 'call-pre')
        return fresh('stop', B)

    def h_start(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.thecore(ex, S, v[0])
        ex.prove(S, And(Not(g['locked']), no_tok2(S, (RUN,))), 'tries to schedule with nothing in hands', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        r = fresh('lk', B)
        g['locked'] = r
        ex.assume(S, Implies(r, self.core(S, self.kflag) == 1))
        g['att'], g['empty'], g['sdone'] = BoolVal(True), BoolVal(False), BoolVal(False)
        return r

    def h_do(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.thecore(ex, S, v[0])
        ex.prove(S, And(g['locked'], no_tok2(S, (RUN,))), 'schedules in the role, with nothing in hands', ex.cur_loc, 'guarantee')
        ex.prove(S, Not(g['sdone']), 'the role is given up after there is something to execute', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        r = fresh('done', B)
        g['sdone'] = r
        return r

    def h_end(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.thecore(ex, S, v[0])
        ex.prove(S, g['locked'], 'the role is left by the one who has it', ex.cur_loc, 'guarantee')
        g['locked'] = BoolVal(False)
        self.interfere(ex, S)
        g['rsig'] = g['rsig'] + 1

    def h_exec(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.thecore(ex, S, v[0])
        t = v[1].base
        some = t != 0
        ex.prove(S, Not(g['locked']), 'tasks are not executed in the scheduling role', ex.cur_loc, 'guarantee')
        ex.prove(S, Implies(some, And(Select(g['tok'], t) == RUN, t == g['cur'])), 'executes the task it took', ex.cur_loc, 'guarantee')
        for lab, f in exec_pre(self, S, t):
            ex.prove(S, Implies(some, f), 'a taken task: ' + lab, ex.cur_loc, 'call-pre')
        ex.prove(S, S.ld('Tls', 0, 'ptr', TLS) == 0, 'no current task', ex.cur_loc, 'call-pre')
        old = g['tok']
        new = fresh('tok', ARR)
        ex.assume(S, new == Store(old, t, If(some, IntVal(OTHER), Select(old, t))))
        g['tok'] = new
        g['mine'] = IntVal(0)
        # what the new owner made of it
        for k in self.env_cells + (self.ks, self.kg):
            S.set(k, Store(S.get(k), t, fresh('ex', I)))
        g['reg'] = Store(g['reg'], t, BoolVal(False))
        g['clo'] = Store(g['clo'], t, IntVal(0))
        self.interfere(ex, S)
        return some

    def h_pop(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, And(v[0].base == W0, BoolVal(v[0].off == self.k('w_consumer'))), 'the worker\'s own consumer', ex.cur_loc, 'call-pre')
        ex.prove(S, no_tok2(S, (RUN,)), 'takes a task with nothing in hands', ex.cur_loc, 'guarantee')
        self.interfere(ex, S)
        t = fresh('popped', I)
        old = g['tok']
        ex.assume(S, And(t >= 0, Implies(t != 0, And(Select(old, t) == RQ))))
        new = fresh('tok', ARR)
        ex.assume(S, new == Store(old, t, If(t != 0, IntVal(RUN), Select(old, t))))
        g['tok'] = new
        g['empty'] = t == 0
        g['cur'] = t
        g['mine'] = t
        return Ptr(t, 0, 'Task')

    def h_recv(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0], 'c_sigready', 'ready signal')
        ex.prove(S, And(g['att'], g['empty'], no_tok2(S, (RUN,)), Not(g['locked'])), 'a worker sleeps only after it tried to schedule and then found the ready queue empty', ex.cur_loc, 'guarantee')
        g['att'] = BoolVal(False)
        g['empty'] = BoolVal(False)
        g['rsig'] = IntVal(0)
        self.interfere(ex, S)


def run_inv(E):
    sp = E.ex.spec
    g = E.S.ghost
    mb = E.S.ld(*sp.keb, CORE)
    ints = [v for v in E.phis.values() if not isinstance(v, Ptr) and z3.is_int(v)]
    return sp.inv(E.S) + [('owns nothing', no_tok(E, (RUN, HAND, RL, CH, PEND, OWE))), ('state', And(g['rsig'] >= 0, g['fsig'] == 0, E.S.ld('Tls', 0, 'ptr', TLS) == 0))] + \
        [('batch', And(v >= 0, v < mb)) for v in ints]


class Run(C):
    name = A_ + r'IOCoreWorker::Run\(\)'
    label = 'IOCoreWorker::Run'
    role = 'run'
    params = [('this', 'W')]
    loops = [Loop({}, lambda E: run_inv(E) + [('free', Not(E.S.ghost['locked']))]), Loop({}, lambda E: run_inv(E) + [('free', Not(E.S.ghost['locked']))]),
             Loop({}, lambda E: run_inv(E) + [('role', And(E.S.ghost['locked'], E.S.ghost['att'], Not(E.S.ghost['sdone'])))]),
             Loop({}, lambda E: run_inv(E) + [('tried', And(E.S.ghost['att'], Not(E.S.ghost['locked'])))])]
    loops_in_order = True

    def more(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        mb = E.S.ld(*sp.keb, CORE)
        return [('this', And(E.b('this') == W0, W0 > 0)), ('its core', E.S.ld('W', sp.k('w_core'), 'ptr', W0) == CORE), ('batch', And(mb > 0, mb < M32)), ('no current task', E.S.ld('Tls', 0, 'ptr', TLS) == 0),
                ('owns nothing', And(g['mine'] == 0, no_tok2(E.S, (RUN, HAND, RL, CH, PEND, OWE)))), ('nothing done', Not(Or(g['att'], g['empty'], g['sdone'])))]

    def post(self, E):
        g = E.S.ghost
        return [('leaves nothing behind', And(no_tok2(E.S, (RUN,)), Not(g['locked']))), ('another worker and the scheduler are told', And(g['rsig'] >= 1, g['fsig'] >= 1)),
                ('no current task', E.S.ld('Tls', 0, 'ptr', TLS) == 0)]


IORun.contracts = [Run()]


# ---- what a task does with its socket (sequential, only its owner does it) ---------------
ESP = r'mg::box::SharedPtrIntrusive<mg::box::Error>::'


class IOUser(RG):
    tu = 'io.cpp'
    shared = ()
    env_cells = ()
    ghost_sorts = dict(rc=I, en=I, ec=I, bufs=I, cnt=I, crit=B, regs=I, ops=I, peer=I, closed=I, host=I, started=B)
    handlers = [(r'sendmsg', 'h_msg'), (r'recvmsg', 'h_msg'), (r'accept4', 'h_accept'), (r'connect', 'h_connect'), (r'socket', 'h_socket'), (r'epoll_ctl', 'h_ctl'), (r'__errno_location', 'h_errno'),
                (r'mg::box::ErrorCodeErrno\(\)', 'h_code'), (r'mg::box::ErrorCodeFromErrno\(.*', 'h_fromcode'), (r'mg::net::SocketIsAcceptErrorCritical\(.*', 'h_crit'),
                (r'mg::net::Host::Set\(.*', 'h_peer'), (r'mg::net::Host::GetSockaddrSize\(.*', 'h_size'), (r'mg::net::SocketCheckState\(.*', 'h_state'), (r'mg::box::ErrorRaise.*', 'h_raise'),
                (ESP + r'PrivUnref\(.*', 'h_nop'), (r'mg::net::SocketClose\(int\)', 'h_sockclose'), (r'mg::net::BuffersToIOVecsFor.*', 'h_iovecs')]
    assumptions = RG.assumptions + ('the system calls do what their manual pages say; epoll_ctl of a valid descriptor succeeds; a non-empty send does not return 0',)

    def on_attach(self):
        k = self.k
        self.classes = {'Task': Cls({k('t_next'): To('Task'), k('t_sub'): To('Sub'), k('t_core'): To('Core'), k('t_in'): To('Ev'), k('t_out'): To('Ev')}), 'Ev': Cls({}), 'Core': Cls({}), 'Sub': Cls({}),
                        'Args': Cls({}), 'ErrP': Cls({0: To('ErrO')}), 'ErrO': Cls({}), 'Err': Cls({}), 'Host': Cls({}), 'Buf': Cls({}), 'Vec': Cls({}), 'Tls': Cls({0: To('Task')})}

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def builtin(self, name):
        if name.startswith('llvm.threadlocal.address'):
            return lambda ex, ctx, S, v, ins: Ptr(TLS, 0, 'Tls')
        return RG.builtin(self, name)

    memset = IORG.memset

    def bitop(self, ex, S, op, n, a, b):
        # clearing of one field of bits
        if op == 'and' and z3.is_int_value(b):
            c = ((1 << n) - 1) ^ b.as_long()
            lo, hi = (c & -c).bit_length() - 1, c.bit_length()
            if c == (1 << hi) - (1 << lo):
                return a - (a % (1 << hi)) + (a % (1 << lo))
        return None

    def tc(self, S, n, ty, t=None):
        return S.ld('Task', self.k('t_' + n), ty, Int('p_this') if t is None else t)

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def res(self, ex, S, n, lo=0):
        r = fresh('rc', I)
        g = S.ghost
        ex.prove(S, g['ops'] == 0, 'one system call', ex.cur_loc, 'guarantee')
        g['ops'] = g['ops'] + 1
        ex.assume(S, And(r >= -1, r < (1 << 31), r != 0 if lo else BoolVal(True)))
        g['rc'] = r
        en = fresh('errno', I)
        ex.assume(S, And(0 < en, en < 4096))
        g['en'] = en
        out = fresh('rv', I)
        ex.assume(S, out == If(r < 0, (1 << n) - 1, r))
        return out

    def h_msg(self, ex, ctx, S, v, ins):
        g = S.ghost
        at = lambda o, ty: ex.raw_load(S, Ptr(v[1].base, v[1].off + o, v[1].cls, v[1].idx, v[1].local), ty)
        ex.prove(S, And(v[0] == self.tc(S, 'sock', 'i32'), at(16, 'ptr').base == g['bufs'], at(24, 'i64') == g['cnt']), 'all the given buffers and the socket of the task', ex.cur_loc, 'call-pre')
        return self.res(ex, S, 64, getattr(ex.contract, 'nonzero', 0))

    def h_accept(self, ex, ctx, S, v, ins):
        ex.prove(S, And(v[0] == self.tc(S, 'sock', 'i32'), v[3] == self.k('k_nonblock')), 'a non-blocking accept on the socket of the task', ex.cur_loc, 'call-pre')
        self.addr = v[1]
        return self.res(ex, S, 32)

    def h_connect(self, ex, ctx, S, v, ins):
        ex.prove(S, v[1].base == S.ghost['host'], 'connects to the host', ex.cur_loc, 'call-pre')
        r = self.res(ex, S, 32)
        ex.assume(S, S.ghost['rc'] <= 0)
        S.ghost['cnt'] = v[0]
        return r

    def h_ctl(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = Int('p_this')
        at = lambda o, ty: ex.raw_load(S, Ptr(v[3].base, v[3].off + o, v[3].cls, v[3].idx, v[3].local), ty)
        bits = at(0, 'i32')
        mask = self.k('k_epollin') | self.k('k_epollout') | self.k('k_epollerr') | self.k('k_epollhup') | self.k('k_epollet')
        bits = bits.as_long() if z3.is_int_value(bits) else 0
        ex.prove(S, And(v[0] == S.ld('Core', self.k('c_native'), 'i32', CORE), v[1] == self.k('k_add'), v[2] == self.tc(S, 'sock', 'i32'), at(4, 'ptr').base == t, BoolVal(bits & mask == mask), g['regs'] == 0),
                 'the socket of the task gets into the core\'s epoll once, with all the events', ex.cur_loc, 'guarantee')
        g['regs'] = g['regs'] + 1
        return IntVal(0)

    def h_errno(self, ex, ctx, S, v, ins):
        b = fresh('errno', I)
        ex.assume(S, And(b > 0, S.ld('Err', 0, 'i32', b) == S.ghost['en']))
        return Ptr(b, 0, 'Err')

    def h_code(self, ex, ctx, S, v, ins):
        c = fresh('code', I)
        ex.assume(S, And(0 <= c, c < M32))
        S.ghost['ec'] = c
        return c

    def h_fromcode(self, ex, ctx, S, v, ins):
        ex.prove(S, v[-1] == S.ghost['en'], 'the error is that of the system call', ex.cur_loc, 'guarantee')
        return self.h_code(ex, ctx, S, v, ins)

    def h_crit(self, ex, ctx, S, v, ins):
        ex.prove(S, v[-1] == S.ghost['ec'], 'the error is that of the system call', ex.cur_loc, 'guarantee')
        r = fresh('crit', B)
        S.ghost['crit'] = r
        return r

    def h_peer(self, ex, ctx, S, v, ins):
        ex.prove(S, BoolVal(v[1].local is not None and v[1].local == self.addr.local), 'the address which accept() returned', ex.cur_loc, 'guarantee')
        S.ghost['peer'] = v[0].base

    def h_size(self, ex, ctx, S, v, ins):
        n = fresh('size', I)
        ex.assume(S, And(0 <= n, n < 4096))
        return n

    def h_state(self, ex, ctx, S, v, ins):
        ex.prove(S, v[0] == self.tc(S, 'sock', 'i32'), 'the state of the socket of the task', ex.cur_loc, 'call-pre')
        e = fresh('err', I)
        ex.assume(S, e >= 0)
        ex.raw_store(S, v[1], 'ptr', Ptr(e, 0, 'ErrO'))
        return fresh('ok', B)

    def h_raise(self, ex, ctx, S, v, ins):
        e = fresh('err', I)
        ex.assume(S, e > 0)
        ex.raw_store(S, v[0], 'ptr', Ptr(e, 0, 'ErrO'))

    def h_other(self, ex, ctx, S, v, ins):
        raise Unsupported('no contract for this call here')

    h_socket = h_sockclose = h_iovecs = h_other


class UC(RCon):
    params = [('this', 'Task'), ('event', 'Ev')]
    err = 0

    def ev(self, E, S, n):
        sp = E.ex.spec
        return S.ld('Ev', sp.k('e_' + n), 'i32' if n == 'value' else 'i8', E.b('event'))

    def bools(self, E, S):
        return And(*[And(0 <= self.ev(E, S, n), self.ev(E, S, n) <= 1) for n in ('locked', 'empty', 'error')])

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        S = E.S
        return [('the task', And(E.b('this') > 0, TLS > 0, CORE > 0, S.ld('Tls', 0, 'ptr', TLS) == E.b('this'), sp.tc(S, 'core', 'ptr') == CORE, sp.tc(S, 'inq', 'i8') == 0, sp.tc(S, 'closed', 'i8') == 0)),
                ('counters', And(g['regs'] == 0, g['ops'] == 0, g['peer'] == 0, g['closed'] == 0)), ('core', S.ld('Core', sp.k('c_native'), 'i32', CORE) < (1 << 31)),
                ('the event', And(E.b('event') > 0, self.bools(E, S)))] + self.more(E)

    def more(self, E):
        return []

    def event(self, E, locked, empty, error=None, value=None):
        e = lambda n: self.ev(E, E.S, n)
        return And(e('locked') == locked, e('empty') == empty, *([e('error') == error] if error is not None else []), *([e('value') == value] if value is not None else []))

    def evsame(self, E):
        return And(*[self.ev(E, E.S, n) == self.ev(E, E.S0, n) for n in ('locked', 'empty', 'error', 'value')])

    def keep(self, E, but=()):
        sp = E.ex.spec
        cells = dict(ready='i32', pending='i32', out='ptr', sub='ptr', sock='i32', next='ptr', index='i32', guard='i8', deadline='i64', closed='i8', inq='i8', expired='i8', status='i32', core='ptr')
        cells['in'] = 'ptr'
        return [('nothing else of the task changes', And(*[sp.tc(E.S, n, ty) == sp.tc(E.S0, n, ty) for n, ty in cells.items() if n not in but])), ('frame', E.S.ghost['closed'] == 0)]

    def bit(self, E, S, b):
        return (E.ex.spec.tc(S, 'ready', 'i32') / b) % 2 == 1


class Send(UC):
    name = T_ + r'Send\(mg::box::IOVec const\*, unsigned int, mg::aio::IOEvent&\)'
    label = 'IOTask::Send'
    params = [('this', 'Task'), ('bufs', 'Vec'), ('count', None), ('event', 'Ev')]
    nonzero = 1
    slot = 'out'
    flag = 'k_epollout'

    def more(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return [('no operation in progress', And(self.ev(E, E.S, 'locked') == 0, sp.tc(E.S, self.slot, 'ptr') == 0)), ('arguments', And(E.b('bufs') > 0, g['bufs'] == E.b('bufs'), g['cnt'] == E.a['count']))]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        b = sp.k(self.flag)
        rc, again = g['rc'], And(g['rc'] < 0, g['en'] == sp.k('k_eagain'))
        done = rc >= 0
        r, r0 = sp.tc(E.S, 'ready', 'i32'), sp.tc(E.S0, 'ready', 'i32')
        sl = sp.tc(E.S, self.slot, 'ptr')
        return [('one operation is done', g['ops'] == 1),
                ('finished: the number of bytes, and the readiness is kept for the next time', Implies(done, And(E.ret, self.event(E, 0, 0, 0, rc), sl == 0, r == If((r0 / b) % 2 == 1, r0, r0 + b)))),
                ('not ready: the event is locked until the kernel tells', Implies(again, And(E.ret, self.event(E, 1, 1), sl == E.b('event'), r == r0))),
                ('failed: the error', Implies(And(Not(done), Not(again)), And(Not(E.ret), self.event(E, 0, 0, 1, g['ec']), sl == 0, r == r0)))] + self.keep(E, (self.slot, 'ready'))


class Recv(Send):
    name = T_ + r'Recv\(mg::box::IOVec\*, unsigned int, mg::aio::IOEvent&\)'
    label = 'IOTask::Recv'
    nonzero = 0
    slot = 'in'
    flag = 'k_epollin'


class Accept(UC):
    name = T_ + r'Accept\(mg::aio::IOEvent&, mg::net::Host&\)'
    label = 'IOTask::Accept'
    params = [('this', 'Task'), ('event', 'Ev'), ('peer', 'Host')]

    def more(self, E):
        sp = E.ex.spec
        return [('the previous result was taken', Implies(self.ev(E, E.S, 'locked') == 0, And(self.ev(E, E.S, 'empty') == 1, sp.tc(E.S, 'in', 'ptr') == 0))), ('peer', E.b('peer') > 0)]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        rc, again = g['rc'], And(g['rc'] < 0, g['en'] == sp.k('k_eagain'))
        sl, sl0 = sp.tc(E.S, 'in', 'ptr'), sp.tc(E.S0, 'in', 'ptr')
        lk = self.ev(E, E.S0, 'locked') == 1
        return [('waits', Implies(lk, And(E.ret == NOSOCK, g['ops'] == 0, sl == sl0, self.evsame(E)))),
                ('tries once', Implies(Not(lk), g['ops'] == 1)),
                ('accepted', Implies(And(Not(lk), rc >= 0), And(E.ret == rc, g['peer'] == E.b('peer'), sl == 0, self.event(E, 0, 1)))),
                ('nobody: the event is locked until the kernel tells', Implies(And(Not(lk), again), And(E.ret == NOSOCK, self.event(E, 1, 1), sl == E.b('event')))),
                ('failed: the error, when it is critical', Implies(And(Not(lk), rc < 0, Not(again)), And(E.ret == NOSOCK, sl == 0, If(g['crit'], self.event(E, 0, 0, 1, g['ec']), self.event(E, 0, 1)))))] + self.keep(E, ('in',))


class ConnectStart(UC):
    name = T_ + r'ConnectStart\(int, mg::net::Host const&, mg::aio::IOEvent&\)'
    label = 'IOTask::ConnectStart'
    params = [('this', 'Task'), ('sock', None), ('host', 'Host'), ('event', 'Ev')]

    def more(self, E):
        sp = E.ex.spec
        t = lambda n, ty='i32': sp.tc(E.S, n, ty)
        return [('no socket and no operation', And(self.ev(E, E.S, 'locked') == 0, t('out', 'ptr') == 0, t('sock') == NOSOCK, t('ready') == 0, t('pending') == 0)),
                ('arguments', And(E.b('host') > 0, E.S.ghost['host'] == E.b('host'), 0 <= E.a['sock'], E.a['sock'] < NOSOCK))]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        wait = And(g['rc'] < 0, g['en'] == sp.k('k_einprogress'))
        done = g['rc'] == 0
        att = And(sp.tc(E.S, 'sock', 'i32') == E.a['sock'], g['regs'] == 1)
        sl = sp.tc(E.S, 'out', 'ptr')
        return [('connects the given socket', And(g['ops'] == 1, g['cnt'] == E.a['sock'])), ('connected at once', Implies(done, And(E.ret, att, sl == 0, self.event(E, 0, 0, 0, 0)))),
                ('in progress: the event is locked until the kernel tells', Implies(wait, And(E.ret, att, sl == E.b('event'), self.ev(E, E.S, 'locked') == 1))),
                ('failed: the error, the socket is not taken', Implies(And(Not(done), Not(wait)), And(Not(E.ret), sp.tc(E.S, 'sock', 'i32') == NOSOCK, g['regs'] == 0, sl == 0, self.event(E, 0, 0, 1, g['ec']))))] + self.keep(E, ('out', 'sock'))


class ConnectUpdate(UC):
    name = T_ + r'ConnectUpdate\(mg::aio::IOEvent&\)'
    label = 'IOTask::ConnectUpdate'

    def more(self, E):
        return [('connecting', And(E.ex.spec.tc(E.S, 'sock', 'i32') != NOSOCK, Implies(self.ev(E, E.S, 'locked') == 0, self.ev(E, E.S, 'empty') == 1)))]

    def post(self, E):
        lk = self.ev(E, E.S0, 'locked') == 1
        return [('waits or is connected', And(E.ret, If(lk, self.evsame(E), self.event(E, 0, 0, 0, 0))))] + self.keep(E)


class ProcessArgs(UC):
    name = T_ + r'ProcessArgs\(mg::aio::IOArgs const&, .*'
    label = 'IOTask::ProcessArgs'
    params = [('this', 'Task'), ('args', 'Args'), ('err', 'ErrP')]

    def lk(self, E, S, n):
        return S.ld('Ev', E.ex.spec.k('e_locked'), 'i8', E.ex.spec.tc(E.S0 if E.S0 is not None else S, n, 'ptr'))

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        S = E.S
        i, o = sp.tc(S, 'in', 'ptr'), sp.tc(S, 'out', 'ptr')
        return [('the task', And(E.b('this') > 0, TLS > 0, S.ld('Tls', 0, 'ptr', TLS) == E.b('this'), sp.tc(S, 'inq', 'i8') == 0, sp.tc(S, 'closed', 'i8') == 0)), ('arguments', And(E.b('args') > 0, E.b('err') > 0)),
                ('waited events', And(i >= 0, o >= 0, Implies(i != 0, i != o))), ('frame', g['closed'] == 0)]

    def post(self, E):
        sp = E.ex.spec
        a = E.S0.ld('Args', 0, 'i32', E.b('args'))
        bit = lambda n: (a / sp.k('k_epoll' + n)) % 2 == 1
        bad = Or(bit('err'), bit('hup'))
        t = lambda S, n: sp.tc(S, n, 'ptr')
        ep = lambda S: S.ld('ErrP', 0, 'ptr', E.b('err'))
        r = [('an error or a hang-up is reported with its reason', And(E.ret == Not(bad), If(bad, ep(E.S) != 0, ep(E.S) == ep(E.S0))))]
        for n in ('in', 'out'):
            fire = And(Not(bad), bit(n), t(E.S0, n) != 0)
            r.append(('the operation which waits for it goes on: ' + n, If(fire, And(t(E.S, n) == 0, self.lk(E, E.S, n) == 0), And(t(E.S, n) == t(E.S0, n), Implies(t(E.S0, n) != 0, self.lk(E, E.S, n) == self.lk(E, E.S0, n))))))
        return r + self.keep(E, ('in', 'out'))


class Small(UC):
    params = [('this', 'Task')]

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        S = E.S
        return [('the task', And(E.b('this') > 0, TLS > 0, S.ld('Tls', 0, 'ptr', TLS) == E.b('this'), sp.tc(S, 'inq', 'i8') == 0)), ('booleans', And(*[And(0 <= sp.tc(S, n, 'i8'), sp.tc(S, n, 'i8') <= 1) for n in ('closed', 'expired')])), ('frame', g['closed'] == 0)]


class SetDeadline(Small):
    name = 'drv_set_deadline'
    label = 'IOTask::SetDeadline'
    params = [('this', 'Task'), ('d', None)]

    def post(self, E):
        sp = E.ex.spec
        d, d0, a = sp.tc(E.S, 'deadline', 'i64'), sp.tc(E.S0, 'deadline', 'i64'), E.a['d']
        return [('the earliest one', d == If(a < d0, a, d0))] + self.keep(E, ('deadline',))


class Reschedule(Small):
    name = 'drv_reschedule'
    label = 'IOTask::Reschedule'

    def post(self, E):
        return [('as soon as possible', E.ex.spec.tc(E.S, 'deadline', 'i64') == 0)] + self.keep(E, ('deadline',))


class SaveR(Small):
    name = T_ + r'SaveEventReadable\(\)'
    label = 'IOTask::SaveEventReadable'
    flag = 'k_epollin'

    def post(self, E):
        sp = E.ex.spec
        b = sp.k(self.flag)
        r, r0 = sp.tc(E.S, 'ready', 'i32'), sp.tc(E.S0, 'ready', 'i32')
        return [('the event is saved', r == If((r0 / b) % 2 == 1, r0, r0 + b))] + self.keep(E, ('ready',))


class SaveW(SaveR):
    name = T_ + r'SaveEventWritable\(\)'
    label = 'IOTask::SaveEventWritable'
    flag = 'k_epollout'


class LessEq(Small):
    name = T_ + r'operator<=\(mg::aio::IOTask const&\) const'
    label = 'IOTask::operator<='
    params = [('this', 'Task'), ('o', 'Task')]

    def pre(self, E):
        return [('tasks', And(E.b('this') > 0, E.b('o') > 0)), ('frame', E.S.ghost['closed'] == 0)]

    def post(self, E):
        sp = E.ex.spec
        d = lambda n: sp.tc(E.S, 'deadline', 'i64', E.b(n))
        return [('the order of deadlines', E.ret == (d('this') <= d('o')))] + self.keep(E)


IOUser.contracts = [Send(), Recv(), Accept(), ConnectStart(), ConnectUpdate(), ProcessArgs(), SetDeadline(), Reschedule(), SaveR(), SaveW(), LessEq()]


# ---- a new task -------------------------------------------------------------------------
class Create(UC):
    name = T_ + r'IOTask\(mg::aio::IOCore&\)'
    label = 'IOTask::IOTask'
    params = [('this', 'Task'), ('core', 'Core')]

    def pre(self, E):
        return [('this', And(E.b('this') > 0, E.b('core') > 0))]

    def post(self, E):
        sp = E.ex.spec
        v = lambda n, ty: sp.tc(E.S, n, ty)
        want = dict(status=('i32', sp.k('st_pending')), next=('ptr', 0), index=('i32', NOIDX), sub=('ptr', 0), sock=('i32', NOSOCK), deadline=('i64', INF), expired=('i8', 0), inq=('i8', 0), closed=('i8', 0),
                    guard=('i8', 0), ready=('i32', 0), pending=('i32', 0), out=('ptr', 0))
        want['in'] = ('ptr', 0)
        return [('a new task: ' + n, v(n, ty) == c) for n, (ty, c) in want.items()] + [('its core', v('core', 'ptr') == E.b('core'))]


IOUser.contracts.append(Create())

# ---- Stop -------------------------------------------------------------------------------
V0, NV = Int('p_vec'), Int('n_vec')
ib = Int('i_v')
BARR = z3.ArraySort(I, B)


def vec(S, i):
    return Select(Select(S.get(('Vec', 0, 'ptr', 'A')), V0), i)


def everyone(S, arr, a, b):
    e = vec(S, ib)
    return ForAll([ib], Implies(And(a <= ib, ib < b), Select(S.ghost[arr], e)), patterns=[e])


def noone(S, arr, a, b):
    e = vec(S, ib)
    return ForAll([ib], Implies(And(a <= ib, ib < b), Not(Select(S.ghost[arr], e))), patterns=[e])


def distinct(S):
    a, b = Int('a_v'), Int('b_v')
    return ForAll([a, b], Implies(And(0 <= a, a < b, b < NV), vec(S, a) != vec(S, b)), patterns=[z3.MultiPattern(vec(S, a), vec(S, b))])


def stop_cursor(E):
    for d, v in E.phis.items():
        if isinstance(v, Ptr) and v.cls == 'Vec':
            return v.idx if v.idx is not None else IntVal(0), [('cursor', v.base == V0)]
    for d, v in E.phis.items():
        if not isinstance(v, Ptr) and z3.is_int(v):
            return v, []
    raise Unsupported('no cursor over the workers')


def stop_inv(told):
    def inv(E):
        sp = E.ex.spec
        g, L = E.S.ghost, E.L.ghost
        cur, at = stop_cursor(E)
        st = [('state', And(g['locked'] == 1, sp.stopping(E.S, told), g['fsig'] == L['fsig'], g['rsig'] == L['rsig'], g['unl'] == 0)), ('range', And(0 <= cur, cur <= NV))]
        if told:
            return at + st + [('asked', And(everyone(E.S, 'told', 0, cur))), ('nobody is deleted', noone(E.S, 'gone', 0, NV))]
        return at + st + [('all are asked', everyone(E.S, 'told', 0, NV)), ('deleted', everyone(E.S, 'gone', 0, cur)), ('the rest', noone(E.S, 'gone', cur, NV))]
    return inv


class StopBase(RG):
    """all the workers are asked to stop, woken up after that, and then joined and deleted once"""
    shared = ()
    env_cells = ()
    ghost_sorts = dict(told=BARR, gone=BARR, locked=I, unl=I, fsig=I, rsig=I)
    wclass = 'W'

    def array_bound(self, ex, S, p):
        return (IntVal(0), NV)

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def h_lock(self, ex, ctx, S, v, ins):
        ex.prove(S, S.ghost['locked'] == 0, 'the mutex is not recursive', ex.cur_loc, 'call-pre')
        S.ghost['locked'] = IntVal(1)

    def h_unlock(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, g['locked'] == 1, 'unlocked by the owner', ex.cur_loc, 'call-pre')
        g['locked'] = IntVal(0)
        g['unl'] = g['unl'] + 1
        g['rsig'] = g['rsig'] + (1 if self.unlock_signals else 0)

    unlock_signals = False

    def h_wstop(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, And(g['locked'] == 1, Not(Select(g['gone'], v[0].base)), BoolVal(v[0].off == 0)), 'a living worker is asked to stop, under the mutex', ex.cur_loc, 'guarantee')
        g['told'] = Store(g['told'], v[0].base, BoolVal(True))

    def h_wdelete(self, ex, ctx, S, v, ins):
        g = S.ghost
        ex.prove(S, And(g['locked'] == 1, Not(Select(g['gone'], v[0].base)), everyone(S, 'told', 0, NV), g['rsig'] >= 1, self.woken_up(S)), 'a worker is joined and deleted once, after all are asked to stop and woken up', ex.cur_loc, 'guarantee')
        g['gone'] = Store(g['gone'], v[0].base, BoolVal(True))

    def woken_up(self, S):
        return BoolVal(True)

    def h_send(self, ex, ctx, S, v, ins):
        S.ghost['rsig'] = self.signal(ex, S, 'rsig')

    def signal(self, ex, S, n):
        r = fresh('sig', I)
        ex.prove(S, everyone(S, 'told', 0, NV), 'the workers are woken up when all are asked to stop', ex.cur_loc, 'guarantee')
        ex.assume(S, r == S.ghost[n] + 1)
        return r


class IOStop(StopBase):
    tu = 'io.cpp'
    handlers = [(r'mg::box::Mutex::Lock\(\)', 'h_lock'), (r'mg::box::Mutex::Unlock\(\)', 'h_unlock'), (r'mg::box::Thread::Stop\(\)', 'h_wstop'), (r'mg::box::Thread::StopAndDelete\(\)', 'h_wdelete'),
                (r'mg::box::Signal::Send\(\)', 'h_send'), (r'eventfd_write', 'h_efd')]

    def on_attach(self):
        k = self.k
        self.kstate = ('Core', k('c_state'), 'i32')
        self.classes = {'Core': Cls({k('c_workers'): To('Vec', idx=True), k('c_workers') + 8: To('Vec', idx=True)}), 'Vec': Cls({0: To('W')}, arr=True, stride=8), 'W': Cls({})}

    def state(self, S):
        return Select(S.get(self.kstate), CORE)

    def stopping(self, S, told):
        return self.state(S) == self.k('cs_stopping')

    def woken_up(self, S):
        return S.ghost['fsig'] >= 1

    def h_efd(self, ex, ctx, S, v, ins):
        ex.prove(S, And(v[0] == S.ld('Core', self.k('c_eventfd'), 'i32', CORE), v[1] > 0), 'the scheduler is told via its eventfd', ex.cur_loc, 'call-pre')
        ex.prove(S, self.state(S) != self.k('cs_running'), 'the core is not running already when the scheduler is told', ex.cur_loc, 'guarantee')
        S.ghost['fsig'] = self.signal(ex, S, 'fsig')
        return IntVal(0)


class Stop(RCon):
    name = CO + r'Stop\(\)'
    label = 'IOCore::Stop'
    params = [('this', 'Core')]
    vecoff = 'c_workers'
    root, cls = CORE, 'Core'
    loops = [Loop({}, stop_inv(True)), Loop({}, stop_inv(False))]
    loops_in_order = True

    def vec_pre(self, E):
        k = E.ex.spec.k(self.vecoff)
        S = E.S
        return [('the workers', And(V0 > 0, NV >= 0, NV < (1 << 32), S.ld(self.cls, k, 'ptr', self.root) == V0, S.ld(self.cls, k, 'ix', self.root) == 0,
                                    S.ld(self.cls, k + 8, 'ptr', self.root) == V0, S.ld(self.cls, k + 8, 'ix', self.root) == NV)),
                ('are there', ForAll([x], Implies(And(0 <= x, x < NV), vec(S, x) > 0), patterns=[vec(S, x)])), ('are distinct', distinct(S)),
                ('nothing is done', And(S.ghost['locked'] == 0, S.ghost['unl'] == 0, S.ghost['fsig'] == 0, S.ghost['rsig'] == 0)), ('nobody is asked or deleted', And(noone(S, 'told', 0, NV), noone(S, 'gone', 0, NV)))]

    def gone(self, E):
        k = E.ex.spec.k(self.vecoff)
        g = E.S.ghost
        return [('all the workers are joined and deleted', everyone(E.S, 'gone', 0, NV)), ('there are no workers', E.S.ld(self.cls, k + 8, 'ix', self.root) == 0)]

    def pre(self, E):
        return [('this', And(E.b('this') == CORE, CORE > 0)), ('state', isin(E.ex.spec.state(E.S), tuple(E.ex.spec.k('cs_' + n) for n in ('running', 'stopping', 'stopped'))))] + self.vec_pre(E)

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        run = sp.state(E.S0) == sp.k('cs_running')
        return [('the mutex is free', And(g['locked'] == 0, g['unl'] == 1)), ('a core which is not running is left alone', Implies(Not(run), And(noone(E.S, 'told', 0, NV), noone(E.S, 'gone', 0, NV), sp.state(E.S) == sp.state(E.S0), g['fsig'] == 0, g['rsig'] == 0))),
                ('is stopped', Implies(run, sp.state(E.S) == sp.k('cs_stopped')))] + [(l, Implies(run, f)) for l, f in self.gone(E)]


IOStop.contracts = [Stop()]


SPEC = [IOSched, IOExec, IOPost, IOAttach, IOWake, IOWait, IORun, IOStop, IOUser]
