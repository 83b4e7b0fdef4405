"""Multi-consumer queue.

Level A (SubQ): one sub-queue, one life of it (between two Resets): a bounded single-producer
multi-consumer sequence with pending items.  Items V[0..wn), visible ones V[0..vn), popped ones V[0..rd).

Level B (MCQ): the list of sub-queues, the attachments of the consumers, recycling, counters.  The
sub-queue operations are used there by the contracts proved in level A.
"""
from z3 import And, Or, Not, If, Implies, Int, IntVal, ForAll, Select, Store, BoolVal
from ..spec import *
from ..rg import RG, RCon, REL, ACQ

S_ = r'mg::box::MCQBaseSubQueue::'
Q_ = r'mg::box::MCQBaseQueue::'
C_ = r'mg::box::MCQBaseConsumer::'
j, x, y = Int('j_q'), Int('x_q'), Int('y_q')
M32 = 2**32


class SubQ(RG):
    tu = 'mcq.cpp'
    ghost_sorts = dict(V=ARR, vn=I, wn=I, rd=I, prod=B, pops=I, pk=I, empty=B, npub=I, racq=B, sacq=B)
    env_ghosts = ('V', 'vn', 'wn', 'rd')
    assumptions = RG.assumptions + ('one producer at a time; consumers attach and detach under the lock of the queue, a sub-queue is only reset when it is exhausted, '
                                    'nobody is attached to it and it is not the one being written (obligations of the queue level)',
                                    'operator new returns a fresh object')
    THIS = Int('p_this')
    concurrent = True

    def on_attach(self):
        for n in ('s_r', 's_f', 's_w', 's_fp', 's_q', 's_size', 's_cc', 's_prev', 's_next'):
            setattr(self, n, self.k(n))
        self.kr, self.ks = ('SQ', self.s_r, 'i32'), ('SL', 0, 'ptr', 'A')
        self.shared = (self.kr, self.ks) if self.concurrent else ()
        self.classes = {'SQ': Cls({self.s_fp: To('Item'), self.s_q: To('SL', idx=True), self.s_prev: To('SQ'), self.s_next: To('SQ')}),
                        'SL': Cls({0: To('Item')}, arr=True, stride=8), 'Item': Cls({}), 'Out': Cls({0: To('Item')})}

    def c(self, S, n, ty='i32', b=None):
        return S.ld('SQ', getattr(self, n), ty, self.THIS if b is None else b)

    def sz(self, S):
        return self.c(S, 's_size')

    def slots(self, S):
        return Select(S.get(self.ks), self.c(S, 's_q', 'ptr'))

    def pre_return(self, ex, E):
        c = ex.contract
        if hasattr(c, 'finish'):
            c.finish(E)

    def array_bound(self, ex, S, p):
        if p.cls == 'SL':
            n = S.ghost.get('newslots')
            if n is not None:
                return (IntVal(0), n)
            return (IntVal(0), self.sz(S) + 1)

    def inv(self, S, E=None):
        g = S.ghost
        V, vn, wn, rd, s = g['V'], g['vn'], g['wn'], g['rd'], self.slots(S)
        return [('popped, visible and written items', And(0 <= rd, rd <= vn, vn <= wn, wn <= self.sz(S))),
                ('read-index is the number of popped items', self.c(S, 's_r') == rd),
                ('the visible items are in their slots', ForAll([j], Implies(And(0 <= j, j < vn), Select(s, j) == Select(V, j)), patterns=[Select(s, j)])),
                ('null after the last visible item', Select(s, vn) == 0),
                ('items are not null', ForAll([j], Implies(And(0 <= j, j < wn), Select(V, j) != 0), patterns=[Select(V, j)]))]

    def linv(self, S):
        g = S.ghost
        V, vn, wn, s = g['V'], g['vn'], g['wn'], self.slots(S)
        return [('flush- and write-index', And(self.c(S, 's_f') == vn, self.c(S, 's_w') == wn)),
                ('the first pending item', self.c(S, 's_fp', 'ptr') == If(wn > vn, Select(V, vn), 0)),
                ('the other pending items are in their slots', ForAll([j], Implies(And(vn < j, j < wn), Select(s, j) == Select(V, j)), patterns=[Select(s, j)]))]

    def rely(self, S0, S):
        g0, g = S0.ghost, S.ghost
        return [('popped and visible only grow', And(g['rd'] >= g0['rd'], g['vn'] >= g0['vn'])),
                ('visible items stay', ForAll([j], Implies(And(0 <= j, j < g0['vn']), Select(g['V'], j) == Select(g0['V'], j)), patterns=[Select(g['V'], j)])),
                ('only the producer pushes', Implies(g['prod'], And(g['V'] == g0['V'], g['vn'] == g0['vn'], g['wn'] == g0['wn'],
                                                                    self.slots(S) == self.slots(S0))))]

    def on_access(self, ex, S, p, what):
        if self.concurrent and p.local is None and p.cls == 'SQ':
            if p.off in (self.s_f, self.s_w, self.s_fp):
                ex.prove(S, S.ghost['prod'], 'only the producer touches its indexes (%s)' % what, ex.cur_loc, 'race')
            elif p.off in (self.s_size, self.s_q):
                ex.prove(S, BoolVal(what == 'load'), 'the storage is never replaced', ex.cur_loc, 'race')
            elif p.off != self.s_r:
                ex.prove(S, BoolVal(False), 'list links and attachments are not touched without the lock of the queue', ex.cur_loc, 'race')

    def on_read(self, ex, S, p, val, order):
        g = S.ghost
        if p.cls == 'SL':
            g['empty'] = Or(g['empty'], g['rd'] == g['vn'])
            g['sacq'] = BoolVal(order in ACQ)
        else:
            g['racq'] = BoolVal(order in ACQ)

    def on_cas_fail(self, ex, S, p, val, order):
        if p.cls == 'SQ':
            S.ghost['racq'] = BoolVal(order in ACQ)

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        if p.cls == 'SQ':
            ex.prove(S, And(old == g['rd'], new == g['rd'] + 1, g['rd'] < g['vn']), 'pops one visible item', ex.cur_loc, 'guarantee')
            ex.prove(S, g['sacq'], 'the popped item: its producer\'s writes are seen (acquire)', ex.cur_loc, 'order')
            ex.prove(S, g['racq'], 'the read-index was read with acquire: the slot is not one of the previous life', ex.cur_loc, 'order')
            self.order(ex, S, order, 'release', 'moving the read-index')
            g['pops'], g['pk'], g['rd'] = g['pops'] + 1, g['rd'], g['rd'] + 1
            return
        ex.prove(S, g['prod'], 'only the producer writes into slots', ex.cur_loc, 'guarantee')
        ex.prove(S, p.base == self.c(S, 's_q', 'ptr'), 'own slots', ex.cur_loc, 'guarantee')
        ex.prove(S, p.idx >= g['vn'], 'visible slots are never rewritten', ex.cur_loc, 'guarantee')
        t = ex.topE.g.get('item')
        if ex.feasible(S, And(p.idx == g['vn'], new.base != 0)):
            if not ex.quick(S, And(p.idx == g['vn'], new.base != 0)):
                ex.prove(S, BoolVal(False), 'an item is published where the visible ones end', ex.cur_loc, 'guarantee')
                raise PathEnd()
            self.order(ex, S, order, 'release', 'publishing items')
            if t is not None:
                g['V'], g['wn'] = Store(g['V'], g['wn'], t), g['wn'] + 1
            g['vn'] = g['wn']
            g['npub'] = g['npub'] + 1


class SCon(RCon):
    params = [('this', 'SQ')]
    prod = False

    def ghosts(self, E):
        return {'item': E.b('aItem')} if self.pushes else {}

    pushes = False

    def pre(self, E):
        sp, g, t = E.ex.spec, E.S.ghost, E.b('this')
        q = E.S.ld('SQ', sp.s_q, 'ptr', t)
        r = [('this', t != 0), ('slots', And(q != 0, E.S.ld('SQ', sp.s_q, 'ix', t) == 0)), ('size', And(0 < sp.sz(E.S), sp.sz(E.S) < M32 - 1)),
             ('role', g['prod'] == BoolVal(self.prod)), ('counters', And(g['pops'] == 0, g['npub'] == 0, Not(g['empty']), Not(g['racq']), Not(g['sacq'])))]
        r += sp.inv(E.S) + (sp.linv(E.S) if self.prod else [])
        if 'aOutItem' in E.a:
            r.append(('out', E.b('aOutItem') != 0))
        if 'aItem' in E.a:
            r.append(('not null', E.b('aItem') != 0))
        return r

    def finish(self, E):
        pass

    def keeps(self, E):
        sp = E.ex.spec
        return [('storage', And(sp.sz(E.S) == sp.sz(E.S0), sp.c(E.S, 's_q', 'ptr') == sp.c(E.S0, 's_q', 'ptr')))] + (sp.linv(E.S) if self.prod else [])


class SPush(SCon):
    name = S_ + r'Push\(void\*\)'
    label = 'SubQueue::Push'
    params = [('this', 'SQ'), ('aItem', 'Item')]
    prod = pushes = True

    def post(self, E):
        g0, g, sp = E.S0.ghost, E.S.ghost, E.ex.spec
        return [('fails only if full', E.ret == (g0['wn'] != sp.sz(E.S0))),
                ('all written items and this one become visible at once, in their order', If(E.ret, And(g['npub'] == 1, g['wn'] == g0['wn'] + 1, g['vn'] == g['wn'],
                    g['V'] == Store(g0['V'], g0['wn'], E.b('aItem'))), And(g['npub'] == 0, g['V'] == g0['V'], g['wn'] == g0['wn'])))] + self.keeps(E)


class SPushPending(SCon):
    name = S_ + r'PushPending\(void\*\)'
    label = 'SubQueue::PushPending'
    params = [('this', 'SQ'), ('aItem', 'Item')]
    prod = pushes = True

    def finish(self, E):
        g = E.S.ghost
        V = fresh('V', ARR)
        E.ex.assume(E.S, V == If(E.ret, Store(g['V'], g['wn'], E.b('aItem')), g['V']))
        g['V'], g['wn'] = V, If(E.ret, g['wn'] + 1, g['wn'])

    def post(self, E):
        g0, g, sp = E.S0.ghost, E.S.ghost, E.ex.spec
        return [('fails only if full', E.ret == (g0['wn'] != sp.sz(E.S0))),
                ('nothing becomes visible', And(g['npub'] == 0, g['vn'] == g0['vn']))] + sp.inv(E.S) + self.keeps(E)


class SFlush(SCon):
    name = S_ + r'FlushPending\(\)'
    label = 'SubQueue::FlushPending'
    prod = True

    def post(self, E):
        g0, g, sp = E.S0.ghost, E.S.ghost, E.ex.spec
        return [('tells whether there was something pending', E.ret == (g0['wn'] > g0['vn'])),
                ('everything pending becomes visible at once', And(g['vn'] == g0['wn'], g['wn'] == g0['wn'], g['V'] == g0['V'], g['npub'] <= 1))] + self.keeps(E)


class SIsFull(SCon):
    name = S_ + r'IsFull\(\) const'
    label = 'SubQueue::IsFull'
    prod = True

    def post(self, E):
        g0, g, sp = E.S0.ghost, E.S.ghost, E.ex.spec
        return [('full of visible items', E.ret == (g0['vn'] == sp.sz(E.S0))), ('pure', And(g['npub'] == 0, g['pops'] == 0))] + self.keeps(E)


class SPop(SCon):
    name = S_ + r'Pop\(void\*&\)'
    label = 'SubQueue::Pop'
    params = [('this', 'SQ'), ('aOutItem', 'Out')]

    def lv(self, E):
        g, sp = E.S.ghost, E.ex.spec
        return [('nothing popped yet', g['pops'] == 0)] + sp.inv(E.S) + sp.rely(E.L, E.S) + self.keeps(E)
    loops = property(lambda self: [Loop({}, self.lv)])

    def post(self, E):
        g0, g, sp = E.S0.ghost, E.S.ghost, E.ex.spec
        out = E.S.ld('Out', 0, 'ptr', E.b('aOutItem'))
        return [('false - all the items of the sub-queue are popped', Implies(Not(E.ret), And(g['pops'] == 0, g['rd'] == sp.sz(E.S)))),
                ('null - nothing was visible at some moment', Implies(And(E.ret, out == 0), And(g['pops'] == 0, g['empty']))),
                ('item - the next one, popped once', Implies(And(E.ret, out != 0), And(g['pops'] == 1, out == Select(g['V'], g['pk']), g0['rd'] <= g['pk'], g['pk'] < g['rd']))),
                ('nothing is published', g['npub'] == 0)] + self.keeps(E)


SubQ.contracts = [SPush(), SPushPending(), SFlush(), SIsFull(), SPop()]


class LifeCon(RCon):
    params = [('this', 'SQ')]

    def fresh_life(self, E):
        sp, t = E.ex.spec, E.b('this')
        c = lambda n, ty='i32': E.S.ld('SQ', getattr(sp, n), ty, t)
        return [('nothing popped, visible or written', And(c('s_r') == 0, c('s_f') == 0, c('s_w') == 0, c('s_fp', 'ptr') == 0)),
                ('no visible items', Select(S_arr(E, c('s_q', 'ptr')), 0) == 0)]


def S_arr(E, q):
    return E.S.arr('SL', 0, 'ptr', q)


class SReset(LifeCon):
    name = S_ + r'Reset\(\)'
    label = 'SubQueue::Reset'

    def pre(self, E):
        sp, t = E.ex.spec, E.b('this')
        c = lambda n, ty='i32': E.S.ld('SQ', getattr(sp, n), ty, t)
        z = c('s_size')
        return [('this', t != 0), ('slots', And(c('s_q', 'ptr') != 0, c('s_q', 'ix') == 0)), ('size', And(0 < z, z < M32 - 1)),
                ('exhausted, full, not in the list, nobody attached', And(c('s_r') == z, c('s_f') == z, c('s_w') == z, c('s_fp', 'ptr') == 0,
                                                                         c('s_cc') == 0, c('s_prev', 'ptr') == 0, c('s_next', 'ptr') == 0))]

    def modifies(self, E):
        sp, t = E.ex.spec, E.b('this')
        return {('SQ', sp.s_r, 'i32'): [t], ('SQ', sp.s_f, 'i32'): [t], ('SQ', sp.s_w, 'i32'): [t], sp.ks: [E.S0.ld('SQ', sp.s_q, 'ptr', t)]}

    def post(self, E):
        return self.fresh_life(E)


class SCtor(LifeCon):
    name = S_ + r'MCQBaseSubQueue\(unsigned int\)'
    label = 'SubQueue::SubQueue'
    params = [('this', 'SQ'), ('aSize', None)]
    loops = property(lambda self: [Loop({'arrayctor.cur': 'ptr'}, self.lv, cls={'arrayctor.cur': 'SL'})])

    def lv(self, E):
        sp, t = E.ex.spec, E.b('this')
        p = E.r['arrayctor.cur']
        n = E.S.ghost.get('newslots')
        return [('initialized slots', And(p.base == E.S.ghost['newp'], 0 <= p.idx, p.idx < n))]

    def pre(self, E):
        z = E.a['aSize']
        return [('this', E.b('this') != 0), ('size', And(0 < z, z < M32 - 1))]

    def modifies(self, E):
        return None

    def post(self, E):
        sp, t = E.ex.spec, E.b('this')
        c = lambda n, ty='i32': E.S.ld('SQ', getattr(sp, n), ty, t)
        return [('own slots', And(c('s_q', 'ptr') != 0, c('s_q', 'ptr') == E.S.ghost['newp'], E.S.ghost['newslots'] == E.a['aSize'] + 1, c('s_q', 'ix') == 0)), ('size', c('s_size') == E.a['aSize']),
                ('not in a list, nobody attached', And(c('s_cc') == 0, c('s_prev', 'ptr') == 0, c('s_next', 'ptr') == 0))] + self.fresh_life(E)


class SDtor(LifeCon):
    name = S_ + r'~MCQBaseSubQueue\(\)'
    label = 'SubQueue::~SubQueue'

    def pre(self, E):
        sp, t = E.ex.spec, E.b('this')
        c = lambda n, ty='i32': E.S.ld('SQ', getattr(sp, n), ty, t)
        return [('this', t != 0), ('slots', And(c('s_q', 'ptr') != 0, c('s_q', 'ix') == 0)), ('not in a list, nobody attached', And(c('s_cc') == 0, c('s_prev', 'ptr') == 0, c('s_next', 'ptr') == 0)),
                ('nothing freed yet', E.S.ghost['freed'] == 0)]

    def post(self, E):
        sp, t = E.ex.spec, E.b('this')
        return [('its slots are freed', E.S.ghost['freed'] == E.S0.ld('SQ', sp.s_q, 'ptr', t))]


class SubQLife(SubQ):
    concurrent = False
    ghost_sorts = dict(newslots=I, newp=I, freed=I)
    env_ghosts = ()
    assumptions = ('nobody else uses a sub-queue while it is created, reset or destroyed (obligations of the queue level)', 'operator new returns a fresh object')
    contracts = [SReset(), SCtor(), SDtor()]

    def init_state(self, ex, S):
        RG.init_state(self, ex, S)

    def array_bound(self, ex, S, p):
        if p.cls == 'SL':
            if 'aSize' in ex.topE.a:
                return (IntVal(0), S.ghost["newslots"])
            return (IntVal(0), self.sz(S) + 1)

    def alloc(self, ex, ctx, S, size, ins):
        b = fresh('slots')
        ex.assume(S, b != 0)
        S.ghost['newp'] = b
        n = fresh('nslots')
        ex.assume(S, And(n * 8 <= size, size < n * 8 + 8))
        S.ghost['newslots'] = n
        return Ptr(b, 0, 'SL', IntVal(0))

    def free(self, ex, ctx, S, p):
        ex.prove(S, And(p.base == self.c(S, 's_q', 'ptr'), p.idx == 0, S.ghost['freed'] == 0), 'frees its slots once', ex.cur_loc, 'call-pre')
        S.ghost['freed'] = p.base

    def on_access(self, ex, S, p, what):
        pass



# -- level B -------------------------------------------------------------------------------

SZ, QB = Int('SZ'), Int('QB')


def on(a, v):
    return Select(a, v) == 1


class MCQ(RG):
    tu = 'mcq.cpp'
    ghost_sorts = dict(V=ARR, vn=I, wn=I, rd=I, off=ARR, inl=ARR, priv=ARR, mine=ARR, oth=ARR, gw=I, gt=I, ns=I, lk=B, P=B, undec=I, myund=I, ann=I,
                       mycon=I, othcon=I, pops=I, pk=I, npub=I, empty=B, was0=B, nadd=I, nxo=I, npriv=I, cc0=ARR, cacq=B)
    env_ghosts = ('V', 'vn', 'wn', 'rd', 'off', 'inl', 'oth', 'gw', 'gt', 'ns', 'undec', 'ann', 'othcon')
    concurrent = True
    handlers = [(r'mg::box::Mutex::Lock\(\)', 'h_lock'), (r'mg::box::Mutex::Unlock\(\)', 'h_unlock'), (r'mg::box::Mutex::IsOwnedByThisThread\(\) const', 'h_owned'),
                (r'mg::box::Mutex::~?Mutex\(\)', 'h_nop'),
                (S_ + r'MCQBaseSubQueue\(unsigned int\)', 'h_sctor'), (S_ + r'~MCQBaseSubQueue\(\)', 'h_sdtor'), (S_ + r'Reset\(\)', 'h_reset'),
                (S_ + r'Push\(void\*\)', 'h_push'), (S_ + r'PushPending\(void\*\)', 'h_pushp'), (S_ + r'FlushPending\(\)', 'h_flush'),
                (S_ + r'IsFull\(\) const', 'h_full'), (S_ + r'Pop\(void\*&\)', 'h_pop')]
    assumptions = RG.assumptions + ('the lock excludes and orders (B09)', 'one producer at a time; a consumer object is used by one thread at a time; all consumers detach before the queue is destroyed',
                                    'less than 2^32 items, consumers and sub-queues at a time', 'operator new returns a fresh object',
                                    'the sub-queue operations behave as proved for one sub-queue (specs SubQ, SubQLife), the sub-queue s holding the items number off(s)..off(s)+size-1',
                                    'the number of elements of an empty set is 0 (sub-queue counter)')

    def on_attach(self):
        for n in ('s_r', 's_f', 's_w', 's_fp', 's_q', 's_size', 's_cc', 's_prev', 's_next', 'q_count', 'q_pend', 'q_lock', 'q_sqc', 'q_cc', 'q_head', 'q_wpos', 'q_tail', 'c_sub', 'c_queue'):
            setattr(self, n, self.k(n))
        M = lambda o, ty='i32': ('MQ', o, ty)
        s = lambda o, ty='i32': ('SQ', o, ty)
        self.kcount, self.ksqc, self.kcc, self.kr = M(self.q_count), M(self.q_sqc), M(self.q_cc), s(self.s_r)
        self.khead, self.kwpos, self.ktail, self.kpend = M(self.q_head, 'ptr'), M(self.q_wpos, 'ptr'), M(self.q_tail, 'ptr'), M(self.q_pend)
        self.kscc, self.kprev, self.knext, self.ksize = s(self.s_cc), s(self.s_prev, 'ptr'), s(self.s_next, 'ptr'), s(self.s_size)
        self.ksub, self.kque = ('CO', self.c_sub, 'ptr'), ('CO', self.c_queue, 'ptr')
        self.shared = (self.kcount, self.ksqc, self.kcc, self.kr) if self.concurrent else ()
        self.env_cells = (self.khead, self.kwpos, self.ktail, self.kpend, self.kscc, self.kprev, self.knext)
        self.classes = {'SQ': Cls({self.s_prev: To('SQ'), self.s_next: To('SQ')}), 'MQ': Cls({self.q_head: To('SQ'), self.q_wpos: To('SQ'), self.q_tail: To('SQ')}),
                        'CO': Cls({self.c_sub: To('SQ'), self.c_queue: To('MQ')}), 'Item': Cls({}), 'Out': Cls({0: To('Item')})}

    def no_inline(self, n, dem):
        import re
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def inline_loops(self, name):
        c = self.contract_for(name)
        return c.loops if c is not None else None

    def m(self, S, k):
        return Select(S.get(k), QB)

    # -- invariants
    def inv(self, S, E=None):
        g = S.ghost
        off, inl, pr = g['off'], g['inl'], g['priv']
        att = Select(g['mine'], x) + Select(g['oth'], x)
        return [('popped, visible and written items', And(0 <= g['rd'], g['rd'] <= g['vn'], g['vn'] <= g['wn'])),
                ('the sub-queue being written', And(on(inl, g['gw']), g['gw'] != 0, 0 <= Select(off, g['gw']), Select(off, g['gw']) <= g['vn'], g['wn'] <= Select(off, g['gw']) + SZ)),
                ('sub-queues', ForAll([x], Implies(on(inl, x), And(x != 0, Select(S.get(self.ksize), x) == SZ, Not(on(pr, x)))), patterns=[Select(inl, x)])),
                ('private sub-queues', ForAll([x], Implies(on(pr, x), And(x != 0, Select(S.get(self.ksize), x) == SZ, Not(on(inl, x)), att == 0)), patterns=[Select(pr, x)])),
                ('attachments', ForAll([x], And(Select(g['mine'], x) >= 0, Select(g['oth'], x) >= 0), patterns=[Select(g['mine'], x)])),
                ('attachments.2', ForAll([x], And(Select(g['mine'], x) >= 0, Select(g['oth'], x) >= 0), patterns=[Select(g['oth'], x)])),
                ('consumers are attached to listed sub-queues, all items before them are popped', ForAll([x], Implies(att > 0, And(on(inl, x), Select(off, x) <= g['rd'], Select(off, x) <= Select(off, g['gw']))),
                                                                                                      patterns=[Select(g['mine'], x)])),
                ('counter', And(g['undec'] >= 0, g['myund'] >= 0, g['ann'] >= 0, self.m(S, self.kcount) == g['vn'] - g['rd'] + g['ann'] + g['undec'] + g['myund'])),
                ('consumer counter', And(g['mycon'] >= 0, g['othcon'] >= 0, self.m(S, self.kcc) == g['mycon'] + g['othcon']))]

    def linv(self, S):
        g = S.ghost
        off, inl, rd = g['off'], g['inl'], g['rd']
        nx, pv = S.get(self.knext), S.get(self.kprev)
        n, p = Select(nx, x), Select(pv, x)
        h, t = self.m(S, self.khead), self.m(S, self.ktail)
        o = lambda v: Select(off, v)
        return [('items of different sub-queues do not overlap', ForAll([x, y], Implies(And(on(inl, x), on(inl, y), x != y), Or(o(x) + SZ <= o(y), o(y) + SZ <= o(x))),
                                                                       patterns=[z3.MultiPattern(Select(inl, x), Select(inl, y))])),
                ('head', And(h != 0, on(inl, h), ForAll([x], Implies(on(inl, x), o(h) <= o(x)), patterns=[Select(inl, x)]))),
                ('everything before the head is popped', o(h) <= rd),
                ('tail', And(t == g['gt'], t != 0, on(inl, t), ForAll([x], Implies(on(inl, x), o(x) <= o(t)), patterns=[Select(inl, x)]))),
                ('write position', self.m(S, self.kwpos) == g['gw']),
                ('next', ForAll([x], Implies(on(inl, x), And((n == 0) == (x == t), Implies(n != 0, And(on(inl, n), o(x) < o(n), Select(pv, n) == x)))), patterns=[Select(nx, x)])),
                ('next is the closest', ForAll([x, y], Implies(And(on(inl, x), on(inl, y), o(x) < o(y)), And(n != 0, o(n) <= o(y))), patterns=[z3.MultiPattern(Select(nx, x), Select(inl, y))])),
                ('prev', ForAll([x], Implies(on(inl, x), And((p == 0) == (x == h), Implies(p != 0, And(on(inl, p), o(p) < o(x), Select(nx, p) == x)))), patterns=[Select(pv, x)])),
                ('items between neighbours are popped', ForAll([x], Implies(And(on(inl, x), n != 0), Or(o(n) == o(x) + SZ, And(o(n) <= rd, o(n) <= o(g['gw'])))), patterns=[Select(nx, x)])),
                ('consumers of a sub-queue are counted', ForAll([x], Implies(on(inl, x), Select(S.get(self.kscc), x) == Select(g['mine'], x) + Select(g['oth'], x)), patterns=[Select(S.get(self.kscc), x)])),
                ('sub-queues are counted', And(g['ns'] >= 1, self.m(S, self.ksqc) == g['ns']))]

    def rely(self, S0, S):
        g0, g = S0.ghost, S.ghost
        same = lambda *ns: And(*[g[n] == g0[n] for n in ns])
        samec = lambda *ks: And(*[S.get(k) == S0.get(k) for k in ks])
        mcells = lambda *ks: And(*[self.m(S, k) == self.m(S0, k) for k in ks])
        r = [('popped and visible only grow', And(g['rd'] >= g0['rd'], g['vn'] >= g0['vn'])),
             ('visible items stay', ForAll([j], Implies(And(0 <= j, j < g0['vn']), Select(g['V'], j) == Select(g0['V'], j)), patterns=[Select(g['V'], j)])),
             ('sub-queues used by this thread stay', ForAll([x], Implies(Select(g0['mine'], x) > 0, Select(g['off'], x) == Select(g0['off'], x)), patterns=[Select(g['off'], x)])),
             ('private ones are private', ForAll([x], Implies(on(g0['priv'], x), And(Select(g['off'], x) == Select(g0['off'], x), Select(S.get(self.knext), x) == Select(S0.get(self.knext), x),
                                                 Select(S.get(self.kprev), x) == Select(S0.get(self.kprev), x), Select(S.get(self.kscc), x) == Select(S0.get(self.kscc), x))), patterns=[Select(g0['priv'], x)])),
             ('only the producer pushes', Implies(g['P'], And(same('V', 'vn', 'wn', 'gw', 'ann'), Select(g['off'], g['gw']) == Select(g0['off'], g0['gw']), mcells(self.kwpos, self.kpend)))),
             ('the list is changed under the lock', Implies(g['lk'], And(same('off', 'inl', 'oth', 'gw', 'gt', 'ns'), samec(self.kscc, self.kprev, self.knext), mcells(self.khead, self.kwpos, self.ktail, self.ksqc)))),
             ('less than 2^32', And(g['ns'] < M32, g['ann'] >= 0))]
        return r

    def interfere(self, ex, S):
        g = S.ghost
        if self.concurrent:
            RG.interfere(self, ex, S)
        g['empty'] = Or(g['empty'], g['rd'] == g['vn'])

    # -- plain accesses
    def on_access(self, ex, S, p, what):
        if not self.concurrent or p.local is not None:
            return
        g = S.ghost
        w = what != 'load'
        if p.cls == 'SQ':
            if p.off in (self.s_cc, self.s_prev, self.s_next):
                ex.prove(S, Or(g['lk'], on(g['priv'], p.base)), 'list links and attachments are touched under the lock (%s)' % what, ex.cur_loc, 'race')
                ex.prove(S, Or(on(g['inl'], p.base), on(g['priv'], p.base)), 'a sub-queue of this queue (%s)' % what, ex.cur_loc, 'race')
            elif p.off == self.s_size:
                ex.prove(S, BoolVal(not w), 'the size is constant', ex.cur_loc, 'race')
            elif p.off != self.s_r:
                ex.prove(S, BoolVal(False), 'the indexes and slots are touched by the sub-queue operations only', ex.cur_loc, 'race')
        elif p.cls == 'MQ':
            ex.prove(S, p.base == QB, 'own queue', ex.cur_loc, 'race')
            if p.off in (self.q_head, self.q_tail):
                ex.prove(S, g['lk'], 'head and tail are used under the lock (%s)' % what, ex.cur_loc, 'race')
            elif p.off == self.q_wpos:
                ex.prove(S, And(g['lk'], g['P']) if w else Or(g['lk'], g['P']), 'the write position is changed by the producer under the lock (%s)' % what, ex.cur_loc, 'race')
            elif p.off == self.q_pend:
                ex.prove(S, g['P'], 'the pending counter belongs to the producer (%s)' % what, ex.cur_loc, 'race')

    def clamp(self, g, s):
        r = g['rd'] - Select(g['off'], s)
        return If(r <= 0, 0, If(r >= SZ, SZ, r))

    def on_read(self, ex, S, p, val, order):
        g = S.ghost
        if p.cls == 'SQ':
            ex.prove(S, Or(on(g['priv'], p.base), Select(g['mine'], p.base) > 0, And(g['lk'], on(g['inl'], p.base))), 'the sub-queue stays while its read-index is read', ex.cur_loc, 'race')
            ex.assume(S, Implies(on(g['inl'], p.base), val == self.clamp(g, p.base)))
        elif p.off == self.q_count:
            g['cacq'] = BoolVal(order in ACQ)

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        if p.cls == 'SQ':
            ex.prove(S, BoolVal(False), 'the read-index is moved by the sub-queue operations only', ex.cur_loc, 'guarantee')
            raise PathEnd()
        if p.off == self.q_count:
            if ex.quick(S, new == old - 1):
                ex.prove(S, g['myund'] >= 1, 'one decrease of the counter per popped item', ex.cur_loc, 'guarantee')
                self.order(ex, S, order, 'release', 'decreasing the counter')
                g['myund'] = g['myund'] - 1
            else:
                ex.assume(S, old + g['wn'] - g['vn'] + 1 < M32)
                ex.prove(S, And(g['P'], new > old), 'the counter is increased by the producer', ex.cur_loc, 'guarantee')
                g['ann'] = g['ann'] + new - old
                g['was0'] = old == 0
                g['nadd'] = g['nadd'] + 1
        elif p.off == self.q_cc:
            if ex.quick(S, new == old - 1):
                g['mycon'] = g['mycon'] - 1
            else:
                ex.assume(S, old + 1 < M32)
                g['mycon'] = g['mycon'] + new - old
        else:
            ex.prove(S, g['lk'], 'the counter of sub-queues is changed under the lock', ex.cur_loc, 'guarantee')

    # -- the lock
    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def here(self, ex, S, p):
        ex.prove(S, And(p.base == QB, BoolVal(p.local is None and p.off == self.q_lock and p.cls == 'MQ')), 'the lock of this queue', ex.cur_loc, 'call-pre')

    def h_owned(self, ex, ctx, S, v, ins):
        self.here(ex, S, v[0])
        return S.ghost['lk']

    def h_lock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0])
        ex.prove(S, Not(g['lk']), 'not locked twice', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        g['lk'] = BoolVal(True)
        for lab, f in self.linv(S):
            ex.assume(S, f)
        g['cc0'] = S.get(self.kscc)
        ex.assume(S, ForAll([x], Select(g['mine'], x) + Select(g['oth'], x) < M32 - 1, patterns=[Select(g['oth'], x)]))
        g['nxo'] = Select(g['off'], g['gt']) + SZ
        g['npriv'] = IntVal(0)

    def sync(self, ex, S):
        g = S.ghost
        m2 = fresh('mine', ARR)
        cc = S.get(self.kscc)
        ex.assume(S, ForAll([x], Select(m2, x) == Select(g['mine'], x) + If(on(g['inl'], x), Select(cc, x) - Select(g['cc0'], x), 0), patterns=[Select(m2, x)]))
        g['mine'] = m2
        g['cc0'] = cc

    def h_unlock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.here(ex, S, v[0])
        ex.prove(S, g['lk'], 'unlocks what it locked', ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        self.unlock(ex, S)
        g['lk'] = BoolVal(False)
        self.interfere(ex, S)

    def unlock(self, ex, S):
        g = S.ghost
        self.sync(ex, S)
        t, w = self.m(S, self.ktail), self.m(S, self.kwpos)
        if not ex.quick(S, t == g['gt']):
            inl2, zero = fresh('inl', ARR), fresh('priv', ARR)
            inl, pr = g['inl'], g['priv']
            ex.assume(S, ForAll([x], Select(inl2, x) == If(Or(on(inl, x), on(pr, x)), 1, 0), patterns=[Select(inl2, x)]))
            ex.assume(S, ForAll([x], Select(inl, x) == If(And(on(inl2, x), Not(on(pr, x))), 1, 0), patterns=[Select(inl, x)]) if False else BoolVal(True))
            ex.assume(S, ForAll([x], Select(zero, x) == 0, patterns=[Select(zero, x)]))
            g['inl'], g['priv'] = inl2, zero
            g['ns'], g['npriv'], g['gt'] = g['ns'] + g['npriv'], IntVal(0), t
        if not ex.quick(S, w == g['gw']):
            o = lambda s: Select(g['off'], s)
            ex.prove(S, And(g['P'], on(g['inl'], w), o(w) == o(g['gw']) + SZ, g['vn'] == o(w), g['wn'] == o(w)), 'the write position moves to the next sub-queue when the current one is full', ex.cur_loc, 'guarantee')
            g['gw'] = w
        self.check(ex, S, 'unlocking')
        for lab, f in self.linv(S):
            ex.prove(S, f, 'the lock is released: ' + lab, ex.cur_loc, 'invariant')

    # -- sub-queue operations
    def alloc(self, ex, ctx, S, size, ins):
        g = S.ghost
        b = fresh('newsq')
        ex.prove(S, size == self.k('size_sq'), 'room for a sub-queue', ex.cur_loc, 'call-pre')
        ex.assume(S, And(b != 0, Select(g['inl'], b) == 0, Select(g['priv'], b) == 0, Select(g['mine'], b) == 0, Select(g['oth'], b) == 0))
        return Ptr(b, 0, 'SQ')

    def free(self, ex, ctx, S, p):
        ex.prove(S, BoolVal(False), 'nothing is freed', ex.cur_loc, 'guarantee')

    def setc(self, S, k, b, v):
        S.set(k, Store(S.get(k), b, v))

    def adopt(self, ex, S, b):
        g = S.ghost
        g['priv'] = Store(g['priv'], b, IntVal(1))
        g['off'] = Store(g['off'], b, g['nxo'])
        g['nxo'] = g['nxo'] + SZ
        g['npriv'] = g['npriv'] + 1
        ex.assume(S, g['ns'] + g['npriv'] < M32)

    def h_sctor(self, ex, ctx, S, v, ins):
        p, n = v[0], v[1]
        ex.prove(S, n == SZ, 'all the sub-queues have the same size', ex.cur_loc, 'call-pre')
        self.setc(S, self.ksize, p.base, n)
        for k in (self.kscc, self.kprev, self.knext):
            self.setc(S, k, p.base, IntVal(0))
        self.adopt(ex, S, p.base)

    def h_sdtor(self, ex, ctx, S, v, ins):
        ex.prove(S, BoolVal(False), 'sub-queues live as long as the queue', ex.cur_loc, 'guarantee')

    def h_reset(self, ex, ctx, S, v, ins):
        g = S.ghost
        s = v[0].base
        P = lambda f, what: ex.prove(S, f, 'recycling: ' + what, ex.cur_loc, 'call-pre')
        self.interfere(ex, S)
        P(And(g['lk'], on(g['inl'], s)), 'a listed sub-queue, under the lock')
        P(s != g['gw'], 'not the one being written')
        P(Select(S.get(self.kscc), s) == 0, 'nobody is attached')
        P(And(Select(S.get(self.kprev), s) == 0, Select(S.get(self.knext), s) == 0), 'unlinked')
        P(g['rd'] >= Select(g['off'], s) + SZ, 'all of its items are popped')
        P(Select(g['off'], s) + SZ <= Select(g['off'], g['gw']), 'full')
        self.sync(ex, S)
        P(And(Select(g['mine'], s) == 0, Select(g['oth'], s) == 0), 'nobody is attached')
        g['inl'] = Store(g['inl'], s, IntVal(0))
        g['ns'] = g['ns'] - 1
        self.adopt(ex, S, s)
        self.check(ex, S, 'recycling')

    def prod(self, ex, S, p):
        self.interfere(ex, S)
        g = S.ghost
        ex.prove(S, And(g['P'], p.base == g['gw']), 'the producer writes at the write position', ex.cur_loc, 'call-pre')

    def publish(self, ex, S, cond):
        g = S.ghost
        k = If(cond, g['wn'] - g['vn'], 0)
        ex.prove(S, g['ann'] >= k, 'items are counted before they become visible', ex.cur_loc, 'guarantee')
        g['ann'] = g['ann'] - k
        g['vn'] = g['vn'] + k
        g['npub'] = g['npub'] + If(k > 0, 1, 0)
        self.check(ex, S, 'publishing')

    def write(self, ex, S, p, item):
        g = S.ghost
        ok = g['wn'] < Select(g['off'], g['gw']) + SZ
        ex.prove(S, item.base != 0, 'the item is not null', ex.cur_loc, 'call-pre')
        V = fresh('V', ARR)
        ex.assume(S, V == If(ok, Store(g['V'], g['wn'], item.base), g['V']))
        g['V'], g['wn'] = V, If(ok, g['wn'] + 1, g['wn'])
        return ok

    def h_push(self, ex, ctx, S, v, ins):
        self.prod(ex, S, v[0])
        ok = self.write(ex, S, v[0], v[1])
        self.publish(ex, S, ok)
        return ok

    def h_pushp(self, ex, ctx, S, v, ins):
        self.prod(ex, S, v[0])
        ok = self.write(ex, S, v[0], v[1])
        self.check(ex, S, 'pushing')
        return ok

    def h_flush(self, ex, ctx, S, v, ins):
        self.prod(ex, S, v[0])
        r = S.ghost['wn'] > S.ghost['vn']
        self.publish(ex, S, BoolVal(True))
        return r

    def h_full(self, ex, ctx, S, v, ins):
        self.prod(ex, S, v[0])
        g = S.ghost
        return g['vn'] == Select(g['off'], g['gw']) + SZ

    def h_pop(self, ex, ctx, S, v, ins):
        g = S.ghost
        s, out = v[0].base, v[1]
        self.interfere(ex, S)
        ex.prove(S, And(s != 0, Select(g['mine'], s) > 0), 'pops from a sub-queue it is attached to', ex.cur_loc, 'call-pre')
        ex.prove(S, Select(g['off'], s) <= g['rd'], 'everything before is already popped', ex.cur_loc, 'guarantee')
        end = g['rd'] >= Select(g['off'], s) + SZ
        alts = [(end, 0), (And(Not(end), g['rd'] == g['vn']), 1), (And(Not(end), g['rd'] < g['vn']), 2)]
        alts = [(c, a) for c, a in alts if ex.feasible(S, c)]
        loc = ex.cur_loc

        def apply(c2, S2, a):
            def later(ex2, S3):
                g3 = S3.ghost
                ex2.cur_loc = loc
                if a == 0:
                    junk = fresh('junk')
                    ex2.raw_store(S3, out, 'ptr', Ptr(junk, 0, 'Item'))
                elif a == 1:
                    ex2.raw_store(S3, out, 'ptr', Ptr(IntVal(0), 0, 'Item'))
                else:
                    it = fresh('item')
                    ex2.assume(S3, And(it == Select(g3['V'], g3['rd']), it != 0))
                    ex2.raw_store(S3, out, 'ptr', Ptr(it, 0, 'Item'))
                    g3['pops'], g3['pk'], g3['rd'], g3['myund'] = g3['pops'] + 1, g3['rd'], g3['rd'] + 1, g3['myund'] + 1
                    self.check(ex2, S3, 'popping')
            S2.pending.append(later)
            c2.fr[ins.dst] = BoolVal(a != 0)
        raise Split(alts, apply)


class MCon(RCon):
    prod = False

    def qbase(self, E):
        return E.b('this')

    def pre(self, E):
        sp, g = E.ex.spec, E.S.ghost
        r = [('this', And(E.b('this') != 0, QB != 0, self.qbase(E) == QB)), ('size', And(0 < SZ, SZ < M32 - 1)), ('role', g['P'] == BoolVal(self.prod)), ('not locked', Not(g['lk'])),
             ('nothing private', ForAll([x], Select(g['priv'], x) == 0, patterns=[Select(g['priv'], x)])),
             ('counters', And(g['pops'] == 0, g['npub'] == 0, Not(g['empty']), g['myund'] == 0, g['nadd'] == 0, Not(g['cacq'])))] + sp.inv(E.S)
        if self.prod:
            r += self.prodinv(E)
        if 'aItem' in E.a:
            r.append(('not null', E.b('aItem') != 0))
        return r

    def prodinv(self, E):
        sp, g = E.ex.spec, E.S.ghost
        return [('producer: counts the pending items', And(sp.m(E.S, sp.kpend) == g['wn'] - g['vn'], g['ann'] == 0)), ('producer: knows the write position', sp.m(E.S, sp.kwpos) == g['gw'])]

    def same_mine(self, E, a=None, b=None):
        g0, g = E.S0.ghost, E.S.ghost
        d = 0
        if a is not None:
            d = d - If(x == a, 1, 0)
        if b is not None:
            d = d + If(x == b, 1, 0)
        return ForAll([x], Select(g['mine'], x) == Select(g0['mine'], x) + d, patterns=[Select(g['mine'], x)])

    def done(self, E):
        sp, g = E.ex.spec, E.S.ghost
        return [('not locked', Not(g['lk'])), ('every popped item is uncounted', g['myund'] == 0)] + sp.inv(E.S) + (self.prodinv(E) if self.prod else [])

    def noprod(self, E):
        g = E.S.ghost
        return ('nothing is published or counted', And(g['npub'] == 0, g['nadd'] == 0))


QQ = r'mg::box::(MCQBaseQueue|MultiConsumerQueue<Item>)::'
CC = r'mg::box::(MCQBaseConsumer|MultiConsumerQueueConsumer<Item>)::'


class QPush(MCon):
    name = QQ + r'Push\((void|Item)\*\)'
    label = 'MultiConsumerQueue::Push'
    params = [('this', 'MQ'), ('aItem', 'Item')]
    prod = True

    def post(self, E):
        g0, g = E.S0.ghost, E.S.ghost
        return [('the item is the next one', And(g['wn'] == g0['wn'] + 1, Select(g['V'], g0['wn']) == E.b('aItem'))),
                ('the others stay', ForAll([j], Implies(And(0 <= j, j < g0['wn']), Select(g['V'], j) == Select(g0['V'], j)), patterns=[Select(g['V'], j)])),
                ('it and everything pending is visible', g['vn'] == g['wn']),
                ('nothing popped', g['pops'] == 0),
                ('tells if the queue was empty when the items were counted', And(g['nadd'] == 1, E.ret == g['was0']))] + self.done(E)


class QPushPending(MCon):
    name = QQ + r'PushPending\((void|Item)\*\)'
    label = 'MultiConsumerQueue::PushPending'
    params = [('this', 'MQ'), ('aItem', 'Item')]
    prod = True

    def post(self, E):
        g0, g = E.S0.ghost, E.S.ghost
        return [('the item is the next one', And(g['wn'] == g0['wn'] + 1, Select(g['V'], g0['wn']) == E.b('aItem'))),
                ('the others stay', ForAll([j], Implies(And(0 <= j, j < g0['wn']), Select(g['V'], j) == Select(g0['V'], j)), patterns=[Select(g['V'], j)])),
                ('it does not become visible', g['vn'] <= g0['wn']), ('nothing popped', g['pops'] == 0),
                ('tells if the queue was empty when items were counted', If(g['nadd'] == 0, And(Not(E.ret), g['vn'] == g0['vn']), And(g['nadd'] == 1, E.ret == g['was0'])))] + self.done(E)


class QFlush(MCon):
    name = QQ + r'FlushPending\(\)'
    label = 'MultiConsumerQueue::FlushPending'
    params = [('this', 'MQ')]
    prod = True

    def post(self, E):
        g0, g = E.S0.ghost, E.S.ghost
        return [('everything pending becomes visible', And(g['vn'] == g0['wn'], g['wn'] == g0['wn'], g['V'] == g0['V'])), ('nothing popped', g['pops'] == 0),
                ('tells if the queue was empty when items were counted', If(g['nadd'] == 0, And(Not(E.ret), g0['wn'] == g0['vn']), And(g['nadd'] == 1, E.ret == g['was0'])))] + self.done(E)


class QCount(MCon):
    name = QQ + r'Count\(\)'
    label = 'MultiConsumerQueue::Count'
    params = [('this', 'MQ')]

    def post(self, E):
        g = E.S.ghost
        return [('zero - nothing was visible at some moment', Implies(E.ret == 0, g['empty'])),
                ('sees what was done before the decreases (acquire)', g['cacq']), ('nothing popped', g['pops'] == 0), self.noprod(E)] + self.done(E)


class QReserve(MCon):
    name = QQ + r'Reserve\(unsigned int\)'
    label = 'MultiConsumerQueue::Reserve'
    params = [('this', 'MQ'), ('aCount', None)]
    loops = property(lambda self: [Loop({'i': 'i32', 'tail': 'ptr'}, self.lv, cls={'tail': 'SQ'})])

    def lv(self, E):
        sp, S, S0, L = E.ex.spec, E.S, E.S0, E.L
        g, l = S.ghost, E.L.ghost
        nx, pv, off, pr = S.get(sp.knext), S.get(sp.kprev), g['off'], g['priv']
        i, t = E.r['i'], E.r['tail'].base
        h = [p for p in [self.chain_head(E)]][0]
        n = Select(nx, x)
        o = lambda v: Select(off, v)
        same = lambda k: ForAll([x], Implies(Not(on(pr, x)), Select(S.get(k), x) == Select(L.get(k), x)), patterns=[Select(S.get(k), x)])
        base = Select(L.ghost['off'], L.ghost['gt'])
        a = E.a['aCount']
        want = a / SZ + If(a % SZ != 0, 1, 0)
        return [('not more than wanted', g['ns'] + i <= want), ('lock', And(g['lk'], i >= 1, g['npriv'] == i, g['nxo'] == base + SZ * (i + 1) if False else g['nxo'] == o(t) + SZ)),
                ('ghosts', And(*[g[n_] == l[n_] for n_ in ('inl', 'oth', 'mine', 'gw', 'gt', 'ns', 'cc0', 'mycon')], g['pops'] == 0, g['npub'] == 0, g['nadd'] == 0, g['myund'] == 0)),
                ('chain ends', And(on(pr, h), on(pr, t), h != 0, t != 0, o(h) == base + SZ, Select(pv, h) == 0, Select(nx, t) == 0)),
                ('chain', ForAll([x], Implies(on(pr, x), And(x != 0, o(h) <= o(x), o(x) <= o(t), (n == 0) == (x == t), Implies(n != 0, And(on(pr, n), o(n) == o(x) + SZ, Select(pv, n) == x)),
                          Select(S.get(sp.kscc), x) == 0, Select(S.get(sp.ksize), x) == SZ, Not(on(g['inl'], x)),
                          (Select(pv, x) == 0) == (x == h), Implies(Select(pv, x) != 0, And(on(pr, Select(pv, x)), Select(nx, Select(pv, x)) == x, o(Select(pv, x)) < o(x))))), patterns=[Select(pr, x)])),
                ('chain order', ForAll([x, y], Implies(And(on(pr, x), on(pr, y), x != y), Or(o(x) + SZ <= o(y), o(y) + SZ <= o(x))), patterns=[z3.MultiPattern(Select(pr, x), Select(pr, y))])),
                ('list', And(same(sp.knext), same(sp.kprev), same(sp.kscc))), ('size', ForAll([x], Implies(on(l['inl'], x), Select(S.get(sp.ksize), x) == SZ), patterns=[Select(S.get(sp.ksize), x)])),
                ('positions', ForAll([x], Implies(Not(on(pr, x)), o(x) == Select(l['off'], x)), patterns=[o(x)])),
                ('queue', And(*[sp.m(S, k) == sp.m(L, k) for k in (sp.khead, sp.ktail, sp.kwpos, sp.ksqc)])),
                ('progress', And(g['rd'] >= l['rd'], g['vn'] >= l['vn']))] + sp.inv(S)

    def chain_head(self, E):
        # the first allocated one: the value `tail` had when the loop was entered
        t0 = E.r0['tail']
        return t0.base if isinstance(t0, Ptr) else t0

    def post(self, E):
        g = E.S.ghost
        return [('nothing popped', g['pops'] == 0), self.noprod(E)] + self.done(E)


class CPop(MCon):
    name = CC + r'Pop\(\)'
    label = 'MultiConsumerQueueConsumer::Pop'
    params = [('this', 'CO')]
    loops = property(lambda self: [Loop({'cur': 'ptr'}, self.lv, cls={'cur': 'SQ'})])

    def qbase(self, E):
        return E.S.ld('CO', E.ex.spec.c_queue, 'ptr', E.b('this'))

    def sub(self, E, S):
        return S.ld('CO', E.ex.spec.c_sub, 'ptr', E.b('this'))

    def pre(self, E):
        return MCon.pre(self, E) + [('attached', And(self.sub(E, E.S) != 0, Select(E.S.ghost['mine'], self.sub(E, E.S)) >= 1, E.S.ghost['mycon'] >= 1))]

    def lv(self, E):
        sp, g, t = E.ex.spec, E.S.ghost, E.b('this')
        cur = E.r['cur'].base
        return [('the position is remembered', And(self.sub(E, E.S) == cur, self.qbase(E) == QB, cur != 0)),
                ('attached to the position', And(Select(g['mine'], cur) >= 1, self.same_mine(E, self.sub(E, E.S0), cur))),
                ('nothing popped', And(g['pops'] == 0, g['myund'] == 0, Not(g['lk']), g['npub'] == 0, g['nadd'] == 0, g['mycon'] == E.S0.ghost['mycon'])),
                ('nothing private', ForAll([x], Select(g['priv'], x) == 0, patterns=[Select(g['priv'], x)])),
                ('monotone', And(g['rd'] >= E.S0.ghost['rd'], Implies(E.L.ghost['empty'], g['empty'])))] + sp.inv(E.S)

    def post(self, E):
        sp, g, g0 = E.ex.spec, E.S.ghost, E.S0.ghost
        s1 = self.sub(E, E.S)
        return [('null - nothing was visible at some moment', Implies(E.ret.base == 0, And(g['pops'] == 0, g['empty']))),
                ('item - the next one, popped once', Implies(E.ret.base != 0, And(g['pops'] == 1, E.ret.base == Select(g['V'], g['pk']), g0['rd'] <= g['pk'], g['pk'] < g['rd']))),
                ('stays attached', And(self.qbase(E) == QB, s1 != 0, Select(g['mine'], s1) >= 1, g['mycon'] == g0['mycon'], self.same_mine(E, self.sub(E, E.S0), s1))),
                self.noprod(E)] + self.done(E)


class CAttach(CPop):
    name = CC + r'Attach\(mg::box::(MCQBaseQueue|MultiConsumerQueue<Item>)\*\)'
    label = 'MultiConsumerQueueConsumer::Attach'
    params = [('this', 'CO'), ('aQueue', 'MQ')]
    loops = []

    def qbase(self, E):
        return E.b('aQueue')

    def pre(self, E):
        return MCon.pre(self, E)

    def post(self, E):
        sp, g, g0 = E.ex.spec, E.S.ghost, E.S0.ghost
        s1 = self.sub(E, E.S)
        return [('attached', And(E.S.ld('CO', sp.c_queue, 'ptr', E.b('this')) == QB, s1 != 0, Select(g['mine'], s1) >= 1, self.same_mine(E, None, s1), g['mycon'] == g0['mycon'] + 1)),
                ('nothing popped', g['pops'] == 0), self.noprod(E)] + self.done(E)


class CCtor2(CAttach):
    name = CC + r'(MCQBaseConsumer|MultiConsumerQueueConsumer)\(mg::box::(MCQBaseQueue|MultiConsumerQueue<Item>)\*\)'
    label = 'MultiConsumerQueueConsumer::MultiConsumerQueueConsumer(queue)'


class CCtor(RCon):
    name = CC + r'(MCQBaseConsumer|MultiConsumerQueueConsumer)\(\)'
    label = 'MultiConsumerQueueConsumer::MultiConsumerQueueConsumer()'
    params = [('this', 'CO')]

    def pre(self, E):
        return [('this', E.b('this') != 0)]

    def post(self, E):
        sp = E.ex.spec
        return [('not attached', And(E.S.ld('CO', sp.c_queue, 'ptr', E.b('this')) == 0, E.S.ld('CO', sp.c_sub, 'ptr', E.b('this')) == 0))]


class CDetach(CPop):
    name = CC + r'(Detach|~MCQBaseConsumer|~MultiConsumerQueueConsumer)\(\)'
    label = 'MultiConsumerQueueConsumer::Detach / destructor'
    loops = []

    def pre(self, E):
        att = self.qbase(E) != 0
        r = MCon.pre(self, E)[1:]
        return [('this', And(E.b('this') != 0, QB != 0, Implies(att, self.qbase(E) == QB))),
                ('attached', Implies(att, And(self.sub(E, E.S) != 0, Select(E.S.ghost['mine'], self.sub(E, E.S)) >= 1, E.S.ghost['mycon'] >= 1)))] + r

    def post(self, E):
        sp, g, g0 = E.ex.spec, E.S.ghost, E.S0.ghost
        att = E.S0.ld('CO', sp.c_queue, 'ptr', E.b('this')) != 0
        return [('not attached', And(E.S.ld('CO', sp.c_queue, 'ptr', E.b('this')) == 0)),
                ('left the queue', If(att, And(g['mycon'] == g0['mycon'] - 1, self.same_mine(E, self.sub(E, E.S0))), And(g['mycon'] == g0['mycon'], self.same_mine(E)))),
                ('nothing popped', g['pops'] == 0), self.noprod(E)] + self.done(E)


MCQ.contracts = [QPush(), QPushPending(), QFlush(), QCount(), QReserve(), CPop(), CAttach(), CCtor2(), CCtor(), CDetach()]

class QCtor(RCon):
    name = QQ + r'(MCQBaseQueue|MultiConsumerQueue)\(unsigned int\)'
    label = 'MultiConsumerQueue::MultiConsumerQueue'
    params = [('this', 'MQ'), ('aSubQueueSize', None)]

    def pre(self, E):
        g = E.S.ghost
        z = lambda n: ForAll([x], Select(g[n], x) == 0, patterns=[Select(g[n], x)])
        return [('this', And(E.b('this') == QB, QB != 0)), ('size', And(E.a['aSubQueueSize'] == SZ, 0 < SZ, SZ < M32 - 1)),
                ('nothing exists', And(z('inl'), z('priv'), z('mine'), z('oth'), *[g[n] == 0 for n in ('nxo', 'npriv', 'vn', 'wn', 'rd', 'ann', 'undec', 'myund', 'mycon', 'othcon')])), ('not locked', Not(g['lk']))]

    def finish(self, E):
        g, sp = E.S.ghost, E.ex.spec
        g['inl'], g['priv'] = g['priv'], z3.K(I, IntVal(0))
        g['gw'] = g['gt'] = sp.m(E.S, sp.khead)
        g['ns'] = g['npriv']

    def post(self, E):
        sp = E.ex.spec
        return sp.inv(E.S) + sp.linv(E.S) + MCon.prodinv(self, E)


class QDtor(RCon):
    name = QQ + r'~(MCQBaseQueue|MultiConsumerQueue)\(\)'
    label = 'MultiConsumerQueue::~MultiConsumerQueue'
    params = [('this', 'MQ')]
    loops = property(lambda self: [Loop({'subQueueCount': 'i32'}, self.lv)])

    def pre(self, E):
        g, sp = E.S.ghost, E.ex.spec
        z = lambda n: ForAll([x], Select(g[n], x) == 0, patterns=[Select(g[n], x)])
        return [('this', And(E.b('this') == QB, QB != 0)), ('size', And(0 < SZ, SZ < M32 - 1)), ('nobody uses it', And(z('priv'), z('mine'), z('oth'), g['mycon'] == 0, g['othcon'] == 0)), ('not locked', Not(g['lk'])),
                ('less than 2^32', g['ns'] < M32)] + sp.inv(E.S) + sp.linv(E.S)

    def lv(self, E):
        sp, S, L = E.ex.spec, E.S, E.L
        g, l, g0 = S.ghost, E.L.ghost, E.S0.ghost
        nx, pv = S.get(sp.knext), S.get(sp.kprev)
        h, off, inl = sp.m(S, sp.khead), g['off'], g['inl']
        n = Select(nx, x)
        o = lambda v: Select(off, v)
        return [('lock', g['lk']), ('counted', And(E.r['subQueueCount'] == g0['ns'] - g['ns'], 0 <= g['ns'], g['ns'] <= g0['ns'], sp.m(S, sp.ksqc) == g0['ns'])),
                ('positions', And(off == g0['off'], *[g[n_] == g0[n_] for n_ in ('mine', 'oth', 'priv', 'gt')])),
                ('the rest', ForAll([x], Implies(on(inl, x), And(h != 0, o(h) <= o(x), on(g0['inl'], x))), patterns=[Select(inl, x)])),
                ('the head is in the rest', Implies(h != 0, on(inl, h))),
                ('all are freed at the end', Implies(h == 0, g['ns'] == 0)),
                ('next', ForAll([x], Implies(on(inl, x), And((n == 0) == (x == g['gt']), Implies(n != 0, And(on(inl, n), o(x) < o(n))), Select(S.get(sp.kscc), x) == 0)), patterns=[Select(nx, x)])),
                ('next is the closest', ForAll([x, y], Implies(And(on(inl, x), on(inl, y), o(x) < o(y)), And(n != 0, o(n) <= o(y))), patterns=[z3.MultiPattern(Select(nx, x), Select(inl, y))])),
                ('different', ForAll([x, y], Implies(And(on(inl, x), on(inl, y), x != y), o(x) != o(y)), patterns=[z3.MultiPattern(Select(inl, x), Select(inl, y))]))]

    def post(self, E):
        g = E.S.ghost
        return [('every sub-queue is freed', ForAll([x], Not(on(g['inl'], x)), patterns=[Select(g['inl'], x)]))]


class MCQLife(MCQ):
    concurrent = False
    contracts = [QCtor(), QDtor()]
    assumptions = MCQ.assumptions[-4:] + ('nobody else uses the queue while it is created or destroyed',)

    def pre_return(self, ex, E):
        if hasattr(ex.contract, 'finish'):
            ex.contract.finish(E)

    def unlock(self, ex, S):
        pass

    def h_sdtor(self, ex, ctx, S, v, ins):
        s = v[0].base
        z = lambda k: Select(S.get(k), s) == 0
        ex.prove(S, And(on(S.ghost['inl'], s), z(self.kscc), z(self.kprev), z(self.knext)), 'destroys an unlinked sub-queue which nobody is attached to, once', ex.cur_loc, 'call-pre')
        S.ghost['dead'] = s

    def free(self, ex, ctx, S, p):
        g = S.ghost
        s = p.base
        ex.prove(S, on(g['inl'], s), 'frees a sub-queue once', ex.cur_loc, 'call-pre')
        ex.prove(S, g['dead'] == s if 'dead' in g else BoolVal(False), 'frees the destroyed sub-queue', ex.cur_loc, 'call-pre')
        g['inl'] = Store(g['inl'], s, IntVal(0))
        g['ns'] = g['ns'] - 1
        w = fresh('rest')
        ex.assume(S, And(g['ns'] >= 0, Implies(g['ns'] != 0, on(g['inl'], w))))


SPEC = [SubQ, SubQLife, MCQ, MCQLife]
