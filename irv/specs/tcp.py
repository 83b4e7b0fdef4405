"""TCP sockets of the I/O core: control messages (TCPSocketCtl), the socket's state shared by users and the worker
(TCPSocketIFace), and how a socket sends and receives (TCPSocket)."""
import re
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, Select, Store, Int, IntVal, BoolVal, Function, K, Const
from ..sym import *
from ..spec import *
from ..rg import RG, RCon

A_ = r'mg::aio::'
C_ = A_ + r'TCPSocketCtl::'
F_ = A_ + r'TCPSocketIFace::'
S_ = A_ + r'TCPSocket::'
ESP = r'mg::box::SharedPtrIntrusive<mg::box::Error>::'
TLS = Int('tls_worker')
M32 = 1 << 32
NOSOCK = M32 - 1


# ---- control messages ---------------------------------------------------------------------
CELLS = dict(shut='i8', conn='i8', started='i8', domain='ptr', sock='i32', deadline='i64', att='i8', attsock='i32', hs='i8', hand='ptr', task='ptr')
AI = z3.ArraySort(I, I)


class CtlSpec(RG):
    tu = 'tcp.cpp'
    shared = ()
    env_cells = ()
    # what was done outside: sockets closed, the attached one, shutdowns, messages and handshakes deleted, name
    # requests canceled or deleted, connects started, results of calls
    ghost_sorts = dict(nclose=I, lclose=I, natt=I, latt=I, nshut=I, rshut=B, freed=AI, hdel=AI, dcan=AI, ddel=AI, ndom=I, rdom=B, nconn=I, kconn=I, rconn=B, cconn=I, nhs=I, rhs=B, host=AI, dl=AI, now=I, point=I, err=I, closed=I)
    handlers = [(r'mg::net::SocketClose\(int\)', 'h_close'), (r'mg::net::SocketShutdown\(.*', 'h_shutdown'), (A_ + r'IOTask::AttachSocket\(int\)', 'h_attach'), (A_ + r'IOTask::IsInWorkerNow\(\) const', 'h_worker'),
                (A_ + r'TCPSocketCtlDomainRequest::Update\(\)', 'h_dupdate'), (A_ + r'TCPSocketCtlDomainRequest::Cancel\(\)', 'h_dcancel'), (A_ + r'TCPSocketCtlDomainRequest::~TCPSocketCtlDomainRequest\(\)', 'h_ddel'),
                (A_ + r'TCPSocketHandshake::Update\(\)', 'h_hupdate'), (A_ + r'IOTask::ConnectUpdate\(.*', 'h_cupdate'), (A_ + r'IOTask::ConnectStart\(.*', 'h_cstart'), (r'mg::box::GetMilliseconds\(\)', 'h_now'),
                (r'mg::box::ErrorRaise\(.*', 'h_raise'), (ESP + r'PrivUnref\(.*', 'h_nop'), (r'std::__cxx11::basic_string<.*::c_str\(\) const', 'h_cstr'), (r'std::__cxx11::basic_string<.*::~basic_string\(\)', 'h_nop'), (r'mg::net::URLParse\(char const\*\)', 'h_parse'),
                (r'mg::net::Host::Set\(char const\*\)', 'h_hset'), (r'mg::net::Host::SetPort\(.*', 'h_hport'), (A_ + r'TCPSocketCtlDomainRequest::TCPSocketCtlDomainRequest\(.*', 'h_dnew')]
    assumptions = RG.assumptions + ('control messages are used by one thread at a time (the users under the lock of the socket, the worker)', 'name resolution and handshakes do what their interfaces say')

    def on_attach(self):
        k = self.k
        c = lambda n: k('c_' + n)
        self.classes = {'Ctl': Cls({c('domain'): To('Dom'), c('hand'): To('Hand'), c('task'): To('Task')}), 'Dom': Cls({k('d_err'): To('ErrO')}), 'Hand': Cls({0: To('HVt')}), 'HVt': Cls({8: To('Fn')}), 'Fn': Cls({}),
                        'Task': Cls({}), 'ErrP': Cls({0: To('ErrO')}), 'ErrO': Cls({}), 'Params': Cls({}), 'Str': Cls({})}

    def no_inline(self, n, dem):
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def cc(self, S, n, t):
        return S.ld('Ctl', self.k('c_' + n), CELLS[n], t)

    def fam(self, S, cls, t):
        return S.ld(cls, self.k('c_host') if cls == 'Ctl' else self.k('d_host'), 'i16', t)

    def memcpy(self, ex, S, d, s, n):
        if z3.is_int_value(n) and n.as_long() == self.k('k_hostsize'):
            ho = lambda p: p.off == (self.k('c_host') if p.cls == 'Ctl' else self.k('d_host'))
            if ho(d) and ho(s) and d.cls == 'Ctl' and s.cls in ('Ctl', 'Dom'):
                g = S.ghost
                g['host'] = Store(g['host'], d.base, Select(g['host'], s.base))
                ex.raw_store(S, d, 'i16', ex.raw_load(S, s, 'i16'))
                return
        if z3.is_int_value(n) and n.as_long() == self.k('k_delaysize') and d.cls == 'Ctl' and s.cls == 'Params' and d.off == self.k('c_delay') and s.off == self.k('p_delay'):
            S.ghost['dl'] = Store(S.ghost['dl'], d.base, Select(S.ghost['dl'], s.base))
            return
        if z3.is_int_value(n) and n.as_long() == self.k('k_delaysize') and d.cls == s.cls == 'Ctl' and d.off == s.off == self.k('c_delay'):
            g = S.ghost
            g['dl'] = Store(g['dl'], d.base, Select(g['dl'], s.base))
            ex.raw_store(S, d, 'i32', ex.raw_load(S, s, 'i32'))
            return
        raise Unsupported('memcpy %s %s %s' % (d, s, n))

    def memset(self, ex, S, d, v, n):
        if d.cls == 'Ctl' and d.off == self.k('c_host'):
            S.ghost['host'] = Store(S.ghost['host'], d.base, 0)
            ex.raw_store(S, d, 'i16', IntVal(0))
            return
        raise Unsupported('memset')

    def G(self, ex, S, f, what):
        ex.prove(S, f, what, ex.cur_loc, 'guarantee')

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def h_worker(self, ex, ctx, S, v, ins):
        return BoolVal(True)

    def h_close(self, ex, ctx, S, v, ins):
        g = S.ghost
        g['nclose'] = g['nclose'] + 1
        g['lclose'] = v[0]

    def h_shutdown(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = self.cc(S, 'task', Int('p_this'))
        self.G(ex, S, And(g['nshut'] == 0, v[0] == S.ld('Task', self.k('t_sock'), 'i32', t), v[1].base == g['err']), 'the socket of the task is shut down, once')
        g['nshut'] = g['nshut'] + 1
        g['rshut'] = fresh('ok', B)
        return g['rshut']

    def h_attach(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['natt'] == 0, v[0].base == self.cc(S, 'task', Int('p_this'))), 'attached once, to the task')
        g['natt'] = g['natt'] + 1
        g['latt'] = v[1]
        ex.raw_store(S, Ptr(v[0].base, self.k('t_sock'), 'Task'), 'i32', v[1])

    def h_dupdate(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base > 0, Select(g['ddel'], v[0].base) == 0), 'a living request')
        g['ndom'] = g['ndom'] + 1
        g['rdom'] = fresh('done', B)
        ex.assume(S, S.ld('Dom', self.k('d_err'), 'ptr', v[0].base) >= 0)
        return g['rdom']

    def h_dcancel(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base > 0, Select(g['ddel'], v[0].base) == 0, Select(g['dcan'], v[0].base) == 0), 'a living request is canceled once')
        g['dcan'] = Store(g['dcan'], v[0].base, 1)

    def h_ddel(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base > 0, Select(g['ddel'], v[0].base) == 0, Select(g['dcan'], v[0].base) == 0, g['rdom']), 'only a finished request is deleted, once')
        g['ddel'] = Store(g['ddel'], v[0].base, 1)

    def h_hupdate(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base > 0, v[0].base == self.cc(S, 'hand', Int('p_this'))), 'the handshake of the message')
        g['nhs'] = g['nhs'] + 1
        g['rhs'] = fresh('done', B)
        return g['rhs']

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        # the virtual deleting destructor of a handshake
        g = S.ghost
        h = vals[0].base
        self.G(ex, S, And(h > 0, fv.base == S.ld('HVt', 8, 'ptr', S.ld('Hand', 0, 'ptr', h)), Select(g['hdel'], h) == 0), 'the handshake is deleted once')
        g['hdel'] = Store(g['hdel'], h, 1)

    def free(self, ex, ctx, S, p):
        g = S.ghost
        if p.cls == 'Dom':
            self.G(ex, S, And(Select(g['ddel'], p.base) == 1), 'a destroyed request is freed')
            g['ddel'] = Store(g['ddel'], p.base, 2)
            return
        self.G(ex, S, And(BoolVal(p.cls == 'Ctl'), p.base > 0, p.base != Int('p_this'), Select(g['freed'], p.base) == 0), 'the merged message is deleted once')
        g['freed'] = Store(g['freed'], p.base, 1)

    def h_now(self, ex, ctx, S, v, ins):
        n = fresh('now', I)
        ex.assume(S, And(n >= S.ghost['now'], n < (1 << 62)))
        S.ghost['now'] = n
        return n

    # the endpoint
    def h_cstr(self, ex, ctx, S, v, ins):
        if v[0].local is not None:
            self.G(ex, S, BoolVal(v[0].off == self.k('u_host')), 'the host of the URL')
            return Ptr(S.ghost['uhost'], 0, 'Str')
        self.G(ex, S, And(BoolVal(v[0].cls == 'Params' and v[0].off == self.k('p_end')), v[0].base == Int('p_params')), 'the endpoint')
        return Ptr(cstr(v[0].base), 0, 'Str')

    def h_parse(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, v[1].base == cstr(Int('p_params')), 'the endpoint is parsed')
        po = fresh('port', I)
        ex.assume(S, And(g['uhost'] > 0, 0 <= po, po < 65536, g['uport'] == po))
        ex.raw_store(S, Ptr(v[0].base, v[0].off + self.k('u_port'), v[0].cls, None, v[0].local), 'i16', po)

    def h_hset(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == Int('p_this'), BoolVal(v[0].cls == 'Ctl' and v[0].off == self.k('c_host')), v[1].base == g['uhost'], g['uhost'] > 0), 'the host of the endpoint')
        f, h = fresh('family', I), fresh('host', I)
        ex.assume(S, Implies(g['isip'], And(0 < f, f < 65536)))
        g['host'] = If(g['isip'], Store(g['host'], v[0].base, ipof(g['uhost'])), g['host'])
        ex.raw_store(S, v[0], 'i16', If(g['isip'], f, ex.raw_load(S, v[0], 'i16')))
        return g['isip']

    def h_hport(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == Int('p_this'), BoolVal(v[0].cls == 'Ctl' and v[0].off == self.k('c_host'))), 'the host of the endpoint')
        g['host'] = Store(g['host'], v[0].base, withport(Select(g['host'], v[0].base), v[1]))

    def alloc(self, ex, ctx, S, size, ins):
        b = fresh('new', I)
        ex.assume(S, b > 0)
        return Ptr(b, 0, 'Dom')

    def h_dnew(self, ex, ctx, S, v, ins):
        g = S.ghost
        this = Int('p_this')
        self.G(ex, S, And(BoolVal(v[0].cls == 'Dom'), v[1].base == self.cc(S, 'task', this), v[2].base == g['uhost'], v[3] == g['uport'], v[4] == S.ld('Params', self.k('p_fam'), 'i32', Int('p_params')), g['ndnew'] == 0), 'the name, the port, the family of the endpoint are requested for the task')
        g['ndnew'] = g['ndnew'] + 1

    def conn(self, ex, S, kind, ev):
        g = S.ghost
        t = Int('p_this')
        self.G(ex, S, And(g['nconn'] == 0, ev.base == t, BoolVal(z3.is_int_value(IntVal(0)) and ev.off == self.k('c_event'))), 'one attempt, with the event of the message')
        g['nconn'] = g['nconn'] + 1
        g['kconn'] = IntVal(kind)
        ok = fresh('ok', B)
        g['rconn'] = ok
        e = {n: fresh(n, I) for n in ('locked', 'empty', 'error', 'value')}
        # contract of IOTask::ConnectStart and ConnectUpdate (B17)
        ex.assume(S, And(*[And(0 <= e[n], e[n] <= 1) for n in ('locked', 'empty', 'error')], Implies(Not(ok), And(e['locked'] == 0, e['empty'] == 0, e['error'] == 1, e['value'] >= 0, e['value'] < M32)),
                         Implies(And(ok, e['locked'] == 0), And(e['empty'] == 0, e['error'] == 0, e['value'] == 0))))
        for n in e:
            ex.raw_store(S, Ptr(t, self.k('c_event') + self.k('e_' + n), 'Ctl'), 'i32' if n == 'value' else 'i8', e[n])
        return ok

    def h_cstart(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = Int('p_this')
        own = len(v) == 4
        h = v[2] if own else v[1]
        self.G(ex, S, And(v[0].base == self.cc(S, 'task', t), h.base == t, BoolVal(h.off == self.k('c_host')), S.ld('Task', self.k('t_sock'), 'i32', v[0].base) == NOSOCK, v[1] == self.cc(S, 'sock', t) if own else self.cc(S, 'sock', t) == NOSOCK),
               'the task connects to the host with the given socket, if any')
        g['cconn'] = Select(g['host'], t)
        ok = self.conn(ex, S, 1, v[-1])
        s = fresh('sock', I)
        ex.assume(S, And(0 <= s, s < NOSOCK))
        ex.raw_store(S, Ptr(v[0].base, self.k('t_sock'), 'Task'), 'i32', If(ok, v[1] if own else s, NOSOCK))
        return ok

    def h_cupdate(self, ex, ctx, S, v, ins):
        t = Int('p_this')
        self.G(ex, S, And(v[0].base == self.cc(S, 'task', t), S.ld('Task', self.k('t_sock'), 'i32', v[0].base) != NOSOCK), 'the connect of the task is continued')
        return self.conn(ex, S, 2, v[-1])

    def h_raise(self, ex, ctx, S, v, ins):
        e = fresh('err', I)
        ex.assume(S, e > 0)
        ex.raw_store(S, v[0], 'ptr', Ptr(e, 0, 'ErrO'))


class CC(RCon):
    params = [('this', 'Ctl')]
    but = ()
    task = ()       # what may change in the task

    def c(self, E, n, S=None, t=None):
        return E.ex.spec.cc(E.S if S is None else S, n, E.b('this') if t is None else t)

    def wf(self, E, S, t):
        """A well-formed message."""
        sp = E.ex.spec
        c = lambda n: sp.cc(S, n, t)
        return And(*[And(0 <= c(n), c(n) <= 1) for n in ('shut', 'conn', 'started', 'att', 'hs')], c('domain') >= 0, c('hand') >= 0, Not(And(c('conn') == 1, c('att') == 1)), Implies(c('conn') == 0, And(c('domain') == 0, c('sock') == NOSOCK, c('started') == 0)),
                   Implies(c('att') == 0, c('attsock') == NOSOCK), Implies(c('att') == 1, And(0 <= c('attsock'), c('attsock') < NOSOCK)), Implies(Or(c('conn') == 1, c('att') == 1), c('hs') == 0), 0 <= c('sock'), c('sock') <= NOSOCK,
                   Implies(And(c('conn') == 1, c('domain') != 0), sp.fam(S, 'Ctl', t) == 0))

    def zero(self, g):
        x = Int('x')
        z = lambda a: ForAll([x], Select(a, x) == 0, patterns=[Select(a, x)])
        return And(*[g[n] == 0 for n in ('nclose', 'natt', 'nshut', 'ndom', 'nconn', 'nhs', 'kconn')], *[z(g[n]) for n in ('freed', 'hdel', 'dcan', 'ddel')], g['closed'] == 0, g['now'] >= 0)

    def pre(self, E):
        sp = E.ex.spec
        S = E.S
        tk = self.c(E, 'task')
        return [('the message', And(E.b('this') > 0, tk > 0, self.wf(E, S, E.b('this')))), ('nothing done yet', self.zero(S.ghost)), ('the task', And(S.ld('Task', sp.k('t_inq'), 'i8', tk) == 0, 0 <= S.ld('Task', sp.k('t_sock'), 'i32', tk), S.ld('Task', sp.k('t_sock'), 'i32', tk) <= NOSOCK, S.ld('Task', sp.k('t_deadline'), 'i64', tk) >= 0)),
                ('a virtual destructor', Implies(self.c(E, 'hand') != 0, S.ld('Hand', 0, 'ptr', self.c(E, 'hand')) > 0))] + self.more(E)

    def more(self, E):
        return []

    def keep(self, E, but=(), task=(), done=()):
        sp = E.ex.spec
        g, g0 = E.S.ghost, E.S0.ghost
        tk = self.c(E, 'task', E.S0)
        r = [('well-formed afterwards', self.wf(E, E.S, E.b('this'))), ('nothing else of the message changes', And(*[self.c(E, n) == self.c(E, n, E.S0) for n in CELLS if n not in but]))]
        tc = dict(sock='i32', deadline='i64', inq='i8', closed='i8')
        r.append(('nothing else of the task changes', And(*[E.S.ld('Task', sp.k('t_' + n), ty, tk) == E.S0.ld('Task', sp.k('t_' + n), ty, tk) for n, ty in tc.items() if n not in task])))
        r.append(('nothing else is done', And(*[g[n] == g0[n] for n in ('nclose', 'natt', 'nshut', 'ndom', 'nconn', 'nhs', 'freed', 'hdel', 'dcan', 'ddel') if n not in done])))
        return r


class AddShutdown(CC):
    name = C_ + r'AddShutdown\(\)'
    label = 'TCPSocketCtl::AddShutdown'

    def post(self, E):
        return [('requested', self.c(E, 'shut') == 1)] + self.keep(E, ('shut',))


cstr = Function('cstr', I, I)
ipof = Function('ipof', I, I)
withport = Function('withport', I, I, I)
CtlSpec.ghost_sorts.update(uhost=I, uport=I, isip=B, ndnew=I)


class AddConnect(CC):
    name = C_ + r'AddConnect\(.*'
    label = 'TCPSocketCtl::AddConnect'
    params = [('this', 'Ctl'), ('params', 'Params')]

    def more(self, E):
        sp = E.ex.spec
        return [('no connection yet', And(*[self.c(E, n) == 0 for n in ('conn', 'att', 'hs')], sp.fam(E.S, 'Ctl', E.b('this')) == 0)), ('parameters', And(E.b('params') > 0, 0 <= E.S.ld('Params', sp.k('p_sock'), 'i32', E.b('params')), E.S.ld('Params', sp.k('p_sock'), 'i32', E.b('params')) <= NOSOCK, E.S.ghost['ndnew'] == 0))]

    def post(self, E):
        sp = E.ex.spec
        g, g0 = E.S.ghost, E.S0.ghost
        t, p = E.b('this'), E.b('params')
        return [('requested', And(self.c(E, 'conn') == 1, self.c(E, 'sock') == E.S0.ld('Params', sp.k('p_sock'), 'i32', p), Select(g['dl'], t) == Select(g0['dl'], p))),
                ('to the address, or the name is to be resolved', If(g['isip'], And(self.c(E, 'domain') == 0, sp.fam(E.S, 'Ctl', t) != 0, Select(g['host'], t) == withport(ipof(g['uhost']), g['uport'])), And(self.c(E, 'domain') != 0, g['ndnew'] == 1)))] + self.keep(E, ('conn', 'sock', 'domain'))


class AddAttach(CC):
    name = C_ + r'AddAttach\(int\)'
    label = 'TCPSocketCtl::AddAttach'
    params = [('this', 'Ctl'), ('sock', None)]

    def more(self, E):
        return [('the first request', And(*[self.c(E, n) == 0 for n in ('conn', 'att', 'shut', 'hs')])), ('a socket', And(0 <= E.a['sock'], E.a['sock'] < NOSOCK))]

    def post(self, E):
        return [('requested', And(self.c(E, 'att') == 1, self.c(E, 'attsock') == E.a['sock']))] + self.keep(E, ('att', 'attsock'))


class AddHandshake(CC):
    name = C_ + r'AddHandshake\(.*'
    label = 'TCPSocketCtl::AddHandshake'
    params = [('this', 'Ctl'), ('h', 'Hand')]

    def more(self, E):
        return [('the first request', And(*[self.c(E, n) == 0 for n in ('conn', 'att', 'shut', 'hs', 'hand')])), ('a handshake', E.b('h') > 0)]

    def post(self, E):
        return [('kept until the connection is there', self.c(E, 'hand') == E.b('h'))] + self.keep(E, ('hand',))


class IsIdle(CC):
    name = C_ + r'IsIdle\(\) const'
    label = 'TCPSocketCtl::IsIdle'

    def post(self, E):
        return [('nothing left to do', E.ret == And(*[self.c(E, n) == 0 for n in ('conn', 'att', 'shut', 'hs', 'hand')]))] + self.keep(E)


def has(fn, cell):
    class H(CC):
        name = C_ + r'%s\(\) const' % fn
        label = 'TCPSocketCtl::' + fn

        def post(self, E):
            return [('says if it is requested', E.ret == (self.c(E, cell) == 1))] + self.keep(E)
    return H()


class DoShutdown(CC):
    name = C_ + r'DoShutdown\(.*'
    label = 'TCPSocketCtl::DoShutdown'
    params = [('this', 'Ctl'), ('err', 'ErrP')]

    def more(self, E):
        return [('requested', self.c(E, 'shut') == 1), ('error', And(E.b('err') > 0, E.S.ghost['err'] == E.b('err')))]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        wait = Or(self.c(E, 'conn', E.S0) == 1, self.c(E, 'att', E.S0) == 1)
        sock = E.S0.ld('Task', sp.k('t_sock'), 'i32', self.c(E, 'task', E.S0)) != NOSOCK
        return [('it waits for the connection', Implies(wait, And(E.ret, g['nshut'] == 0, self.c(E, 'shut') == 1))),
                ('done once there is a socket', Implies(Not(wait), And(self.c(E, 'shut') == 0, If(sock, And(g['nshut'] == 1, E.ret == g['rshut']), And(E.ret, g['nshut'] == 0)))))] + self.keep(E, ('shut',), done=('nshut',))


class DoAttach(CC):
    name = C_ + r'DoAttach\(\)'
    label = 'TCPSocketCtl::DoAttach'

    def more(self, E):
        return [('requested', self.c(E, 'att') == 1)]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        tk = self.c(E, 'task', E.S0)
        dl = lambda S: S.ld('Task', sp.k('t_deadline'), 'i64', tk)
        return [('attached, the handshake is next', And(g['natt'] == 1, g['latt'] == self.c(E, 'attsock', E.S0), self.c(E, 'att') == 0, self.c(E, 'hs') == 1)),
                ('a waiting shutdown is not forgotten', Implies(self.c(E, 'shut') == 1, dl(E.S) == 0)), ('deadline', Or(dl(E.S) == 0, dl(E.S) == dl(E.S0)))] + self.keep(E, ('att', 'attsock', 'hs'), ('deadline', 'sock'), ('natt',))


class DoHandshake(CC):
    name = C_ + r'DoHandshake\(\)'
    label = 'TCPSocketCtl::DoHandshake'

    def more(self, E):
        return [('started', self.c(E, 'hs') == 1)]

    def post(self, E):
        g = E.S.ghost
        h = self.c(E, 'hand', E.S0)
        fin = Or(h == 0, g['rhs'])
        return [('asked once', g['nhs'] == If(h == 0, 0, 1)), ('finished: deleted', Implies(fin, And(self.c(E, 'hs') == 0, self.c(E, 'hand') == 0, Implies(h != 0, Select(g['hdel'], h) == 1)))),
                ('otherwise it goes on', Implies(Not(fin), And(self.c(E, 'hs') == 1, self.c(E, 'hand') == h, Select(g['hdel'], h) == 0)))] + self.keep(E, ('hs', 'hand'), done=('nhs', 'hdel'))


class Destroy(CC):
    name = C_ + r'~TCPSocketCtl\(\)'
    label = 'TCPSocketCtl::~TCPSocketCtl'

    def post(self, E):
        g = E.S.ghost
        c0 = lambda n: self.c(E, n, E.S0)
        return [('the sockets not given away are closed', And(g['nclose'] == If(Or(c0('att') == 1, c0('sock') != NOSOCK), 1, 0), Implies(c0('att') == 1, g['lclose'] == c0('attsock')), Implies(And(c0('att') == 0, c0('sock') != NOSOCK), g['lclose'] == c0('sock')))),
                ('the request for the address is canceled', Implies(c0('domain') != 0, Select(g['dcan'], c0('domain')) == 1)), ('the handshake is deleted', Implies(c0('hand') != 0, Select(g['hdel'], c0('hand')) == 1)), ('frame', And(g['natt'] == 0, g['nshut'] == 0, g['nconn'] == 0))]


class Merge(CC):
    name = C_ + r'MergeFrom\(.*'
    label = 'TCPSocketCtl::MergeFrom'
    params = [('this', 'Ctl'), ('src', 'Ctl')]

    def more(self, E):
        s = lambda n: self.c(E, n, t=E.b('src'))
        t = lambda n: self.c(E, n)
        return [('a newer message of the same socket', And(E.b('src') > 0, E.b('src') != E.b('this'), self.wf(E, E.S, E.b('src')), s('task') == t('task'), s('hs') == 0, s('hand') == 0, s('started') == 0)),
                ('one connection', And(Implies(Or(s('conn') == 1, s('att') == 1), And(t('conn') == 0, t('att') == 0, t('hs') == 0))))]

    def post(self, E):
        sp = E.ex.spec
        g, g0 = E.S.ghost, E.S0.ghost
        s = lambda n: self.c(E, n, E.S0, E.b('src'))
        t0 = lambda n: self.c(E, n, E.S0)
        t = lambda n: self.c(E, n)
        h = lambda gh, n, p: Select(gh[n], E.b(p))
        return [('a shutdown of any of them', t('shut') == If(Or(s('shut') == 1, t0('shut') == 1), 1, 0)),
                ('the attach', And(t('att') == If(s('att') == 1, 1, t0('att')), t('attsock') == If(s('att') == 1, s('attsock'), t0('attsock')))),
                ('the connect with all its parameters', And(t('conn') == If(s('conn') == 1, 1, t0('conn')), If(s('conn') == 1, And(t('domain') == s('domain'), t('sock') == s('sock'), h(g, 'host', 'this') == h(g0, 'host', 'src'), h(g, 'dl', 'this') == h(g0, 'dl', 'src')),
                                                                                                          And(t('domain') == t0('domain'), t('sock') == t0('sock'), h(g, 'host', 'this') == h(g0, 'host', 'this'), h(g, 'dl', 'this') == h(g0, 'dl', 'this'))))),
                ('the merged message is deleted', Select(g['freed'], E.b('src')) == 1)] + self.keep(E, ('shut', 'att', 'attsock', 'conn', 'domain', 'sock'), done=('freed',))


class DoConnect(CC):
    name = C_ + r'DoConnect\(.*'
    label = 'TCPSocketCtl::DoConnect'
    params = [('this', 'Ctl'), ('err', 'ErrP')]

    def more(self, E):
        sp = E.ex.spec
        return [('requested', self.c(E, 'conn') == 1), ('error', And(E.b('err') > 0, E.S.ld('ErrP', 0, 'ptr', E.b('err')) == 0)),
                ('a delay', And(0 <= E.S.ld('Ctl', sp.k('c_delay') + sp.k('dl_type'), 'i32', E.b('this')), E.S.ld('Ctl', sp.k('c_delay') + sp.k('dl_type'), 'i32', E.b('this')) <= 2, E.S.ld('Ctl', sp.k('c_delay') + 8, 'i64', E.b('this')) >= 0)),
                ('the event was consumed', And(*[And(0 <= E.S.ld('Ctl', sp.k('c_event') + sp.k('e_' + n), 'i8', E.b('this')), E.S.ld('Ctl', sp.k('c_event') + sp.k('e_' + n), 'i8', E.b('this')) <= 1) for n in ('locked', 'empty', 'error')]))]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        tk = self.c(E, 'task', E.S0)
        dl = lambda S: S.ld('Task', sp.k('t_deadline'), 'i64', tk)
        c, c0 = lambda n: self.c(E, n), lambda n: self.c(E, n, E.S0)
        ev = E.S.ld('Ctl', sp.k('c_event') + sp.k('e_locked'), 'i8', E.b('this'))
        late = And(c0('started') == 1, c0('deadline') != 0)
        tried = g['nconn'] == 1
        own = c0('sock') != NOSOCK
        er = E.S.ld('ErrP', 0, 'ptr', E.b('err'))
        dt, dv = E.S0.ld('Ctl', sp.k('c_delay') + sp.k('dl_type'), 'i32', E.b('this')), E.S0.ld('Ctl', sp.k('c_delay') + 8, 'i64', E.b('this'))
        end = If(dt == sp.k('tl_point'), dv, E.S0.ghost['now'] + dv)
        first = And(c0('started') == 0, dt != sp.k('tl_none'))
        return [('not before the delay ends', Implies(And(late, tried), g['now'] >= c0('deadline'))), ('the delay is counted from the first attempt', Implies(first, And(Implies(tried, g['now'] >= end), Or(c('conn') == 0, tried, dv == 0, c('deadline') == 0, c('deadline') == (1 << 64) - 1, If(dt == sp.k('tl_point'), c('deadline') == dv, And(c('deadline') >= end, c('deadline') <= g['now'] + dv)))))), ('no delay', Implies(And(c0('started') == 0, dt == sp.k('tl_none')), c('deadline') == 0)), ('and then the task is run for it', Implies(And(c('deadline') != 0), And(E.ret, Not(tried), dl(E.S) <= c('deadline'), c('conn') == 1))),
                ('the name is resolved first', Implies(And(c0('domain') != 0, tried), And(g['ndom'] == 1, g['rdom'], Select(g['ddel'], c0('domain')) == 2))),
                ('the address is that of the name', Implies(And(tried, g['kconn'] == 1, c0('domain') != 0), g['cconn'] == Select(E.S0.ghost['host'], c0('domain')))),
                ('a failure is reported with its reason, and nothing is left', Implies(Not(E.ret), And(er != 0, c('conn') == 0, c('hs') == c0('hs'), Or(Not(tried), Not(g['rconn'])), g['nclose'] == If(own, 1, 0), Implies(own, g['lclose'] == c0('sock'))))),
                ('success starts the handshake', Implies(And(E.ret, c('conn') == 0), And(tried, g['rconn'], ev == 0, c('hs') == 1, g['nclose'] == 0, er == 0))),
                ('progress is not forgotten', Implies(And(E.ret, c('conn') == 1), And(c('hs') == 0, g['nclose'] == 0, Or(And(tried, g['rconn'], ev == 1), c('deadline') != 0, And(g['ndom'] == 1, Not(g['rdom'])))))),
                ('a given socket is not closed by the message when the task has it', Implies(And(tried, g['rconn']), c('sock') == NOSOCK)),
                ('a waiting shutdown is not forgotten', Implies(And(E.ret, c('conn') == 0, c('shut') == 1), dl(E.S) == 0))] + self.keep(E, ('conn', 'hs', 'started', 'deadline', 'domain', 'sock'), ('deadline', 'sock'), ('nconn', 'nclose', 'ndom', 'ddel'))


CtlSpec.contracts = [AddConnect(), AddShutdown(), AddAttach(), AddHandshake(), IsIdle(), has('HasShutdown', 'shut'), has('HasConnect', 'conn'), has('HasAttach', 'att'), has('HasHandshake', 'hs'), DoShutdown(), DoAttach(), DoHandshake(), Destroy(), Merge(), DoConnect()]

# ---- the state of a socket -----------------------------------------------------------------
cat = Function('cat', I, I, I)          # concatenation of queues (0 is the empty one)
linkof = Function('linkof', I, I)       # the queue made of one link
BL = r'mg::net::BufferLinkList::'
BS = r'mg::net::BufferStream::'
CTL = dict(shut='i8', conn='i8', started='i8', domain='ptr', sock='i32', att='i8', attsock='i32', hs='i8', hand='ptr')
PROT = ('state', 'running', 'ready', 'sub', 'fctl', 'fq')
SCELLS = dict(state='i32', hsdone='i8', running='i8', ready='i8', sub='ptr', fctl='ptr', ctl='ptr', rsize='i64')
CALLS = {0: None}


class SockSpec(RG):
    """One socket, p_this. What the mutex protects is kept by the other threads within the rely (env()); the rest
    belongs to the worker while the socket runs. The queues are values of an uninterpreted concatenation."""
    tu = 'tcp.cpp'
    env_cells = ()
    # locked, the values left at the last unlock, queues of the front and the worker, what was done
    ghost_sorts = dict(locked=I, unl=I, worker=B, known=B, lst=I, lfctl=I, lfq=I, fq=I, sq=I, seen=AI, freed=AI, pc=I, owe=I, posts=I, wakes=I, late=I, fadd=B, oncon=I, onclose=I, onerr=I, onsend=I, nsend=I, onrecv=I, nrecv=I, ncb=I, gone=I, tclosed=I, recvd=I, took=I, rqc=I, want=I, dl0=I,
                       sends=I, recvs=I, skips=I, props=I, first=I, offv=I, hfin=B, en=I, dellink=I, shuts=I, prc=I, drop=I, resched=I, merged=I, err=I, ccon=B)
    handlers = [(r'mg::box::Mutex::Lock\(\)', 'h_lock'), (r'mg::box::Mutex::Unlock\(\)', 'h_unlock'), (A_ + r'IOTask::IsInWorkerNow\(\) const', 'h_worker'), (A_ + r'IOTask::PostClose\(\)', 'h_postclose'),
                (A_ + r'IOTask::PostWakeup\(\)', 'h_wakeup'), (A_ + r'IOTask::Post\(mg::aio::IOSubscription\*\)', 'h_post'), (C_ + r'TCPSocketCtl\(.*', 'h_cnew'), (C_ + r'~TCPSocketCtl\(\)', 'h_cdel'),
                (C_ + r'AddShutdown\(\)', 'h_addshut'), (C_ + r'AddAttach\(int\)', 'h_addatt'), (C_ + r'AddConnect\(.*', 'h_addcon'), (C_ + r'AddHandshake\(.*', 'h_addhs'), (C_ + r'MergeFrom\(.*', 'h_cmerge'), (C_ + r'DoShutdown\(.*', 'h_cshut'), (C_ + r'DoAttach\(.*', 'h_catt'), (C_ + r'DoConnect\(.*', 'h_ccon'),
                (C_ + r'DoHandshake\(.*', 'h_chs'), (BL + r'AppendMove\(.*', 'h_qadd'), (BL + r'Append\(mg::net::BufferLinkList&&\)', 'h_qmove'), (BL + r'IsEmpty\(\) const', 'h_qempty'), (BL + r'Clear\(\)', 'h_qclear'),
                (BS + r'Clear\(\)', 'h_rclear'), (BS + r'IsEmpty\(\) const', 'h_rempty'), (r'mg::box::ErrorRaise\(.*', 'h_raise'), (ESP + r'PrivUnref\(.*', 'h_nop'), (A_ + r'TCPSocketCtlConnectParams::.*', 'h_nop'), (r'std::__cxx11::basic_string<.*', 'h_nop'),
                (r'mg::net::BufferLink::~BufferLink\(\)', 'h_nop')]
    assumptions = RG.assumptions + ('a socket is opened again only after OnClose', 'PostConnect, PostWrap and PostTask are called once after Open, by its caller', 'callbacks use the socket through its interface')

    def on_attach(self):
        k = self.k
        c, s = (lambda n: k('c_' + n)), (lambda n: k('s_' + n))
        self.kfr = ('Sock', s('frecv'), 'i64')
        self.shared = (self.kfr,)
        self.classes = {'Sock': Cls({s('sub'): To('Sub'), s('fctl'): To('Ctl'), s('ctl'): To('Ctl')}), 'Ctl': Cls({c('domain'): To('Dom'), c('hand'): To('Hand'), c('task'): To('Sock')}), 'Dom': Cls({}), 'Hand': Cls({}),
                        'Sub': Cls({0: To('SVt')}), 'SVt': Cls({o: To('Fn') for o in range(0, 96, 8)}), 'Fn': Cls({}), 'Link': Cls({}), 'ErrP': Cls({0: To('ErrO')}), 'ErrO': Cls({}), 'Stream': Cls({}), 'Params': Cls({}), 'Args': Cls({})}

    def no_inline(self, n, dem):
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def inv(self, S, E=None):
        return []

    def rely(self, S0, S):
        return []

    def builtin(self, name):
        if name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias'):
            return RG.builtin(self, name)
        return RG.builtin(self, name)

    # -- access
    def this(self):
        return Int('p_this')

    def sc(self, S, n):
        return S.ld('Sock', self.k('s_' + n), SCELLS[n], self.this())

    def cc(self, S, n, t):
        return S.ld('Ctl', self.k('c_' + n), CTL[n], t)

    def tk(self, S, n, ty):
        return S.ld('Sock', self.k('s_task') + self.k('t_' + n), ty, self.this())

    def ev(self, S, which, n):
        return S.ld('Sock', self.k('s_' + which) + self.k('e_' + n), 'i32' if n == 'value' else 'i8', self.this())

    def put(self, ex, S, n, v):
        ex.raw_store(S, Ptr(self.this(), self.k('s_' + n), 'Sock'), SCELLS[n], Ptr(v, 0, 'Ctl') if SCELLS[n] == 'ptr' else v)

    def cput(self, ex, S, n, t, v):
        ex.raw_store(S, Ptr(t, self.k('c_' + n), 'Ctl'), CTL[n], Ptr(v, 0, 'Dom' if n == 'domain' else 'Hand') if CTL[n] == 'ptr' else v)

    def G(self, ex, S, f, what, kind='guarantee'):
        ex.prove(S, f, what, ex.cur_loc, kind)

    def q(self, ex, S, a, b):
        """cat with its axioms."""
        r = cat(a, b)
        ex.assume(S, And(r >= 0, Implies(b == 0, r == a), Implies(a == 0, r == b), (r == 0) == And(a == 0, b == 0)))
        return r

    def on_access(self, ex, S, p, what):
        g = S.ghost
        if p.local is not None:
            return
        if p.cls == 'Sock':
            self.G(ex, S, g['gone'] == 0, 'the socket is not touched after the last callback (%s)' % what, 'race')
            for n in PROT:
                if p.off == self.k('s_' + n):
                    ok = g['locked'] == 1
                    if n in ('sub', 'running'):
                        ok = Or(ok, And(g['worker'], BoolVal('load' in what or 'read' in what)), self.single(S))
                    elif n in ('fctl', 'state'):
                        ok = Or(ok, self.single(S))
                    self.G(ex, S, ok, 'under the mutex (%s of %s)' % (what, n), 'race')
            for n in ('ctl', 'rsize', 'hsdone'):
                if p.off == self.k('s_' + n):
                    self.G(ex, S, Or(g['worker'], self.single(S), And(g['locked'] == 1, S.ld('Sock', self.k('s_running'), 'i8', self.this()) == 0)), 'the worker owns it (%s of %s)' % (what, n), 'race')
        elif p.cls == 'Ctl':
            self.G(ex, S, Select(g['freed'], p.base) == 0, 'a living message (%s)' % what, 'race')

    def single(self, S):
        return BoolVal(False)

    def on_write(self, ex, S, pre, p, old, new, order, op):
        g = S.ghost
        if ex.contract.role == 'user':
            self.G(ex, S, And(g['recvd'] == 0, new == (old + Int('p_size')) % (1 << 64)), 'the size is added once')
            g['recvd'] = IntVal(1)
            g['late'] = If(old == 0, 1, g['late'])
        else:
            self.G(ex, S, And(g['recvd'] == 0, new == 0), 'the worker takes all the requested size')
            g['recvd'] = IntVal(1)
            g['want'] = old
            ex.assume(S, old < (1 << 61))

    def memset(self, ex, S, d, v, n):
        k = self.k
        if d.cls == 'Sock' and d.off in (k('s_sev'), k('s_rev')) and z3.is_int_value(n) and n.as_long() == k('k_evsize') and z3.is_int_value(v) and v.as_long() == 0:
            for c in ('locked', 'empty', 'error', 'value'):
                ex.store(S, Ptr(d.base, d.off + k('e_' + c), 'Sock'), 'i32' if c == 'value' else 'i8', IntVal(0))
            return
        raise Unsupported('memset')

    def memcpy(self, ex, S, d, s, n):
        if d.local is not None and (s.cls == 'Params' or s.local is not None):
            return
        raise Unsupported('memcpy %s %s %s' % (d, s, n))

    # -- the rely
    def cwf(self, S, t, task=True):
        c = lambda n: self.cc(S, n, t)
        return And(*[And(0 <= c(n), c(n) <= 1) for n in ('shut', 'conn', 'started', 'att', 'hs')], c('domain') >= 0, c('hand') >= 0, Not(And(c('conn') == 1, c('att') == 1)), Implies(c('conn') == 0, And(c('domain') == 0, c('sock') == NOSOCK, c('started') == 0)),
                   Implies(c('att') == 0, c('attsock') == NOSOCK), Implies(c('att') == 1, And(0 <= c('attsock'), c('attsock') < NOSOCK)), Implies(Or(c('conn') == 1, c('att') == 1), c('hs') == 0), 0 <= c('sock'), c('sock') <= NOSOCK)

    def idle(self, S, t):
        return And(*[self.cc(S, n, t) == 0 for n in ('shut', 'conn', 'att', 'hs', 'hand')])

    def LI(self, S):
        """What holds whenever the mutex is free."""
        g = S.ghost
        st, run, rdy, sub, f = (self.sc(S, n) for n in ('state', 'running', 'ready', 'sub', 'fctl'))
        k = self.k
        c = lambda n: self.cc(S, n, f)
        req = Or(c('conn') == 1, c('att') == 1)
        return [('a state', And(k('st_new') <= st, st <= k('st_closed'))), ('it runs between the post and the close', And(Or(run == 0, run == 1), Or(rdy == 0, rdy == 1), (run == 1) == And(st != k('st_new'), st != k('st_closed')), Implies(rdy == 1, run == 0))),
                ('somebody listens', And(sub >= 0, Implies(run == 1, sub > 0))), ('the front message', And(f >= 0, Implies(f != 0, And(self.cwf(S, f), c('hs') == 0, c('started') == 0, Select(g['freed'], f) == 0)))),
                ('connects are requested while connecting', Implies(And(f != 0, req), Or(st == k('st_connecting'), st == k('st_closing'), st == k('st_closed'), run == 0))), ('the front queue', g['fq'] >= 0)]

    def WI(self, S):
        """What holds of the worker's own part between its steps."""
        g = S.ghost
        k = self.k
        st, c, f = g['lst'], self.sc(S, 'ctl'), g['lfctl']
        v = lambda n: self.cc(S, n, c)
        w = lambda n: self.cc(S, n, f)
        lk = lambda n: self.ev(S, n, 'locked')
        return [('the message in work', And(c >= 0, Implies(c != 0, And(self.cwf(S, c), c != f, Select(g['freed'], c) == 0)))),
                ('its requests fit to the state', Implies(c != 0, And(Implies(Or(v('conn') == 1, v('att') == 1), And(Or(st == k('st_connecting'), st == k('st_closing')), self.sc(S, 'hsdone') == 0)), Implies(v('hs') == 1, And(Or(st == k('st_handshake'), st == k('st_closing')), self.sc(S, 'hsdone') == 0))))),
                ('the new requests fit to the work', Implies(f != 0, And(Implies(w('hand') != 0, c == 0), Implies(Or(w('conn') == 1, w('att') == 1), And(self.sc(S, 'hsdone') == 0, Implies(c != 0, And(v('conn') == 0, v('att') == 0, v('hs') == 0))))))),
                ('connected means that the handshake is done', And(0 <= self.sc(S, 'hsdone'), self.sc(S, 'hsdone') <= 1, Implies(st == k('st_connected'), self.sc(S, 'hsdone') == 1), Implies(Or(st == k('st_handshake'), st == k('st_connecting'), st == k('st_empty')), self.sc(S, 'hsdone') == 0))),
                ('I/O is off until the handshake', Implies(Or(st == k('st_empty'), And(c != 0, Or(v('conn') == 1, v('att') == 1)), And(f != 0, Or(w('conn') == 1, w('att') == 1))), And(self.ev(S, 'sev', 'locked') == 1, self.ev(S, 'rev', 'locked') == 1))),
                ('events', And(*[And(0 <= self.ev(S, e, n), self.ev(S, e, n) <= 1) for e in ('sev', 'rev') for n in ('locked', 'empty', 'error')]))]

    def env(self, ex, S, cb=False):
        """Steps of the other threads (and of the user in a callback) since the last unlock."""
        g = S.ghost
        k = self.k
        if ex.contract.role == 'user':
            for n in ('state', 'running', 'ready'):
                v = fresh(n, I)
                ex.assume(S, And(v >= 0, v < 256))
                self.put(ex, S, n, v)
            sb = fresh('sub', I)
            ex.raw_store(S, Ptr(self.this(), k('s_sub'), 'Sock'), 'ptr', Ptr(sb, 0, 'Sub'))
            f = fresh('fctl', I)
            self.put(ex, S, 'fctl', f)
            g['fq'] = fresh('fq', I)
            for lab, h in self.LI(S) + ex.contract.start(ex, S):
                ex.assume(S, h)
            ex.assume(S, Implies(f != 0, And(Select(g['freed'], f) == 0)))
            self.l0 = None
            g['lst'], g['lfctl'], g['lfq'] = self.sc(S, 'state'), f, g['fq']
            return
        st0, f0 = g['lst'], g['lfctl']
        st1 = fresh('st', I)
        con = fresh('con', B) if cb else BoolVal(False)
        ex.assume(S, Or(st1 == st0, And(k('st_empty') <= st0, st0 < k('st_closing'), st1 == k('st_closing')), And(con, st1 == k('st_connecting'))))
        ex.assume(S, Implies(con, And(st0 == k('st_empty'), Or(st1 == k('st_connecting'), st1 == k('st_closing')))))
        ex.assume(S, Implies(st0 >= k('st_closing'), st1 == st0))
        new = fresh('newctl', I)
        q = fresh('anew', B)
        ex.assume(S, And(new > 0, Select(g['seen'], new) == 0, Select(g['freed'], new) == 0))
        ex.assume(S, Implies(Or(st0 >= k('st_closing')), Not(q)))
        f1 = If(f0 != 0, f0, If(Or(q, con), new, 0))
        g['seen'] = Store(g['seen'], new, 1)
        made = And(f0 == 0, f1 != 0)
        c0 = {n: self.cc(S, n, f1) for n in CTL}
        sh, so, do = fresh('shut', I), fresh('sock', I), fresh('dom', I)
        ex.assume(S, And(0 <= sh, sh <= 1, 0 <= so, so <= NOSOCK, do >= 0, Implies(And(f0 != 0, Or(c0['shut'] == 1)), sh == 1), Implies(And(f0 != 0, st0 >= k('st_closing')), sh == c0['shut']), Implies(made, Or(sh == 1, con))))
        z = dict(shut=sh, conn=If(con, 1, If(made, 0, c0['conn'])), sock=If(con, so, If(made, NOSOCK, c0['sock'])), domain=If(con, do, If(made, 0, c0['domain'])))
        for n in CTL:
            v = z.get(n, If(made, NOSOCK if n == 'attsock' else 0, c0[n]))
            self.cput(ex, S, n, f1, z3.simplify(v))
        t = fresh('more', I)
        ex.assume(S, t >= 0)
        g['fq'] = self.q(ex, S, g['lfq'], t)
        self.put(ex, S, 'state', st1)
        self.put(ex, S, 'fctl', f1)
        g['lst'], g['lfctl'], g['lfq'] = st1, f1, g['fq']
        if cb:
            g['ccon'] = Or(g['ccon'], con)

    # -- the mutex
    def h_lock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == self.this(), BoolVal(v[0].off == self.k('s_mutex')), g['locked'] == 0, g['gone'] == 0), 'the mutex of the socket, not twice', 'call-pre')
        self.env(ex, S)
        g['locked'] = IntVal(1)

    def h_unlock(self, ex, ctx, S, v, ins):
        g = S.ghost
        k = self.k
        self.G(ex, S, And(v[0].base == self.this(), BoolVal(v[0].off == k('s_mutex')), g['locked'] == 1), 'unlocked by its owner', 'call-pre')
        for lab, f in self.LI(S):
            self.G(ex, S, f, 'at unlock: ' + lab, 'invariant')
        a, b, f0, f1 = g['lst'], self.sc(S, 'state'), g['lfctl'], self.sc(S, 'fctl')
        E_, C0, HS, CN, CL, CD = (k('st_' + n) for n in ('empty', 'connecting', 'handshake', 'connected', 'closing', 'closed'))
        run = And(a >= E_, a <= CL)
        if ex.contract.role == 'user':
            self.G(ex, S, Or(a == b, And(run, a < CL, b == CL), Not(run)), 'only the close changes the state of a running socket')
            self.G(ex, S, Implies(And(run, f0 != 0), f1 == f0), 'the front message is not dropped')
            self.G(ex, S, Implies(And(b == CL, a != CL), g['pc'] == 1), 'closing closes the task')
            self.G(ex, S, Implies(And(b == CD, a != CD), a == k('st_new')), 'only a socket which does not run is closed at once')
        else:
            self.G(ex, S, Or(a == b, And(a == C0, b == HS), And(a == HS, b == CN), And(a < CL, b == CL), And(a == E_, b == C0, f1 != 0, self.cc(S, 'conn', f1) == 1), And(b == CD, g['tclosed'] == 1)), 'the steps of the state')
            self.G(ex, S, Implies(And(f0 != 0, f1 != f0), And(f1 == 0, Or(self.sc(S, 'ctl') == f0, g['merged'] == f0, And(b == CD, Select(g['freed'], f0) == 1)))), 'the front message gets to work')
            g['owe'] = If(And(b == CL, a != CL), 1, g['owe'])
            g['late'] = If(And(a == E_, b == C0), 1, g['late'])
        g['lst'], g['lfctl'], g['lfq'] = b, f1, g['fq']
        g['fst'] = If(g['unl'] == 0, b, g['fst'])
        g['locked'] = IntVal(0)
        g['unl'] = g['unl'] + 1

    # -- the task
    def task(self, ex, S, p):
        self.G(ex, S, And(p.base == self.this(), BoolVal(p.off == self.k('s_task')), S.ghost['gone'] == 0), 'the task of the socket', 'call-pre')

    def h_worker(self, ex, ctx, S, v, ins):
        self.task(ex, S, v[0])
        return S.ghost['worker']

    def h_postclose(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.task(ex, S, v[0])
        self.G(ex, S, Or(g['locked'] == 1, g['worker']), 'the task is closed under the mutex or by the worker')
        g['pc'] = g['pc'] + 1
        g['owe'] = IntVal(0)

    def h_wakeup(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.task(ex, S, v[0])
        g['wakes'] = g['wakes'] + 1
        g['late'] = IntVal(0)

    def h_post(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.task(ex, S, v[0])
        f = self.sc(S, 'fctl')
        self.G(ex, S, And(g['locked'] == 1, v[1].base == self.this(), g['posts'] == 0, self.sc(S, 'running') == 1, self.sc(S, 'sub') > 0), 'posted once, with all its state ready')
        g['posts'] = g['posts'] + 1

    # -- control messages (contracts of CtlSpec)
    def alloc(self, ex, ctx, S, size, ins):
        b = fresh('new', I)
        g = S.ghost
        ex.assume(S, And(b > 0, Select(g['seen'], b) == 0, Select(g['freed'], b) == 0))
        g['seen'] = Store(g['seen'], b, 1)
        return Ptr(b, 0, 'Ctl')

    def free(self, ex, ctx, S, p):
        g = S.ghost
        if p.cls == 'Link':
            self.G(ex, S, And(p.base == Int('p_head'), g['dellink'] == 0), 'the dropped link is deleted once')
            g['dellink'] = IntVal(1)
            return
        self.G(ex, S, And(BoolVal(p.cls == 'Ctl'), Select(g['freed'], p.base) == 1), 'a destroyed message is freed')

    def h_cnew(self, ex, ctx, S, v, ins):
        t = v[0].base
        self.G(ex, S, And(BoolVal(v[0].cls == 'Ctl'), v[1].base == self.this(), BoolVal(v[1].off == self.k('s_task'))), 'a message for the task')
        for n in CTL:
            self.cput(ex, S, n, t, IntVal(NOSOCK if n in ('sock', 'attsock') else 0))

    def h_cdel(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[0].base
        self.G(ex, S, And(t > 0, Select(g['freed'], t) == 0), 'a message is deleted once')
        self.G(ex, S, Or(self.idle(S, t), g['tclosed'] == 1, self.single(S)), 'a message is deleted when nothing is left in it, or at the end')
        g['freed'] = Store(g['freed'], t, 1)

    def front(self, ex, S, p, *zero):
        g = S.ghost
        self.G(ex, S, And(p.base > 0, p.base == self.sc(S, 'fctl'), g['locked'] == 1), 'a request is added to the front message under the mutex', 'call-pre')
        self.G(ex, S, And(*[self.cc(S, n, p.base) == 0 for n in zero]), 'what the Add method requires', 'call-pre')

    def h_addshut(self, ex, ctx, S, v, ins):
        self.front(ex, S, v[0])
        self.cput(ex, S, 'shut', v[0].base, IntVal(1))
        S.ghost['late'] = IntVal(1)

    def h_addatt(self, ex, ctx, S, v, ins):
        self.front(ex, S, v[0], 'conn', 'att', 'shut')
        self.G(ex, S, v[1] == Int('p_sock'), 'the given socket')
        self.cput(ex, S, 'att', v[0].base, IntVal(1))
        self.cput(ex, S, 'attsock', v[0].base, v[1])
        S.ghost['late'] = IntVal(1)

    def h_addcon(self, ex, ctx, S, v, ins):
        self.front(ex, S, v[0], 'conn', 'att', 'domain', 'started')
        so, do = fresh('sock', I), fresh('dom', I)
        ex.assume(S, And(0 <= so, so <= NOSOCK, do >= 0))
        for n, x in (('conn', IntVal(1)), ('sock', so), ('domain', do)):
            self.cput(ex, S, n, v[0].base, x)
        S.ghost['late'] = IntVal(1)

    def h_addhs(self, ex, ctx, S, v, ins):
        self.front(ex, S, v[0], 'conn', 'att', 'shut', 'hs', 'hand')
        self.G(ex, S, v[1].base == Int('p_h'), 'the given handshake')
        self.cput(ex, S, 'hand', v[0].base, v[1].base)

    def h_cmerge(self, ex, ctx, S, v, ins):
        g = S.ghost
        t, s = v[0].base, v[1].base
        c, d = (lambda n: self.cc(S, n, t)), (lambda n: self.cc(S, n, s))
        self.G(ex, S, And(t > 0, s > 0, t != s, d('hs') == 0, d('hand') == 0, d('started') == 0, Implies(Or(d('conn') == 1, d('att') == 1), And(c('conn') == 0, c('att') == 0, c('hs') == 0))), 'what MergeFrom requires', 'call-pre')
        x = {n: z3.simplify(e) for n, e in dict(shut=If(d('shut') == 1, 1, c('shut')), att=If(d('att') == 1, 1, c('att')), attsock=If(d('att') == 1, d('attsock'), c('attsock')), conn=If(d('conn') == 1, 1, c('conn')), domain=If(d('conn') == 1, d('domain'), c('domain')),
                                                sock=If(d('conn') == 1, d('sock'), c('sock'))).items()}
        for n, e in x.items():
            self.cput(ex, S, n, t, e)
        g['freed'] = Store(g['freed'], s, 1)
        g['merged'] = s

    def mine(self, ex, S, p, n):
        g = S.ghost
        self.G(ex, S, And(p.base > 0, p.base == self.sc(S, 'ctl'), g['locked'] == 0, g['worker'], Select(g['freed'], p.base) == 0, self.cc(S, n, p.base) == 1), 'the worker does what the message in work requests: ' + n, 'call-pre')

    def setdl(self, ex, S, cond):
        o = self.k('s_task') + self.k('t_deadline')
        n = fresh('dl', I)
        d = self.tk(S, 'deadline', 'i64')
        ex.assume(S, And(0 <= n, n <= d, Implies(cond, n == 0)))
        ex.raw_store(S, Ptr(self.this(), o, 'Sock'), 'i64', n)

    def h_cshut(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[0].base
        self.mine(ex, S, v[0], 'shut')
        wait = Or(self.cc(S, 'conn', t) == 1, self.cc(S, 'att', t) == 1)
        ok = fresh('ok', B)
        ex.assume(S, Implies(wait, ok))
        self.cput(ex, S, 'shut', t, If(wait, 1, 0))
        return ok

    def h_catt(self, ex, ctx, S, v, ins):
        t = v[0].base
        self.mine(ex, S, v[0], 'att')
        self.G(ex, S, self.cc(S, 'conn', t) == 0, 'what DoAttach requires', 'call-pre')
        self.setdl(ex, S, self.cc(S, 'shut', t) == 1)
        for n, x in (('att', 0), ('attsock', NOSOCK), ('hs', 1)):
            self.cput(ex, S, n, t, IntVal(x))

    def h_ccon(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = v[0].base
        self.mine(ex, S, v[0], 'conn')
        self.G(ex, S, self.cc(S, 'att', t) == 0, 'what DoConnect requires', 'call-pre')
        ok, fin = fresh('ok', B), fresh('fin', B)
        so, do = fresh('sock', I), fresh('dom', I)
        ex.assume(S, And(Implies(Not(ok), fin), Implies(fin, And(so == NOSOCK, do == 0)), 0 <= so, so <= NOSOCK, do >= 0))
        self.setdl(ex, S, And(ok, fin, self.cc(S, 'shut', t) == 1))
        for n, x in (('conn', If(fin, 0, 1)), ('started', If(fin, 0, 1)), ('sock', so), ('domain', do), ('hs', If(And(ok, fin), 1, 0))):
            self.cput(ex, S, n, t, x)
        e = fresh('err', I)
        ex.assume(S, And(e >= 0, Implies(Not(ok), e > 0)))
        ex.raw_store(S, v[1], 'ptr', Ptr(e, 0, 'ErrO'))
        return ok

    def h_chs(self, ex, ctx, S, v, ins):
        t = v[0].base
        self.mine(ex, S, v[0], 'hs')
        fin = fresh('fin', B)
        h = self.cc(S, 'hand', t)
        ex.assume(S, Implies(h == 0, fin))
        self.cput(ex, S, 'hs', t, If(fin, 0, 1))
        self.cput(ex, S, 'hand', t, If(fin, 0, h))
        self.cb(ex, S)

    # -- queues
    def which(self, p):
        for n in ('fq', 'sq'):
            if p.off == self.k('s_' + n):
                return n
        raise Unsupported('queue')

    def qown(self, ex, S, n, what):
        g = S.ghost
        self.G(ex, S, And(g['gone'] == 0, Or(g['locked'] == 1, self.single(S)) if n == 'fq' else g['worker']), 'the queue is used by its owner: %s of %s' % (what, n), 'race')

    def h_qadd(self, ex, ctx, S, v, ins):
        g = S.ghost
        n = self.which(v[0])
        self.qown(ex, S, n, 'append')
        self.G(ex, S, And(v[1].base == Int('p_head'), g['took'] == 0), 'the link given by the user, once')
        g['took'] = IntVal(1)
        l = linkof(v[1].base)
        ex.assume(S, l > 0)
        if n == 'fq':
            g['late'] = If(g['fq'] == 0, 1, g['late'])
        g[n] = self.q(ex, S, g[n], l)

    def h_qmove(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == self.this(), v[1].base == self.this(), BoolVal(self.which(v[0]) == 'sq' and self.which(v[1]) == 'fq')), 'what the users sent follows what was there')
        self.qown(ex, S, 'sq', 'append')
        self.qown(ex, S, 'fq', 'take')
        g['sq'] = self.q(ex, S, g['sq'], g['fq'])
        g['fq'] = IntVal(0)

    def h_qempty(self, ex, ctx, S, v, ins):
        n = self.which(v[0])
        self.qown(ex, S, n, 'check')
        return S.ghost[n] == 0

    def h_qclear(self, ex, ctx, S, v, ins):
        g = S.ghost
        n = self.which(v[0])
        self.qown(ex, S, n, 'clear')
        self.G(ex, S, Or(g['tclosed'] == 1, self.single(S)), 'queues are dropped only at the close')
        g[n] = IntVal(0)

    def h_rclear(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['gone'] == 0, g['worker'], g['tclosed'] == 1, BoolVal(v[0].off == self.k('s_rq'))), 'the received data is dropped only at the close')
        g['rqc'] = IntVal(0)

    def h_rempty(self, ex, ctx, S, v, ins):
        return S.ghost['rqc'] == 0

    def h_raise(self, ex, ctx, S, v, ins):
        e = fresh('err', I)
        ex.assume(S, e > 0)
        ex.raw_store(S, v[0], 'ptr', Ptr(e, 0, 'ErrO'))

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    # -- callbacks
    SLOTS = ('dtor', 'dtor2', 'OnConnect', 'OnConnectError', 'OnRecv', 'OnRecvError', 'OnSend', 'OnSendError', 'OnError', 'OnClose', 'OnEvent')

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        g = S.ghost
        sub = vals[0].base
        vt = S.ld('Sub', 0, 'ptr', sub)
        for i, n in enumerate(self.SLOTS):
            if i >= 2 and ex.quick(S, fv.base == S.ld('SVt', 8 * i, 'ptr', vt)):
                break
        else:
            raise Unsupported('callback')
        self.G(ex, S, And(g['locked'] == 0, g['worker'], g['gone'] == 0, g['onclose'] == 0, Or(sub == g['sub0'])), 'callbacks are called by the worker, without the mutex, and none after OnClose')
        getattr(self, 'on_' + n)(ex, S, vals)
        g['ncb'] = g['ncb'] + 1
        if n != 'OnClose':
            self.cb(ex, S)

    def on_OnConnect(self, ex, S, v):
        g = S.ghost
        self.G(ex, S, And(g['oncon'] == 0, self.sc(S, 'hsdone') == 1, g['lst'] >= self.k('st_connected'), g['hs0'] == 0), 'OnConnect once, when connected')
        g['oncon'] = g['oncon'] + 1

    def err_ok(self, ex, S, what):
        g = S.ghost
        g['onerr'] = g['onerr'] + 1

    def on_OnConnectError(self, ex, S, v):
        self.err_ok(ex, S, 'connect')

    def on_OnRecvError(self, ex, S, v):
        self.err_ok(ex, S, 'recv')

    def on_OnSendError(self, ex, S, v):
        self.err_ok(ex, S, 'send')

    def on_OnError(self, ex, S, v):
        self.err_ok(ex, S, 'error')

    def on_OnEvent(self, ex, S, v):
        pass

    def on_OnSend(self, ex, S, v):
        S.ghost['onsend'] = S.ghost['onsend'] + 1
        S.ghost['nsend'] = v[1]

    def on_OnRecv(self, ex, S, v):
        S.ghost['onrecv'] = S.ghost['onrecv'] + 1

    def on_OnClose(self, ex, S, v):
        g = S.ghost
        k = self.k
        self.G(ex, S, And(g['tclosed'] == 1, g['lst'] == k('st_closed'), g['lfctl'] == 0, self.sc(S, 'ctl') == 0, g['sq'] == 0, g['lfq'] == 0, g['rqc'] == 0, self.sc(S, 'rsize') == 0, self.sc(S, 'hsdone') == 0, self.ev(S, 'sev', 'locked') == 1, self.ev(S, 'rev', 'locked') == 1), 'OnClose is called for a socket like new')
        g['onclose'] = g['onclose'] + 1
        g['gone'] = IntVal(1)

    def cb(self, ex, S):
        """What a callback may do: anything through the interface."""
        g = S.ghost
        for lab, f in self.WI(S):
            self.G(ex, S, f, 'at a callback: ' + lab, 'invariant')
        self.G(ex, S, g['owe'] == 0, 'the task is closed before a callback')
        self.env(ex, S, cb=True)
        t = fresh('more', I)
        r = fresh('rsize', I)
        ex.assume(S, And(t >= 0, r >= self.sc(S, 'rsize'), r < (1 << 62)))
        g['sq'] = self.q(ex, S, g['sq'], t)
        self.put(ex, S, 'rsize', r)
        self.setdl(ex, S, g['ccon'])

    def assume_vt(self, ex, S):
        sub = S.ghost['sub0']
        vt = S.ld('Sub', 0, 'ptr', sub)
        fs = [S.ld('SVt', 8 * i, 'ptr', vt) for i in range(2, len(self.SLOTS))]
        return And(sub > 0, vt > 0, z3.Distinct(*fs), *[f > 0 for f in fs])


SockSpec.ghost_sorts.update(sub0=I, hs0=I, fst=I)


class SC(RCon):
    role = 'user'
    params = [('this', 'Sock')]

    def start(self, ex, S):
        return []

    def g0(self, E):
        g = E.S.ghost
        x = Int('x')
        zero = ('locked', 'unl', 'pc', 'owe', 'posts', 'wakes', 'late', 'oncon', 'onclose', 'onerr', 'onsend', 'onrecv', 'ncb', 'gone', 'recvd', 'took', 'want', 'sends', 'recvs', 'skips', 'props', 'dellink', 'drop', 'merged')
        return [('nothing done yet', And(*[g[n] == 0 for n in zero], Not(g['ccon']))), ('the socket', And(E.b('this') > 0)), ('messages', ForAll([x], And(Select(g['freed'], x) == 0), patterns=[Select(g['freed'], x)]))]

    def pre(self, E):
        return self.g0(E) + [('another thread', Not(E.S.ghost['worker']))] + self.more(E)

    def more(self, E):
        return []

    def base(self, E):
        g = E.S.ghost
        return [('the mutex is released', g['locked'] == 0), ('who made something to do wakes the task up', g['late'] == 0), ('closing closes the task', g['owe'] == 0)]


class Worker(SC):
    role = 'worker'
    closed = 0

    def pre(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        S = E.S
        k = sp.k
        dl = sp.tk(S, 'deadline', 'i64')
        return self.g0(E) + [('the worker', And(g['worker'], g['tclosed'] == self.closed, sp.tk(S, 'closed', 'i8') == self.closed, sp.tk(S, 'inq', 'i8') == 0, dl >= 0, g['dl0'] == dl)), ('running', And(sp.sc(S, 'running') == 1, sp.sc(S, 'ready') == 0, sp.sc(S, 'sub') == g['sub0'], sp.assume_vt(E.ex, S), k('st_empty') <= g['lst'], g['lst'] <= k('st_closing'))),
                ('the last values', And(sp.sc(S, 'state') == g['lst'], sp.sc(S, 'fctl') == g['lfctl'], g['fq'] == g['lfq'], g['hs0'] == sp.sc(S, 'hsdone'), g['sq'] >= 0, g['rqc'] >= 0, 0 <= sp.sc(S, 'rsize'), sp.sc(S, 'rsize') < (1 << 61), Implies(g['lfctl'] != 0, Select(g['seen'], g['lfctl']) == 1), Implies(sp.sc(S, 'ctl') != 0, Select(g['seen'], sp.sc(S, 'ctl')) == 1)))] + sp.LI(S) + sp.WI(S) + self.more(E)

    def base(self, E):
        return SC.base(self, E) + [('afterwards: ' + lab, f) for lab, f in E.ex.spec.WI(E.S)] + [('it goes on until OnClose', E.S.ghost['gone'] == 0), ('no close without the task', E.S.ghost['onclose'] == 0)]


class PostClose(SC):
    name = F_ + r'PostClose\(\)'
    label = 'TCPSocketIFace::PostClose'

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        k = sp.k
        return [('the task is closed at most once', g['pc'] <= 1), ('closed, or closing with the task closed', g['lst'] >= k('st_closing'))] + self.base(E)


class PostShutdown(SC):
    name = F_ + r'PostShutdown\(\)'
    label = 'TCPSocketIFace::PostShutdown'

    def start(self, ex, S):
        return [('posted before', ex.spec.sc(S, 'state') != ex.spec.k('st_new'))]

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        f = g['lfctl']
        return [('requested and the task is woken up, unless it is closing anyway', Or(g['lst'] >= sp.k('st_closing'), And(f != 0, sp.cc(E.S, 'shut', f) == 1, g['wakes'] >= 1)))] + self.base(E)


class PostSendMove(SC):
    name = F_ + r'PostSendMove\(.*'
    label = 'TCPSocketIFace::PostSendMove'
    params = [('this', 'Sock'), ('head', 'Link')]

    def more(self, E):
        return [('a link', E.b('head') > 0)]

    def post(self, E):
        g = E.S.ghost
        return [('the data follows what was sent before', And(g['took'] == 1, g['dellink'] == 0))] + self.base(E)


class PostRecv(SC):
    name = F_ + r'PostRecv\(unsigned long\)'
    label = 'TCPSocketIFace::PostRecv'
    params = [('this', 'Sock'), ('size', None)]

    def post(self, E):
        g = E.S.ghost
        return [('the size is added', g['recvd'] == 1)] + self.base(E)


class PostRecvW(Worker):
    name = F_ + r'Recv\(unsigned long\)'
    label = 'TCPSocketIFace::Recv'
    params = [('this', 'Sock'), ('size', None)]

    def more(self, E):
        return [('size', E.a['size'] < (1 << 61))]

    def post(self, E):
        sp = E.ex.spec
        return [('the size is added', sp.sc(E.S, 'rsize') == sp.sc(E.S0, 'rsize') + E.a['size'])] + self.base(E)


class SendMove(Worker):
    name = F_ + r'(Post)?SendMove\(.*'
    label = 'TCPSocketIFace::SendMove'
    params = [('this', 'Sock'), ('head', 'Link')]
    closed = None

    def pre(self, E):
        return [(l, f) for l, f in Worker.pre(self, E) if l != 'the worker'] + [('the worker', And(E.S.ghost['worker'], E.ex.spec.tk(E.S, 'inq', 'i8') == 0, E.S.ghost['tclosed'] == E.ex.spec.tk(E.S, 'closed', 'i8'), Or(E.S.ghost['tclosed'] == 0, E.S.ghost['tclosed'] == 1), E.b('head') > 0))]

    def post(self, E):
        g, g0 = E.S.ghost, E.S0.ghost
        return [('the data follows what was sent before, or is deleted at the close', If(g['tclosed'] == 1, And(g['dellink'] == 1, g['took'] == 0), And(g['took'] == 1, g['dellink'] == 0, g['sq'] == cat(g0['sq'], linkof(E.b('head'))))))] + self.base(E)


class Start(SC):
    def start(self, ex, S):
        sp = ex.spec
        st = sp.sc(S, 'state')
        f = sp.sc(S, 'fctl')
        return [('opened', And(sp.sc(S, 'ready') == 1, sp.sc(S, 'running') == 0, Or(st == sp.k('st_new'), st == sp.k('st_closed')), Implies(f != 0, And(*[sp.cc(S, n, f) == 0 for n in ('shut', 'conn', 'att', 'hs')]))))]

    state = 'st_connecting'

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('running', And(g['posts'] == 1, g['lst'] == sp.k(self.state), sp.sc(E.S, 'ready') == 0, sp.sc(E.S, 'running') == 1, sp.sc(E.S, 'sub') == E.b('sub'), g['pc'] == 0))] + self.req(E, g['lfctl'], lambda n: sp.cc(E.S, n, g['lfctl'])) + self.base(E)

    def more(self, E):
        return [('a listener', E.b('sub') > 0)]


class PostWrap(Start):
    name = F_ + r'PostWrap\(.*'
    label = 'TCPSocketIFace::PostWrap'
    params = [('this', 'Sock'), ('sock', None), ('sub', 'Sub')]

    def more(self, E):
        return Start.more(self, E) + [('a socket', And(0 <= E.a['sock'], E.a['sock'] < NOSOCK))]

    def req(self, E, f, c):
        return [('the attach is requested and the task is woken up for it', And(f != 0, c('att') == 1, c('attsock') == E.a['sock'], E.S.ghost['wakes'] >= 1))]


class PostConnect(Start):
    name = F_ + r'PostConnect\(.*'
    label = 'TCPSocketIFace::PostConnect'
    params = [('this', 'Sock'), ('p', 'Params'), ('sub', 'Sub')]

    def more(self, E):
        return Start.more(self, E) + [('parameters', E.b('p') > 0)]

    def req(self, E, f, c):
        return [('the connect is requested and the task is woken up for it', And(f != 0, c('conn') == 1, E.S.ghost['wakes'] >= 1))]


class PostTask(Start):
    name = F_ + r'PostTask\(.*'
    label = 'TCPSocketIFace::PostTask'
    params = [('this', 'Sock'), ('sub', 'Sub')]
    state = 'st_empty'

    def req(self, E, f, c):
        return []


class ProtClose(Worker):
    name = F_ + r'ProtClose\(\)'
    label = 'TCPSocketIFace::ProtClose'

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('the close is posted', And(g['pc'] == 1, g['lst'] == sp.k('st_closing'), g['ncb'] == 0))] + self.base(E)


class ProtCloseEnd(Worker):
    name = F_ + r'ProtClose\(\)'
    label = 'TCPSocketIFace::ProtClose(closed)'
    closed = 1

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('the user is told once, nothing else is called', And(g['onclose'] == 1, g['ncb'] == 1, g['locked'] == 0, g['pc'] == 0)), ('all messages are deleted', And(*[Implies(c != 0, Select(g['freed'], c) == 1) for c in (sp.sc(E.S0, 'ctl'), E.S0.ghost['lfctl'])]))]


class CloseErr(Worker):
    name = F_ + r'(ProtCloseError|PrivConnectAbort)\(.*'
    label = 'TCPSocketIFace: errors'
    params = [('this', 'Sock'), ('err', 'ErrO')]
    event = None

    def more(self, E):
        return [('I/O is on', E.ex.spec.ev(E.S, self.event, 'locked') == 0)] if self.event else []

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('the close is posted', And(g['pc'] == 1, g['lst'] == sp.k('st_closing'))), ('an error is told unless it is closing anyway', (g['fst'] < sp.k('st_closing')) == (g['onerr'] > 0)), ('no more such I/O', sp.ev(E.S, self.event, 'locked') == 1 if self.event else BoolVal(True))] + self.base(E)


class SendErr(CloseErr):
    name = F_ + r'ProtOnSendError\(.*'
    label = 'TCPSocketIFace::ProtOnSendError'
    event = 'sev'


class RecvErr(CloseErr):
    name = F_ + r'ProtOnRecvError\(.*'
    label = 'TCPSocketIFace::ProtOnRecvError'
    event = 'rev'


class ProtOnEvent(Worker):
    name = F_ + r'ProtOnEvent\(\)'
    label = 'TCPSocketIFace::ProtOnEvent'

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        c, f = sp.sc(E.S, 'ctl'), g['lfctl']
        fq = lambda n: sp.cc(E.S, n, c)
        done = g['oncon'] == 1
        return [('all what the users sent goes to the worker', g['lfq'] == 0), ('a message with nothing left is deleted', Implies(c != 0, Not(sp.idle(E.S, c)))),
                ('what can go on without an event does', Implies(And(c != 0, Or(fq('att') == 1)), BoolVal(False))), ('the task runs again after the connection', Implies(done, sp.tk(E.S, 'deadline', 'i64') == 0)),
                ('the requested receipt is taken', g['recvd'] == 1), ('connected once', And(g['oncon'] <= 1, g['hs0'] + g['oncon'] == sp.sc(E.S, 'hsdone')))] + self.base(E)


class Connect(Worker):
    name = F_ + r'Connect\(.*'
    label = 'TCPSocketIFace::Connect'
    params = [('this', 'Sock'), ('p', 'Params')]

    def more(self, E):
        sp = E.ex.spec
        k = sp.k
        st, c = E.S.ghost['lst'], sp.sc(E.S, 'ctl')
        return [('a task without a connection', And(E.b('p') > 0, Or(st == k('st_empty'), st == k('st_closing')), sp.sc(E.S, 'hsdone') == 0, sp.ev(E.S, 'sev', 'locked') == 1, sp.ev(E.S, 'rev', 'locked') == 1, Implies(c != 0, And(*[sp.cc(E.S, n, c) == 0 for n in ('conn', 'att', 'hs')])), Implies(E.S.ghost['lfctl'] != 0, And(*[sp.cc(E.S, n, E.S.ghost['lfctl']) == 0 for n in ('conn', 'att')]))))]

    def base(self, E):
        return [(l, f) for l, f in Worker.base(self, E) if l != 'who made something to do wakes the task up']

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        f = g['lfctl']
        return [('the connect is requested and the task runs for it, unless it is closing', Or(g['lst'] == sp.k('st_closing'), And(g['lst'] == sp.k('st_connecting'), f != 0, sp.cc(E.S, 'conn', f) == 1, sp.tk(E.S, 'deadline', 'i64') == 0)))] + self.base(E)


class IsState(SC):
    def __init__(self, n, st):
        self.name = F_ + n + r'\(\) const'
        self.label = 'TCPSocketIFace::' + n
        self.st = st
        SC.__init__(self)

    def post(self, E):
        return [('the state', E.ret == (E.S.ghost['lst'] == E.ex.spec.k(self.st)))] + self.base(E)


class ProtOpen(SC):
    name = F_ + r'ProtOpen\(\)'
    label = 'TCPSocketIFace::ProtOpen'

    def start(self, ex, S):
        sp = ex.spec
        st = sp.sc(S, 'state')
        return [('like new', And(Or(st == sp.k('st_new'), st == sp.k('st_closed')), sp.sc(S, 'running') == 0, sp.sc(S, 'ready') == 0, S.ghost['rqc'] == 0, sp.sc(S, 'rsize') == 0, sp.sc(S, 'hsdone') == 0))]

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('ready to start', And(sp.sc(E.S, 'ready') == 1, sp.sc(E.S, 'running') == 0))] + self.base(E)


class ProtPostHandshake(SC):
    name = F_ + r'ProtPostHandshake\(.*'
    label = 'TCPSocketIFace::ProtPostHandshake'
    params = [('this', 'Sock'), ('h', 'Hand')]

    def more(self, E):
        return [('a handshake', E.b('h') > 0)]

    def start(self, ex, S):
        sp = ex.spec
        st = sp.sc(S, 'state')
        return [('opened', And(Or(st == sp.k('st_new'), st == sp.k('st_closed')), sp.sc(S, 'running') == 0, sp.sc(S, 'ready') == 1, sp.sc(S, 'fctl') == 0, sp.sc(S, 'hsdone') == 0))]

    def post(self, E):
        sp = E.ex.spec
        f = E.S.ghost['lfctl']
        return [('the handshake is set', And(f != 0, sp.cc(E.S, 'hand', f) == E.b('h')))] + self.base(E)


SockSpec.contracts = [PostClose(), PostShutdown(), PostSendMove(), PostRecv(), PostRecvW(), PostWrap(), PostConnect(), PostTask(), ProtClose(), ProtOnEvent(), Connect(), IsState('IsClosed', 'st_closed'), IsState('IsConnected', 'st_connected'), ProtOpen(), ProtPostHandshake()]
SockSpec.ghost_sorts.update(lst0=I)


class SockSpec2(SockSpec):
    """Second contracts for the same functions: the worker as the caller, the closed task."""
    contracts = [SendMove(), ProtCloseEnd(), CloseErr(), SendErr(), RecvErr()]


class IOSpec(SockSpec):
    """How the worker of a socket does the I/O."""
    handlers = SockSpec.handlers + [(A_ + r'IOTask::ProcessArgs\(.*', 'h_pargs'), (A_ + r'IOTask::Send\(mg::net::BufferLink const\*.*', 'h_send'), (A_ + r'IOTask::Recv\(mg::net::Buffer\*.*', 'h_recv'), (BL + r'SkipEmptyPrefix\(.*', 'h_skipe'), (BL + r'SkipData\(.*', 'h_skip'), (BL + r'GetFirst\(\)( const)?', 'h_first'),
                                    (BS + r'EnsureWriteSize\(.*', 'h_ensure'), (BS + r'GetWritePos\(\)', 'h_wpos'), (BS + r'PropagateWritePos\(.*', 'h_prop'), (F_ + r'ProtOnEvent\(\)', 'h_onevent'), (S_ + r'PrivRecv\(\)', 'h_precv'), (S_ + r'PrivSend\(\)', 'h_psend')]
    assumptions = SockSpec.assumptions + ('IOTask::Send and Recv: the event gets bytes (not 0 for Send), an error, or is locked until there is an event of the socket (B17)', 'the link list and the stream do what B15 says')

    def on_attach(self):
        SockSpec.on_attach(self)
        self.classes['Buf'] = Cls({})

    def no_inline(self, n, dem):
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def part(self, ex, S, p, n, what):
        self.G(ex, S, And(p.base == self.this(), BoolVal(p.cls == 'Sock' and p.off == self.k('s_' + n)), S.ghost['gone'] == 0, S.ghost['worker'], S.ghost['tclosed'] == 0), what, 'call-pre')

    def evput(self, ex, S, w, n, v):
        ex.raw_store(S, Ptr(self.this(), self.k('s_' + w) + self.k('e_' + n), 'Sock'), 'i32' if n == 'value' else 'i8', v)

    def result(self, ex, S, w, zero):
        """What an attempt leaves in the event."""
        lk, er, n = fresh('wait', I), fresh('fail', I), fresh('bytes', I)
        ex.assume(S, And(0 <= lk, lk <= 1, 0 <= er, er <= 1, 0 <= n, n < M32, Or(BoolVal(zero), er == 1, n > 0)))
        for c, v in (('locked', lk), ('empty', lk), ('error', er), ('value', n)):
            self.evput(ex, S, w, c, v)
        return er == 0

    def open_ev(self, S, w):
        return And(self.ev(S, w, 'locked') == 0, self.ev(S, w, 'empty') == 1)

    # -- the task
    def h_pargs(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.task(ex, S, v[0])
        self.G(ex, S, And(v[1].base == Int('p_args'), g['step'] == 0, g['tclosed'] == 0), 'the events of the task are processed first')
        ok = fresh('ok', B)
        e = fresh('err', I)
        ex.assume(S, And(e >= 0, Implies(Not(ok), e > 0)))
        ex.raw_store(S, v[2], 'ptr', Ptr(e, 0, 'ErrO'))
        # Events of an operation in progress are unlocked, still empty.
        for w in ('sev', 'rev'):
            u = fresh('unl', B)
            ex.assume(S, Implies(u, self.ev(S, w, 'empty') == 1))
            ex.assume(S, Implies(self.sc(S, 'hsdone') == 0, Not(u)))
            self.evput(ex, S, w, 'locked', If(u, 0, self.ev(S, w, 'locked')))
        g['step'] = If(ok, 1, 9)
        return ok

    def stub(self, ex, S, frm, to, what):
        g = S.ghost
        self.G(ex, S, And(g['step'] == frm, g['locked'] == 0, g['worker'], g['tclosed'] == 0, g['gone'] == 0), what)
        g['step'] = IntVal(to)

    def again(self, ex, S):
        """After the steps under their own contracts."""
        g = S.ghost
        for lab, f in self.WI(S):
            self.G(ex, S, f, 'at a step: ' + lab, 'invariant')
        for n in ('state', 'fctl', 'ctl', 'hsdone', 'rsize'):
            v = fresh(n, I)
            ex.assume(S, And(v >= 0, v < ((1 << 61) if n == 'rsize' else 256 if n in ('state', 'hsdone') else (1 << 63))))
            self.put(ex, S, n, v)
        for w in ('sev', 'rev'):
            for n in ('locked', 'empty', 'error'):
                self.evput(ex, S, w, n, fresh(n, I))
        d = fresh('deadline', I)
        q = fresh('sq', I)
        ex.assume(S, And(d >= 0, q >= 0))
        ex.raw_store(S, Ptr(self.this(), self.k('s_task') + self.k('t_deadline'), 'Sock'), 'i64', d)
        g['sq'] = q
        g['lst'], g['lfctl'] = self.sc(S, 'state'), self.sc(S, 'fctl')
        x = Int('x')
        fr = fresh('freed', AI)
        g['freed'] = fr
        for lab, f in self.LI(S) + self.WI(S):
            ex.assume(S, f)

    def h_onevent(self, ex, ctx, S, v, ins):
        self.G(ex, S, v[0].base == self.this(), 'this socket', 'call-pre')
        self.stub(ex, S, 1, 2, 'control messages are handled after the events')
        self.again(ex, S)

    def h_precv(self, ex, ctx, S, v, ins):
        self.stub(ex, S, 2, 3, 'the receipt goes after control messages')
        self.again(ex, S)

    def h_psend(self, ex, ctx, S, v, ins):
        self.stub(ex, S, 3, 4, 'sending is the last')
        self.again(ex, S)

    # -- sending
    def h_skipe(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.part(ex, S, v[0], 'sq', 'the queue of the worker')
        self.part(ex, S, v[1], 'off', 'the position in the first link')
        self.G(ex, S, And(g['sends'] == 0, g['skipe'] == 0), 'before the sending')
        q, o = fresh('sq', I), fresh('off', I)
        ex.assume(S, And(q >= 0, Implies(g['sq'] == 0, q == 0), 0 <= o, o < M32))
        g['sq'] = q
        g['offv'] = o
        ex.raw_store(S, v[1], 'i32', o)
        g['skipe'] = IntVal(1)

    def h_first(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.part(ex, S, v[0], 'sq', 'the queue of the worker')
        l = fresh('link', I)
        ex.assume(S, And(l >= 0, (l == 0) == (g['sq'] == 0)))
        g['first'] = l
        g['fsq'] = g['sq']
        return Ptr(l, 0, 'Link')

    def h_send(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.task(ex, S, v[0])
        self.part(ex, S, v[3], 'sev', 'the event of sending')
        self.G(ex, S, And(g['locked'] == 0, g['sends'] == 0, g['skipe'] == 1, v[1].base == g['first'], v[1].base > 0, g['sq'] == g['fsq'], v[2] == g['offv'], self.open_ev(S, 'sev')), 'the next data is sent, once, when nothing is being sent')
        g['sends'] = IntVal(1)
        return self.result(ex, S, 'sev', False)

    def h_skip(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.part(ex, S, v[0], 'sq', 'the queue of the worker')
        self.part(ex, S, v[1], 'off', 'the position in the first link')
        self.G(ex, S, And(v[2] == self.ev(S, 'sev', 'value'), self.ev(S, 'sev', 'error') == 0, self.ev(S, 'sev', 'locked') == 0, g['pend'] == 0, Or(g['sends'] == 0, g['sq'] == g['fsq'])), 'exactly what is sent leaves the queue')
        q, o = fresh('sq', I), fresh('off', I)
        ex.assume(S, And(q >= 0, Implies(g['sq'] == 0, q == 0), 0 <= o, o < M32))
        g['sq'] = q
        ex.raw_store(S, v[1], 'i32', o)
        g['pend'] = IntVal(1)
        g['pendn'] = v[2]
        g['skips'] = g['skips'] + 1

    def on_OnSend(self, ex, S, v):
        g = S.ghost
        self.G(ex, S, And(g['pend'] == 1, v[1] == g['pendn'], self.ev(S, 'sev', 'empty') == 1), 'the user is told what was sent, once')
        g['pend'] = IntVal(0)
        g['onsend'] = g['onsend'] + 1

    def on_OnSendError(self, ex, S, v):
        g = S.ghost
        self.G(ex, S, And(g['pend'] == 0, self.ev(S, 'sev', 'error') == 1, self.ev(S, 'sev', 'locked') == 0), 'an error of sending')
        g['onerr'] = g['onerr'] + 1

    # -- receiving
    def h_ensure(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.part(ex, S, v[0], 'rq', 'the received data of the socket')
        self.G(ex, S, And(v[1] == self.sc(S, 'rsize'), v[1] > 0, g['recvs'] == 0), 'space for all what is wanted')
        g['space'] = v[1]
        g['wpos'] = IntVal(0)

    def h_wpos(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.part(ex, S, v[0], 'rq', 'the received data of the socket')
        p = fresh('wpos', I)
        ex.assume(S, Implies(g['space'] > 0, p > 0))
        g['wpos'] = p
        return Ptr(p, 0, 'Buf')

    def h_recv(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.task(ex, S, v[0])
        self.part(ex, S, v[2], 'rev', 'the event of the receipt')
        self.G(ex, S, And(g['locked'] == 0, g['recvs'] == 0, v[1].base == g['wpos'], v[1].base > 0, g['space'] == self.sc(S, 'rsize'), self.open_ev(S, 'rev')), 'the data is received to where it continues, once')
        g['recvs'] = IntVal(1)
        return self.result(ex, S, 'rev', True)

    def h_prop(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.part(ex, S, v[0], 'rq', 'the received data of the socket')
        self.G(ex, S, And(v[1] == self.ev(S, 'rev', 'value'), v[1] > 0, self.ev(S, 'rev', 'error') == 0, self.ev(S, 'rev', 'locked') == 0, g['pend'] == 0), 'exactly what is received is shown')
        g['pend'] = IntVal(1)
        g['props'] = g['props'] + 1

    def on_OnRecv(self, ex, S, v):
        g = S.ghost
        self.G(ex, S, And(g['pend'] == 1, self.ev(S, 'rev', 'empty') == 1, self.sc(S, 'rsize') == 0), 'the user gets the received data once, and can ask for more')
        g['pend'] = IntVal(0)
        g['onrecv'] = g['onrecv'] + 1

    def on_OnRecvError(self, ex, S, v):
        g = S.ghost
        self.G(ex, S, And(g['pend'] == 0, self.ev(S, 'rev', 'error') == 1, self.ev(S, 'rev', 'locked') == 0), 'an error of the receipt')
        g['onerr'] = g['onerr'] + 1


IOSpec.ghost_sorts = dict(SockSpec.ghost_sorts, step=I, skipe=I, fsq=I, pend=I, pendn=I, space=I, wpos=I)


class IOC(Worker):
    def more(self, E):
        g = E.S.ghost
        return [('no step yet', And(*[g[n] == 0 for n in ('step', 'skipe', 'pend', 'space', 'wpos', 'fst')]))]

    def dl(self, E):
        return E.ex.spec.tk(E.S, 'deadline', 'i64')


class OnEvent(IOC):
    name = S_ + r'OnEvent\(.*'
    label = 'TCPSocket::OnEvent'
    params = [('this', 'Sock'), ('args', 'Args')]

    def more(self, E):
        return IOC.more(self, E) + [('arguments', E.b('args') > 0)]

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        return [('control messages, the receipt, and sending, unless the task has failed', Or(g['step'] == 4, And(g['step'] == 9, g['pc'] == 1, g['lst'] == sp.k('st_closing'))))] + self.base(E)


class OnEventEnd(OnEvent):
    label = 'TCPSocket::OnEvent(closed)'
    closed = 1

    def post(self, E):
        g = E.S.ghost
        return [('the user is told once, nothing else is called', And(g['onclose'] == 1, g['ncb'] == 1, g['locked'] == 0, g['pc'] == 0, g['step'] == 0))]


class PrivSend(IOC):
    name = S_ + r'PrivSend\(\)'
    label = 'TCPSocket::PrivSend'

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        k = sp.k
        was = lambda n: sp.ev(E.S0, 'sev', n)
        now = lambda n: sp.ev(E.S, 'sev', n)
        start = And(was('locked') == 0, was('empty') == 1)
        sent = g['sends'] == 1
        wait = And(now('locked') == 1, g['pc'] == 0)
        return [('what is being sent is waited for', Implies(was('locked') == 1, And(g['sends'] == 0, g['skips'] == 0, g['ncb'] == 0, now('locked') == 1))), ('if there is anything to send, it is sent', Implies(start, sent == And(g['first'] != 0))), ('the result is not left', Or(now('locked') == 1, now('empty') == 1)),
                ('the user is told about everything sent', And(g['pend'] == 0, g['onsend'] == g['skips'])), ('the result of sending is handled at once', Implies(And(start, sent), Or(wait, g['onsend'] == 1, g['pc'] == 1))),
                ('an error closes the socket', Implies(g['onerr'] > 0, And(g['pc'] == 1, g['lst'] == k('st_closing')))), ('what is left to send is sent later', Implies(And(sent, Not(now('locked') == 1), g['sq'] != 0), self.dl(E) == 0)),
                ('what was requested to receive is received later', Implies(And(g['onsend'] > 0, g['pc'] == 0, sp.sc(E.S, 'rsize') > 0, sp.ev(E.S, 'rev', 'locked') == 0), self.dl(E) == 0))] + self.base(E)


class PrivRecv(IOC):
    name = S_ + r'PrivRecv\(\)'
    label = 'TCPSocket::PrivRecv'

    def post(self, E):
        g = E.S.ghost
        sp = E.ex.spec
        k = sp.k
        was = lambda n: sp.ev(E.S0, 'rev', n)
        now = lambda n: sp.ev(E.S, 'rev', n)
        start = And(was('locked') == 0, was('empty') == 1)
        got = g['recvs'] == 1
        wait = And(now('locked') == 1, g['pc'] == 0)
        return [('what is being received is waited for', Implies(was('locked') == 1, And(g['recvs'] == 0, g['props'] == 0, g['ncb'] == 0, now('locked') == 1))), ('if anything is wanted, it is received', Implies(start, got == (sp.sc(E.S0, 'rsize') > 0))), ('the result is not left', Or(now('locked') == 1, now('empty') == 1)),
                ('the user gets everything received', And(g['pend'] == 0, g['onrecv'] == g['props'])), ('the result of the receipt is handled at once', Implies(And(start, got), Or(wait, g['onrecv'] == 1, g['pc'] == 1))),
                ('an error closes the socket', Implies(g['onerr'] > 0, And(g['pc'] == 1, g['lst'] == k('st_closing')))), ('what is wanted more is received later', Implies(And(got, Not(now('locked') == 1), sp.sc(E.S, 'rsize') > 0), self.dl(E) == 0))] + self.base(E)


IOSpec.contracts = [OnEvent(), PrivSend(), PrivRecv()]


class IOSpec2(IOSpec):
    """The closed task."""
    contracts = [OnEventEnd()]


# ---- name requests -------------------------------------------------------------------------
EV, NE = Int('endpoints'), Int('n_endpoints')
D_ = A_ + r'TCPSocketCtlDomainRequest::'


class DomSpec(RG):
    """A name request is shared by the socket and the resolver. The task pointer is the hand-over: who finds it
    dropped by the other one owns the request alone."""
    tu = 'tcp.cpp'
    shared = ()
    env_cells = ()
    ghost_sorts = dict(locked=I, unl=I, over=I, mine=I, can=B, wrote=I, woken=I, deld=I, freed=I, nasync=I, ncan=I, frm=I, nport=I, err0=I)
    handlers = [(r'mg::box::Mutex::Lock\(\)', 'h_lock'), (r'mg::box::Mutex::Unlock\(\)', 'h_unlock'), (A_ + r'IOTask::PostWakeup\(\)', 'h_wakeup'), (r'mg::net::DomainToIPAsync\(.*', 'h_async'), (r'mg::net::DomainToIPCancel\(.*', 'h_cancel'),
                (D_ + r'~TCPSocketCtlDomainRequest\(\)', 'h_del'), (r'std::__cxx11::basic_string<.*::c_str\(\) const', 'h_cstr'), (r'mg::net::Host::SetPort\(.*', 'h_hport'), (r'mg::box::ErrorRaise\(.*', 'h_raise'), (ESP + r'PrivUnref\(.*', 'h_nop'), (ESP + r'PrivRef\(.*', 'h_nop'),
                (r'.*std::_Bind<.*std::bind<.*', 'h_bind'), (r'.*std::bind<.*', 'h_bind'), (r'std::function<void \(char const\*.*>::function<.*', 'h_func'), (r'std::_Function_base::~_Function_base\(\)', 'h_nop')]
    assumptions = RG.assumptions + ('the resolver calls back once, with endpoints or an error (DomainToIP)', 'the task outlives its request: it is dropped from the request before')

    def on_attach(self):
        k = self.k
        self.classes = {'Dom': Cls({k('d_task'): To('Task'), k('d_err'): To('ErrO')}), 'Task': Cls({}), 'ErrO': Cls({}), 'Str': Cls({}), 'Vec': Cls({0: To('EndP', idx=True), 8: To('EndP', idx=True)}), 'EndP': Cls({}, arr=True, stride=k('k_endsize'))}

    def no_inline(self, n, dem):
        return any(re.fullmatch(rx, dem) for rx, _ in self.handlers)

    def d(self, S, n):
        return S.ld('Dom', self.k('d_' + n), dict(task='ptr', err='ptr', sent='i8', port='i16', fam='i32', host='i16')[n], Int('p_this'))

    def fam(self, S, j):
        return Select(Select(S.get(('EndP', 0, 'i16', 'A')), EV), j)

    def G(self, ex, S, f, what, kind='guarantee'):
        ex.prove(S, f, what, ex.cur_loc, kind)

    def h_nop(self, ex, ctx, S, v, ins):
        return None

    def on_access(self, ex, S, p, what):
        g = S.ghost
        if p.local is not None or p.cls != 'Dom':
            return
        w = ex.contract.role == 'worker'
        self.G(ex, S, And(p.base == Int('p_this'), g['over'] == 0, g['deld'] == 0), 'the request is not touched after it is left to the other one, or deleted (%s)' % what, 'race')
        k = self.k
        if p.off == k('d_task'):
            self.G(ex, S, Or(g['locked'] == 1, g['can']), 'the task pointer is under the mutex', 'race')
        elif p.off == k('d_sent'):
            self.G(ex, S, BoolVal(w), 'the flag belongs to the socket', 'race')
        elif p.off in (k('d_err'), k('d_host')):
            self.G(ex, S, Or(BoolVal(not w), g['can']), 'the result belongs to the resolver until it is ready', 'race')

    def setk(self, ex, S, n, v):
        ex.raw_store(S, Ptr(Int('p_this'), self.k('d_' + n), 'Dom'), 'ptr', Ptr(v, 0, 'Task'))

    def h_lock(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == Int('p_this'), BoolVal(v[0].off == self.k('d_mutex')), g['locked'] == 0, g['over'] == 0, g['deld'] == 0), 'the mutex of the living request', 'call-pre')
        t = fresh('dropped', B)
        self.setk(ex, S, 'task', If(t, 0, self.d(S, 'task')))
        g['locked'] = IntVal(1)
        g['can'] = self.d(S, 'task') == 0
        g['mine'] = self.d(S, 'task')

    def h_unlock(self, ex, ctx, S, v, ins):
        g = S.ghost
        t = self.d(S, 'task')
        self.G(ex, S, And(v[0].base == Int('p_this'), g['locked'] == 1, Or(t == g['mine'], t == 0)), 'the task is only dropped')
        gave = And(g['mine'] != 0, t == 0)
        if ex.contract.role == 'worker':
            self.G(ex, S, Implies(gave, g['ncan'] == 1), 'the resolver is told that the result is not wanted')
        else:
            self.G(ex, S, Implies(gave, And(g['woken'] == 1, self.ready(S))), 'the task is woken up when the result is ready')
        g['over'] = If(gave, 1, 0)
        g['locked'] = IntVal(0)
        g['unl'] = g['unl'] + 1

    def ready(self, S):
        return Or(self.d(S, 'err') != 0, And(self.d(S, 'host') != 0, S.ghost['nport'] == 1))

    def h_wakeup(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(g['locked'] == 1, v[0].base == g['mine'], g['mine'] != 0), 'the task cannot go while it is being woken up', 'call-pre')
        g['woken'] = g['woken'] + 1

    def h_del(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == Int('p_this'), g['locked'] == 0, g['deld'] == 0, g['over'] == 0, g['can']), 'who deletes the request is its only owner')
        g['deld'] = IntVal(1)

    def free(self, ex, ctx, S, p):
        g = S.ghost
        if p.cls == 'Dom':
            self.G(ex, S, And(p.base == Int('p_this'), g['deld'] == 1, g['freed'] == 0), 'freed after the destruction')
            g['freed'] = IntVal(1)

    def h_cstr(self, ex, ctx, S, v, ins):
        self.G(ex, S, And(v[0].base == Int('p_this'), BoolVal(v[0].off == self.k('d_name'))), 'the name')
        return Ptr(cstr(v[0].base), 0, 'Str')

    def h_bind(self, ex, ctx, S, v, ins):
        return None

    def h_func(self, ex, ctx, S, v, ins):
        return None

    def memset(self, ex, S, d, v, n):
        if d.local is None:
            raise Unsupported('memset')

    def h_async(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == Int('p_this'), BoolVal(v[0].off == self.k('d_req')), v[1].base == cstr(Int('p_this')), g['nasync'] == 0, self.d(S, 'sent') == 1, g['locked'] == 0), 'the name is requested once, with the flag set before')
        g['nasync'] = IntVal(1)
        g['can'] = BoolVal(False)

    def h_cancel(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == Int('p_this'), BoolVal(v[0].off == self.k('d_req')), g['locked'] == 1, g['ncan'] == 0, g['mine'] != 0, BoolVal(ex.contract.role == 'worker')), 'a request in progress is canceled, while the resolver cannot delete it')
        g['ncan'] = IntVal(1)

    def h_raise(self, ex, ctx, S, v, ins):
        e = fresh('err', I)
        ex.assume(S, e > 0)
        ex.raw_store(S, v[0], 'ptr', Ptr(e, 0, 'ErrO'))

    def h_hport(self, ex, ctx, S, v, ins):
        g = S.ghost
        self.G(ex, S, And(v[0].base == Int('p_this'), BoolVal(v[0].off == self.k('d_host')), v[1] == self.d(S, 'port'), g['frm'] >= 0), 'the port goes to the found host')
        g['nport'] = g['nport'] + 1

    def memcpy(self, ex, S, d, s, n):
        g = S.ghost
        if d.cls == 'Dom' and d.off == self.k('d_host') and s.cls == 'EndP' and s.off == 0 and z3.is_int_value(n) and n.as_long() == self.k('k_hostsize'):
            j = s.idx if s.idx is not None else IntVal(0)
            self.on_access(ex, S, d, 'store')
            self.G(ex, S, And(s.base == EV, 0 <= j, j < NE), 'an endpoint of the answer')
            g['frm'] = j
            ex.raw_store(S, d, 'i16', self.fam(S, j))
            return
        raise Unsupported('memcpy %s %s' % (d, s))


class DC(RCon):
    params = [('this', 'Dom')]
    role = 'worker'

    def pre(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        return [('the request', E.b('this') > 0), ('nothing done', And(*[g[n] == 0 for n in ('locked', 'unl', 'over', 'woken', 'deld', 'freed', 'nasync', 'ncan', 'nport', 'wrote')], g['frm'] == -1)), ('a flag', And(0 <= sp.d(E.S, 'sent'), sp.d(E.S, 'sent') <= 1, sp.d(E.S, 'task') >= 0))] + self.more(E)

    def more(self, E):
        sp = E.ex.spec
        # An unsent request belongs to the socket.
        return [('who owns it', E.S.ghost['can'] == (sp.d(E.S, 'sent') == 0)), ('it has a task until it is sent', Implies(sp.d(E.S, 'sent') == 0, sp.d(E.S, 'task') > 0))]


class DUpdate(DC):
    name = D_ + r'Update\(\)'
    label = 'TCPSocketCtlDomainRequest::Update'

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        s0 = sp.d(E.S0, 'sent')
        return [('sent once', And(sp.d(E.S, 'sent') == 1, g['nasync'] == If(s0 == 0, 1, 0))), ('finished when the result is ready', E.ret == And(s0 == 1, g['can'], g['unl'] == 1)), ('the request stays', And(g['deld'] == 0, g['over'] == 0, g['locked'] == 0))]


class DCancel(DC):
    name = D_ + r'Cancel\(\)'
    label = 'TCPSocketCtlDomainRequest::Cancel'

    def post(self, E):
        g = E.S.ghost
        return [('deleted, or left to the resolver', And(g['locked'] == 0, Or(And(g['freed'] == 1, g['over'] == 0), And(g['freed'] == 0, g['over'] == 1, g['ncan'] == 1))))]


class DResolve(DC):
    name = D_ + r'PrivOnDomainResolve\(.*'
    label = 'TCPSocketCtlDomainRequest::PrivOnDomainResolve'
    params = [('this', 'Dom'), ('name', 'Str'), ('vec', 'Vec'), ('err', 'ErrO')]
    role = 'resolver'

    def more(self, E):
        sp = E.ex.spec
        S = E.S
        j = Int('j')
        v = E.b('vec')
        return [('the answer', And(v > 0, EV > 0, NE >= 0, S.ld('Vec', 0, 'ptr', v) == EV, S.ld('Vec', 0, 'ix', v) == 0, S.ld('Vec', 8, 'ptr', v) == EV, S.ld('Vec', 8, 'ix', v) == NE, E.b('err') >= 0, Implies(E.b('err') == 0, NE > 0), NE < (1 << 32))), ('endpoints are addresses', ForAll([j], Implies(And(0 <= j, j < NE), And(0 < sp.fam(S, j), sp.fam(S, j) < 65536)), patterns=[sp.fam(S, j)])),
                ('no result yet', And(sp.d(S, 'err') == 0, sp.d(S, 'host') == 0, Not(S.ghost['can']))), ('a family', And(0 <= sp.d(S, 'fam'), sp.d(S, 'fam') < 65536))]

    def inv(E):
        sp = E.ex.spec
        j = Int('j')
        p = E.r['__begin4.sroa.0']
        return [('position', And(p.base == EV, 0 <= p.idx, p.idx <= NE)), ('no such family before', ForAll([j], Implies(And(0 <= j, j < p.idx), sp.fam(E.S, j) != sp.d(E.S, 'fam')), patterns=[sp.fam(E.S, j)])), ('not found yet', And(sp.d(E.S, 'host') == 0, sp.d(E.S, 'err') == 0, E.S.ghost['frm'] == -1))]
    loops = [Loop({'__begin4.sroa.0': 'ptr'}, inv, lambda E: NE - E.r['__begin4.sroa.0'].idx, cls={'__begin4.sroa.0': 'EndP'})]

    def post(self, E):
        sp = E.ex.spec
        g = E.S.ghost
        j = Int('j')
        fam = sp.d(E.S0, 'fam')
        left = And(g['over'] == 1, g['freed'] == 0, g['woken'] == 1)
        f = g['frm']
        ok = And(E.b('err') == 0, f >= 0)
        return [('the result is told, or nobody wants it', And(g['locked'] == 0, Or(left, And(g['freed'] == 1, g['over'] == 0, g['woken'] == 0)))), ('an error is kept', Implies(E.b('err') != 0, sp.d(E.S, 'err') == E.b('err'))),
                ('the first endpoint of the wanted family', Implies(E.b('err') == 0, Or(And(f >= 0, f < NE, g['nport'] == 1, sp.d(E.S, 'err') == 0, sp.d(E.S, 'host') == sp.fam(E.S0, f), Or(And(fam == 0, f == 0), And(fam != 0, sp.fam(E.S0, f) == fam))), And(f == -1, fam != 0, sp.d(E.S, 'err') != 0, ForAll([j], Implies(And(0 <= j, j < NE), sp.fam(E.S0, j) != fam))))))]


DomSpec.contracts = [DUpdate(), DCancel(), DResolve()]


SPEC = [CtlSpec, SockSpec, SockSpec2, IOSpec, IOSpec2, DomSpec]
