"""Verification-condition generator: symbolic execution of LLVM IR between cut
points (function entry, loop headers, returns), modular over callee contracts.

Every loop is cut at its header by an invariant (no unrolling), every call to a
function under contract is replaced by its contract.  Machine integers are
modelled exactly: an iN is an integer in [0,2^N) and every operation wraps.
"""
import itertools
import re
import time

import z3

from .ir import IRError, Instr

I = z3.IntSort()
B = z3.BoolSort()
ARR = z3.ArraySort(I, I)
ARR2 = z3.ArraySort(I, ARR)


class Unsupported(Exception):
    """The code left the fragment this verifier can read (not a violation)."""


class PathEnd(Exception):
    pass


_ctr = itertools.count(1)


def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


class Fn:
    """Function value."""

    def __init__(self, name):
        self.name = name


class Ptr:
    __slots__ = ('base', 'off', 'cls', 'idx', 'local')

    def __init__(self, base, off=0, cls=None, idx=None, local=None):
        self.base = base
        self.off = off
        self.cls = cls
        self.idx = idx      # element index for pointers into array regions
        self.local = local  # id of a stack slot

    def __repr__(self):
        return 'Ptr(%s+%s%s:%s)' % (self.base, self.off, '[%s]' % self.idx if self.idx is not None else '', self.cls)


class P2I:
    """ptrtoint value (kept symbolic so that pointer differences work)."""

    def __init__(self, p):
        self.p = p


class Diff:
    """pointer difference in bytes = elems * esize"""

    def __init__(self, elems, esize):
        self.elems = elems
        self.esize = esize


NULL = Ptr(z3.IntVal(0), 0, None)


# -- memory layout ------------------------------------------------------------------

class To:
    """A pointer cell holding null or the address (offset 0) of an object."""

    def __init__(self, cls, idx=False):
        self.cls = cls
        self.idx = idx


class Interior:
    """A pointer cell holding null or one of several (class, offset) addresses.
    Stored as base plus an integer code."""

    def __init__(self, alts):
        self.alts = alts


class ToFn:
    """A cell holding a function pointer / vtable pointer: opaque."""


class Cls:
    def __init__(self, fields=None, elem=None, arr=False, stride=None):
        self.fields = fields or {}    # off -> To/Interior (pointer cells only)
        self.arr = arr                # array region
        self.stride = stride          # element size in bytes for array regions


def bits(ty):
    if isinstance(ty, str) and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    raise Unsupported('int type %r' % (ty,))


class State:
    def __init__(self, init):
        self.mem = {}
        self.init = init
        self.ghost = {}
        self.locals = {}
        self.pc = []
        self.trace = []
        self.pending = []    # steps to run when the path is resumed

    def clone(self):
        s = State(self.init)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.locals = dict(self.locals)
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        s.pending = list(self.pending)
        return s

    def sort_of(self, key):
        return ARR2 if key[-1] == 'A' else ARR

    def get(self, key):
        if key not in self.mem:
            if key not in self.init:
                self.init[key] = z3.Const('M_' + '_'.join(str(x) for x in key) + '!0', self.sort_of(key))
            self.mem[key] = self.init[key]
        return self.mem[key]

    def set(self, key, v):
        self.get(key)
        self.mem[key] = v

    def havoc(self, key):
        self.get(key)
        self.mem[key] = fresh('M_' + '_'.join(str(x) for x in key), self.sort_of(key))

    # spec-side accessors ------------------------------------------------------------
    def f(self, cls, off, ty='ptr'):
        """The whole map of a cell: M[base]."""
        return self.get((cls, off, ty))

    def ld(self, cls, off, ty, base):
        return z3.Select(self.get((cls, off, ty)), base)

    def arr(self, cls, off, ty, base):
        return z3.Select(self.get((cls, off, ty, 'A')), base)


def key_of(p, ty):
    if p.idx is not None:
        return (p.cls, p.off, ty, 'A')
    return (p.cls, p.off, ty)


class Obl:
    def __init__(self, fn, label, loc, status, t, backend, detail='', kind='post'):
        self.fn = fn
        self.label = label
        self.loc = loc
        self.status = status      # 'ok' | 'failed' | 'unknown'
        self.t = t
        self.backend = backend
        self.detail = detail
        self.kind = kind

    def as_dict(self):
        return dict(fn=self.fn, label=self.label, loc=self.loc, status=self.status,
                    t=round(self.t, 3), backend=self.backend, detail=self.detail, kind=self.kind)


class Env:
    """What a contract's pre/post/invariant functions see."""

    def __init__(self, ex, args, S0, S, g, ret=None):
        self.ex = ex
        self.a = args        # name -> value (Ptr or z3 term)
        self.S0 = S0         # state at entry
        self.S = S           # current state
        self.g = g           # per-activation ghost constants
        self.ret = ret
        self.r = {}          # loop roles
        self.L = None        # state at loop entry
        self.phis = {}

    def b(self, name):
        return self.a[name].base


class Contract:
    """Base class; specs override.  All methods take an Env."""

    name = None                # regex over demangled names (full match)
    params = []                # [(name, class-or-None)]; None => integer
    ret = None                 # class of a returned pointer
    loops = []                 # list of Loop
    trusted = False            # no body verified (external), contract assumed
    verify = True
    alias_variants = None

    def ghosts(self, E):
        return {}

    def pre(self, E):
        return []

    def post(self, E):
        return []

    def modifies(self, E):
        """keys the function may write: dict key -> None (anything) or list of
        bases (only at these)."""
        return {}

    def call_ghost(self, E):
        """At a call: produce the ghost arguments E.g (dict)."""
        return {}

    def after(self, E):
        """Hook after a call's post was assumed (ghost updates)."""


class Loop:
    """Loop annotation.  roles: {role: type}; inv(E) -> [(label, formula)]."""

    def __init__(self, roles=None, inv=None, variant=None, havoc_ghost=(), cls=None):
        self.roles = roles or {}
        self.inv = inv
        self.variant = variant
        self.havoc_ghost = havoc_ghost
        self.cls = cls or {}


def conj(l):
    l = list(l)
    return z3.And(*l) if l else z3.BoolVal(True)


class Exec:
    """Verifies one function against its contract."""

    def __init__(self, mod, spec, solver_timeout=8000, budget=None):
        self.mod = mod
        self.spec = spec
        self.obls = []
        self.timeout = solver_timeout
        self.solver = None
        self.assumptions = set()
        self.returns = 0
        self.paths = 0
        self.feas_unknown = 0
        self.deadline = budget
        self.quiet = False     # when searching for a role mapping
        self.fn_label = '?'
        self.depth = 0
        self.backends = {}
        self.solver_time = 0.0
        self.maxpaths = 4000

    # -- solver -----------------------------------------------------------------------
    def mk_solver(self, timeout):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout)
        return s

    def new_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', 300)
        for k, v in (('smt.mbqi', False), ('auto_config', False)):
            try:
                self.solver.set(k, v)
            except z3.Z3Exception:
                pass

    def assume(self, S, f):
        if z3.is_true(f):
            return
        S.pc.append(f)
        self.solver.add(f)

    def quick(self, S, goal):
        """True iff goal is proved from the path condition quickly."""
        if z3.is_true(goal):
            return True
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        self.solver.push()
        self.solver.set('timeout', 200)
        self.solver.add(z3.Not(goal))
        r = self.solver.check()
        self.solver.pop()
        return r == z3.unsat

    def feasible(self, S, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        self.solver.push()
        self.solver.set('timeout', 300)
        self.solver.add(cond)
        t = time.time()
        r = self.solver.check()
        self.solver_time += time.time() - t
        self.solver.pop()
        if r == z3.unknown:
            self.feas_unknown += 1
        return r != z3.unsat

    def prove(self, S, goal, label, loc=None, kind='post'):
        if z3.is_and(goal):
            for k, ch in enumerate(goal.children()):
                self.prove(S, ch, label + ('.%d' % k), loc, kind)
            return
        t0 = time.time()
        status, be, detail = self.discharge(S, goal, kind)
        dt = time.time() - t0
        self.solver_time += dt
        self.obls.append(Obl(self.fn_label, label, loc, status, dt, be, detail, kind))
        if status == 'ok':
            self.backends[be] = self.backends.get(be, 0) + 1
        if self.quiet and status != 'ok':
            raise PathEnd('fail-fast')

    def discharge(self, S, goal, kind='post'):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'ok', 'simplifier', ''
        tmo = self.timeout if not self.quiet else min(self.timeout, 3000)
        self.solver.push()
        self.solver.set('timeout', tmo)
        self.solver.add(z3.Not(goal))
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unsat:
            return 'ok', 'z3', ''
        # second configuration: fresh solver, default tactic with MBQI
        from . import backend
        return backend.second_opinion(S.pc, goal, tmo, quiet=self.quiet, spec=self.spec)

    # -- values -----------------------------------------------------------------------
    def const(self, ty, v):
        k = v[0]
        if k == 'int':
            if ty == 'i1':
                return z3.BoolVal(v[1] != 0)
            n = bits(ty)
            return z3.IntVal(v[1] % (1 << n))
        if k == 'null':
            return NULL
        if k == 'undef':
            if ty == 'ptr':
                return Ptr(fresh('undef'), 0, None)
            if ty == 'i1':
                return fresh('undef', B)
            if isinstance(ty, tuple) or (isinstance(ty, str) and ty[0] == '%'):
                t = self.mod.resolve(ty)
                if t[0] == 'struct':
                    return [self.const(e, v) for e in t[1]]
                raise Unsupported('undef %r' % (ty,))
            x = fresh('undef')
            return x
        if k == 'zero':
            t = self.mod.resolve(ty) if not isinstance(ty, str) or ty[0] == '%' else ty
            if isinstance(t, tuple) and t[0] == 'struct':
                return [self.const(e, v) for e in t[1]]
            if t == 'ptr':
                return NULL
            if t == 'i1':
                return z3.BoolVal(False)
            if isinstance(t, str) and t[0] == 'i':
                return z3.IntVal(0)
        if k == 'global':
            nm = v[1][1:]
            if nm in self.mod.funcs or nm in self.mod.decls:
                return Fn(nm)
            return self.global_ptr(nm)
        if k == 'cgep':
            ops = [(t, self.const(t, x)) for t, x in v[2]]
            return self.gep(v[1], ops)
        if k == 'fconst':
            return z3.RealVal(0) if False else fresh('fp', z3.RealSort())
        if k == 'agg':
            return [self.const(t, x) for t, x in v[1]]
        if k == 'ccast' and v[1] == 'ptrtoint':
            return P2I(self.const('ptr', v[3]))
        raise Unsupported('constant %r' % (v,))

    def global_ptr(self, nm):
        base = z3.Int('G_' + nm)
        return Ptr(base, 0, 'G:' + nm)

    def val(self, fr, ty, v):
        if v[0] == 'var':
            try:
                return fr[v[1]]
            except KeyError:
                raise Unsupported('undefined value ' + v[1])
        return self.const(ty, v)

    def sgn(self, x, n):
        if z3.is_int_value(x):
            c = x.as_long()
            return z3.IntVal(c - (1 << n) if c >= 1 << (n - 1) else c)
        return z3.If(x >= (1 << (n - 1)), x - (1 << n), x)

    def wrap(self, S, s, n):
        """s is the mathematical result; reduce to [0,2^n)."""
        m = 1 << n
        s = z3.simplify(s)
        if z3.is_int_value(s):
            return z3.IntVal(s.as_long() % m)
        if self.quick(S, z3.And(s >= 0, s < m)):
            return s
        if self.quick(S, z3.And(s >= m, s < 2 * m)):
            return s - m
        if self.quick(S, z3.And(s < 0, s >= -m)):
            return s + m
        if self.quick(S, z3.And(s >= -m, s < 2 * m)):
            return z3.If(s < 0, s + m, z3.If(s >= m, s - m, s))
        return s % m

    def binop(self, S, op, ty, a, b):
        if isinstance(ty, tuple):
            raise Unsupported('vector op')
        if ty == 'i1':
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if op[0] == 'f':
            return fresh('fp', z3.RealSort())
        n = bits(ty)
        if isinstance(a, P2I) and isinstance(b, P2I) and op == 'sub':
            pa, pb = a.p, b.p
            if pa is NULL and pb is NULL:
                return z3.IntVal(0)
            if pa.cls in self.spec.classes and self.spec.classes[pa.cls].arr:
                st = self.spec.classes[pa.cls].stride
                ia = pa.idx if pa.idx is not None else z3.IntVal(0)
                ib = pb.idx if pb.idx is not None else z3.IntVal(0)
                self.prove(S, pa.base == pb.base, 'ptrdiff.same-object', kind='safety')
                return Diff(ia - ib, st)
            raise Unsupported('pointer difference')
        if isinstance(a, P2I) or isinstance(b, P2I):
            p, o = (a.p, b) if isinstance(a, P2I) else (b.p, a)
            if op == 'and':
                # alignment tests and the like
                return fresh('p2iand')
            if (op == 'add' or (op == 'sub' and isinstance(a, P2I))) and isinstance(o, z3.ExprRef) and z3.is_int_value(o):
                c = o.as_long()
                if c >= 1 << 63:
                    c -= 1 << 64
                return P2I(self.padd(S, p, z3.IntVal(c if op == 'add' else -c), 1))
            raise Unsupported('ptrtoint arithmetic')
        if isinstance(a, Diff) or isinstance(b, Diff):
            if isinstance(a, Diff) and z3.is_int_value(b) if not isinstance(b, Diff) else False:
                c = b.as_long()
                if op in ('sdiv', 'udiv') and c == a.esize:
                    return self.wrap(S, a.elems, n)
                if op in ('ashr', 'lshr') and (1 << c) == a.esize:
                    return self.wrap(S, a.elems, n)
            a = self.undiff(S, a, n)
            b = self.undiff(S, b, n)
        if op == 'add':
            if z3.is_int_value(b) and b.as_long() >= 1 << (n - 1):
                return self.wrap(S, a - ((1 << n) - b.as_long()), n)
            if z3.is_int_value(a) and a.as_long() >= 1 << (n - 1):
                return self.wrap(S, b - ((1 << n) - a.as_long()), n)
            return self.wrap(S, a + b, n)
        if op == 'sub':
            return self.wrap(S, a - b, n)
        if op == 'mul':
            if z3.is_int_value(b) and b.as_long() >= 1 << (n - 1):
                return self.wrap(S, a * (b.as_long() - (1 << n)), n)
            return self.wrap(S, a * b, n)
        if op == 'udiv':
            self.prove(S, b != 0, 'div.nonzero', kind='safety')
            return a / b
        if op == 'urem':
            self.prove(S, b != 0, 'div.nonzero', kind='safety')
            return a % b
        if op in ('sdiv', 'srem'):
            sa, sb = self.sgn(a, n), self.sgn(b, n)
            self.prove(S, b != 0, 'div.nonzero', kind='safety')
            if self.quick(S, z3.And(sa >= 0, sb > 0)):
                return sa / sb if op == 'sdiv' else sa % sb
            q = z3.If(sa >= 0, z3.If(sb > 0, sa / sb, -(sa / -sb)), z3.If(sb > 0, -((-sa) / sb), (-sa) / (-sb)))
            if op == 'sdiv':
                return self.wrap(S, q, n)
            return self.wrap(S, sa - q * sb, n)
        if op == 'shl':
            if z3.is_int_value(b):
                return self.wrap(S, a * (1 << b.as_long()), n)
        if op == 'lshr':
            if z3.is_int_value(b):
                return a / z3.IntVal(1 << b.as_long())
        if op == 'ashr':
            if z3.is_int_value(b):
                return self.wrap(S, self.sgn(a, n) / z3.IntVal(1 << b.as_long()), n)
        if op in ('and', 'or', 'xor'):
            if z3.is_int_value(a) and not z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(b):
                c = b.as_long()
                if z3.is_int_value(a):
                    x = a.as_long()
                    return z3.IntVal({'and': x & c, 'or': x | c, 'xor': x ^ c}[op])
                if op == 'and':
                    if c == 0:
                        return z3.IntVal(0)
                    lo = (c & -c).bit_length() - 1
                    hi = c.bit_length()
                    if c == ((1 << hi) - (1 << lo)):
                        r = a % z3.IntVal(1 << hi) if hi < n else a
                        if lo:
                            r = (r / z3.IntVal(1 << lo)) * (1 << lo)
                        return r
                if op == 'xor' and c == (1 << n) - 1:
                    return c - a
                if op == 'xor' and c == 1:
                    return z3.If(a % 2 == 0, a + 1, a - 1)
                if c == 0:
                    return a
                if op == 'or':
                    lo = (c & -c).bit_length() - 1
                    hi = c.bit_length()
                    if c == ((1 << hi) - (1 << lo)):
                        r = self.binop(S, 'and', ty, a, z3.IntVal(((1 << n) - 1) ^ c))
                        return r + c
            r = self.spec.bitop(self, S, op, n, a, b)
            if r is not None:
                return r
            r = z3.BV2Int({'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op](
                z3.Int2BV(a, n), z3.Int2BV(b, n)))
            return r
        raise Unsupported('op %s %s' % (op, ty))

    def undiff(self, S, a, n):
        if isinstance(a, Diff):
            return self.wrap(S, a.elems * a.esize, n)
        return a

    def peq(self, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn):
                return z3.BoolVal(a.name == b.name)
            p = b if isinstance(a, Fn) else a
            return z3.BoolVal(False) if p is NULL else fresh('fneq', B)
        isn = lambda p: p is NULL or (z3.is_int_value(p.base) and p.base.as_long() == 0)
        if isn(a) or isn(b):
            p = b if isn(a) else a
            if p.local is not None:
                return z3.BoolVal(False)
            if p.off != 0:
                return z3.BoolVal(False)
            return p.base == 0
        if a.off != b.off:
            return z3.BoolVal(False)
        r = a.base == b.base
        if a.idx is not None or b.idx is not None:
            ia = a.idx if a.idx is not None else z3.IntVal(0)
            ib = b.idx if b.idx is not None else z3.IntVal(0)
            r = z3.And(r, ia == ib)
        return r

    def icmp(self, S, pred, ty, a, b):
        if ty == 'ptr':
            if pred == 'eq':
                return self.peq(a, b)
            if pred == 'ne':
                return z3.Not(self.peq(a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and (a.idx is not None or b.idx is not None):
                ia = a.idx if a.idx is not None else z3.IntVal(0)
                ib = b.idx if b.idx is not None else z3.IntVal(0)
                self.prove(S, a.base == b.base, 'ptrcmp.same-object', kind='safety')
                return {'ult': ia < ib, 'ule': ia <= ib, 'ugt': ia > ib, 'uge': ia >= ib}[pred]
            raise Unsupported('pointer order comparison')
        if ty == 'i1':
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return z3.Xor(a, b)
            raise Unsupported('i1 icmp ' + pred)
        if isinstance(a, P2I) or isinstance(b, P2I):
            if isinstance(a, P2I) and isinstance(b, P2I) and pred in ('eq', 'ne'):
                r = self.peq(a.p, b.p)
                return r if pred == 'eq' else z3.Not(r)
            o = b if isinstance(a, P2I) else a
            if pred in ('eq', 'ne') and isinstance(o, z3.ExprRef) and z3.is_int_value(o) and o.as_long() == 0:
                r = self.peq(a.p if isinstance(a, P2I) else b.p, NULL)
                return r if pred == 'eq' else z3.Not(r)
            return fresh('p2icmp', B)
        n = bits(ty)
        if isinstance(a, Diff) and isinstance(b, Diff) and a.esize == b.esize:
            a, b = a.elems, b.elems
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                    'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]
        a = self.undiff(S, a, n)
        b = self.undiff(S, b, n)
        if pred[0] == 's':
            a, b = self.sgn(a, n), self.sgn(b, n)
        return {'eq': lambda: a == b, 'ne': lambda: a != b,
                'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[
            pred if pred in ('eq', 'ne') else pred[1:]]()

    # -- pointers / memory -------------------------------------------------------------
    def ptr_cell(self, p, ty):
        """a pointer cell accessed as an integer (std::atomic<T*>)"""
        return ty == 'i64' and isinstance(p, Ptr) and p.local is None and isinstance(self.layout(p), (To, Interior, ToFn))

    def i2p(self, v):
        if isinstance(v, P2I):
            return v.p
        if isinstance(v, z3.ExprRef) and z3.is_int_value(v) and v.as_long() == 0:
            return NULL
        if isinstance(v, (Ptr, Fn)):
            return v
        raise Unsupported('integer stored into a pointer cell')

    def padd(self, S, p, cnt, size):
        """p + cnt*size bytes (cnt: z3 Int mathematical, signed)."""
        cls = self.spec.classes.get(p.cls)
        cnt = z3.simplify(cnt)
        if cls is not None and cls.arr:
            st = cls.stride
            idx = p.idx if p.idx is not None else z3.IntVal(0)
            if size % st == 0:
                return Ptr(p.base, p.off, p.cls, z3.simplify(idx + cnt * (size // st)), p.local)
            if z3.is_int_value(cnt):
                tot = cnt.as_long() * size + p.off
                return Ptr(p.base, tot % st, p.cls, z3.simplify(idx + tot // st), p.local)
            # byte offset that is a multiple of the stride
            if size == 1 and z3.is_mul(cnt) and z3.is_int_value(cnt.arg(0)) and cnt.arg(0).as_long() % st == 0:
                return Ptr(p.base, p.off, p.cls, z3.simplify(idx + cnt.arg(1) * (cnt.arg(0).as_long() // st)), p.local)
            if size == 1:
                q = z3.simplify(cnt / st)
                self.prove(S, cnt % st == 0, 'array.aligned', kind='safety')
                return Ptr(p.base, p.off, p.cls, z3.simplify(idx + q), p.local)
            raise Unsupported('array gep size %s stride %s' % (size, st))
        if z3.is_int_value(cnt):
            return Ptr(p.base, p.off + cnt.as_long() * size, p.cls, p.idx, p.local)
        raise Unsupported('symbolic offset into %s' % (p.cls,))

    def gep(self, ety, ops, S=None):
        p = ops[0][1]
        if isinstance(p, Fn):
            raise Unsupported('gep fn')
        if p is NULL or (isinstance(p, Ptr) and z3.is_int_value(p.base) and p.base.as_long() == 0 and p.local is None):
            p = Ptr(z3.IntVal(0), 0, p.cls)

        def sidx(t, v):
            if isinstance(v, Diff):
                raise Unsupported('diff idx')
            return self.sgn_simpl(S, v, bits(t))
        p = self.padd(S, p, sidx(*ops[1]), self.mod.sizealign(ety)[0])
        ty = ety
        for t, v in ops[2:]:
            ty = self.mod.resolve(ty)
            if ty[0] in ('struct', 'pstruct'):
                off, ty = self.mod.field(ty, v.as_long())
                p = self.padd(S, p, z3.IntVal(off), 1) if off else p
            elif ty[0] == 'arr':
                ty = ty[2]
                p = self.padd(S, p, sidx(t, v), self.mod.sizealign(ty)[0])
            else:
                raise Unsupported('gep into %r' % (ty,))
        return p

    def sgn_simpl(self, S, x, n):
        if z3.is_int_value(x):
            return self.sgn(x, n)
        if S is not None and self.quick(S, z3.And(x >= 0, x < (1 << (n - 1)))):
            return x
        if S is not None and self.quick(S, x >= (1 << (n - 1))):
            return x - (1 << n)
        return self.sgn(x, n)

    def layout(self, p):
        c = self.spec.classes.get(p.cls)
        if c is None:
            return None
        return c.fields.get(p.off)

    def check_access(self, S, p, what):
        if p.local is not None:
            return
        if p.cls is None:
            if z3.is_int_value(p.base) and p.base.as_long() == 0:
                self.prove(S, z3.BoolVal(False), 'nonnull(%s)' % what, self.cur_loc, 'safety')
                raise PathEnd()
            raise Unsupported('%s through a pointer of unknown class: %r at %s' % (what, p, self.cur_loc))
        if not p.cls.startswith('G:'):
            if not (S.nn.get(p.base.get_id()) if hasattr(S, 'nn') else False):
                self.prove(S, p.base != 0, 'nonnull(%s %s+%s)' % (what, p.cls, p.off), self.cur_loc, 'safety')
                self.assume(S, p.base != 0)
        if p.idx is not None:
            lim = self.spec.array_bound(self, S, p)
            if lim is not None:
                lo, hi = lim
                self.prove(S, z3.And(p.idx >= lo, p.idx < hi), 'bounds(%s %s)' % (what, p.cls), self.cur_loc, 'safety')
        self.spec.on_access(self, S, p, what)

    def load(self, S, p, ty, order=None):
        if isinstance(p, Fn):
            raise Unsupported('load from fn')
        if p.cls is not None and p.cls.startswith('G:') and p.local is None:
            r = self.spec.load_global(self, S, p, ty)
            if r is not None:
                return r
        self.check_access(S, p, 'load')
        h = self.spec.shared_load(self, S, p, ty, order)
        if h is not None:
            return h
        return self.raw_load(S, p, ty)

    def raw_load(self, S, p, ty):
        cls = self.spec.classes.get(p.cls)
        if cls is not None and cls.arr and p.idx is None:
            p = Ptr(p.base, p.off, p.cls, z3.IntVal(0), p.local)
        if p.local is not None and p.idx is None:
            k = (p.local, p.off)
            if k not in S.locals:
                v = self.fresh_val(ty, 'uninit')
                S.locals[k] = (ty, v)
                return v
            t, v = S.locals[k]
            if t != ty:
                if t == 'i8' and ty == 'i1' or t == 'i1' and ty == 'i8':
                    raise Unsupported('bool punning')
                return self.pun(S, p, t, v, ty)
            return v
        if isinstance(ty, tuple) or (isinstance(ty, str) and ty[0] == '%'):
            t = self.mod.resolve(ty)
            if t[0] == 'struct':
                out = []
                for k in range(len(t[1])):
                    off, e = self.mod.field(t, k)
                    out.append(self.raw_load(S, self.padd(S, p, z3.IntVal(off), 1), e))
                return out
            raise Unsupported('load %r' % (ty,))
        key = key_of(p, ty)
        lay = self.layout(p)

        def sel(k):
            if p.idx is not None:
                return z3.Select(z3.Select(S.get(k), p.base), p.idx)
            return z3.Select(S.get(k), p.base)
        if ty == 'ptr':
            if lay is None:
                lay = self.spec.default_layout(p)
            if isinstance(lay, To):
                b = sel(key)
                if lay.idx:
                    return Ptr(b, 0, lay.cls, sel((p.cls, p.off, 'ix') + (('A',) if p.idx is not None else ())))
                return Ptr(b, 0, lay.cls, None)
            if isinstance(lay, Interior):
                b = sel(key)
                code = sel((p.cls, p.off, 'code') + (('A',) if p.idx is not None else ()))
                alts = []
                for k, (c, o) in enumerate(lay.alts):
                    alts.append((z3.And(code == k, b != 0), Ptr(b, o, c)))
                alts.append((b == 0, NULL))
                return self.choose(S, alts, 'interior pointer kind')
            if isinstance(lay, ToFn):
                return Ptr(sel(key), 0, 'vtable:%s' % p.cls)
            # unknown pointee class: may be compared / copied, not dereferenced
            return Ptr(sel(key), 0, None)
        if ty in ('float', 'double'):
            return fresh('fp', z3.RealSort())
        n = bits(ty)
        v = sel(key)
        if n == 1:
            return v != 0
        self.assume(S, z3.And(v >= 0, v < (1 << n)))
        return v

    def pun(self, S, p, t, v, ty):
        raise Unsupported('load of %s cell as %s' % (t, ty))

    def choose(self, S, alts, what):
        """Case split on a value; all but the first feasible alternative are queued."""
        feas = [(c, v) for c, v in alts if self.feasible(S, c)]
        self.prove(S, z3.Or(*[c for c, _ in alts]), what, self.cur_loc, 'safety')
        if not feas:
            raise PathEnd()
        if len(feas) == 1:
            self.assume(S, feas[0][0])
            return feas[0][1]
        raise Split(feas)

    def store(self, S, p, ty, v, order=None):
        if isinstance(p, Fn):
            raise Unsupported('store to fn')
        self.check_access(S, p, 'store')
        if p.local is None and self.spec.shared_store(self, S, p, ty, v, order):
            return
        self.raw_store(S, p, ty, v)

    def raw_store(self, S, p, ty, v):
        cls = self.spec.classes.get(p.cls)
        if cls is not None and cls.arr and p.idx is None:
            p = Ptr(p.base, p.off, p.cls, z3.IntVal(0), p.local)
        if isinstance(v, list):
            t = self.mod.resolve(ty)
            for k, x in enumerate(v):
                off, e = self.mod.field(t, k)
                self.raw_store(S, self.padd(S, p, z3.IntVal(off), 1), e, x)
            return
        if p.local is not None and p.idx is None:
            S.locals[(p.local, p.off)] = (ty, v)
            return
        key = key_of(p, ty)

        def put(k, x):
            if p.idx is not None:
                a = S.get(k)
                S.set(k, z3.Store(a, p.base, z3.Store(z3.Select(a, p.base), p.idx, x)))
            else:
                S.set(k, z3.Store(S.get(k), p.base, x))
        self.touched.add(key)
        if ty == 'ptr':
            lay = self.layout(p)
            if lay is None:
                lay = self.spec.default_layout(p)
            if isinstance(v, Fn):
                put(key, z3.Int('FN_' + v.name))
                return
            isnull = z3.is_int_value(v.base) and v.base.as_long() == 0 and v.local is None
            if isinstance(lay, To):
                if isnull:
                    put(key, z3.IntVal(0))
                    return
                if lay.idx:
                    ik = (p.cls, p.off, 'ix') + (('A',) if p.idx is not None else ())
                    self.touched.add(ik)
                    if v.off != 0 or v.cls != lay.cls:
                        raise Unsupported('pointer %r stored to %r' % (v, p))
                    put(key, v.base)
                    put(ik, v.idx if v.idx is not None else z3.IntVal(0))
                    return
                if v.off != 0 or (v.idx is not None and not z3.is_true(z3.simplify(v.idx == 0))):
                    raise Unsupported('interior pointer %r stored to %r' % (v, p))
                if v.cls != lay.cls and v.cls is not None:
                    raise Unsupported('class %s stored to a cell of %s' % (v.cls, lay.cls))
                put(key, v.base)
                return
            if isinstance(lay, Interior):
                ck = (p.cls, p.off, 'code') + (('A',) if p.idx is not None else ())
                self.touched.add(ck)
                if isnull:
                    put(key, z3.IntVal(0))
                    return
                for k, (c, o) in enumerate(lay.alts):
                    if c == v.cls and o == v.off:
                        put(key, v.base)
                        put(ck, z3.IntVal(k))
                        return
                raise Unsupported('pointer %r stored to interior cell %r' % (v, p))
            if isnull:
                put(key, z3.IntVal(0))
                return
            put(key, v.base)
            return
        if ty in ('float', 'double'):
            return
        n = bits(ty)
        if isinstance(v, (P2I,)):
            raise Unsupported('store of ptrtoint')
        if isinstance(v, Diff):
            v = self.undiff(S, v, n)
        if n == 1:
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        put(key, v)

    def fresh_val(self, ty, name, cls=None):
        if ty == 'ptr':
            return Ptr(fresh(name), 0, cls)
        if ty == 'i1':
            return fresh(name, B)
        if ty in ('float', 'double', 'x86_fp80'):
            return fresh(name, z3.RealSort())
        if isinstance(ty, tuple) or ty[0] == '%':
            t = self.mod.resolve(ty)
            if t[0] == 'struct':
                return [self.fresh_val(e, name) for e in t[1]]
            raise Unsupported('fresh %r' % (ty,))
        return fresh(name)

    def rng(self, S, ty, v):
        if isinstance(ty, str) and ty[0] == 'i' and ty != 'i1' and isinstance(v, z3.ExprRef):
            self.assume(S, z3.And(v >= 0, v < (1 << bits(ty))))

    # -- execution ---------------------------------------------------------------------
    def verify(self, fname, contract):
        """Generate and discharge all obligations of one function."""
        self.fn_label = contract.label or fname
        f = self.mod.func(fname)
        loops = self.find_loops(f)
        hdrs = [h for h in f.order if h in loops]
        cand = self.loop_assignments(f, hdrs, loops, contract)
        best = None
        for n, asg in enumerate(cand):
            last = n == len(cand) - 1
            self.obls = []
            self.returns = 0
            # the mapping by the names of the variables is worth the full effort
            full = n == 0 and all(d is None or d.strip('%').lower().startswith(r.lower()) for _, m in asg.values() for r, d in m.items())
            self.quiet = len(cand) > 1 and not full
            ok = True
            try:
                self.run_once(fname, f, contract, loops, asg)
            except PathEnd:
                ok = False
            except Exception:
                # another assignment of the loop variables may not even be well-formed
                if n == 0:
                    raise
                ok = False
            ok = ok and all(o.status == 'ok' for o in self.obls)
            if ok:
                return self.obls
            if full:
                best = (self.obls, self.returns)
        if best is not None:
            self.obls, self.returns = best
        elif len(cand) > 1:
            # report with the preferred mapping
            self.obls = []
            self.quiet = False
            self.returns = 0
            self.run_once(fname, f, contract, loops, cand[0])
        return self.obls

    def run_once(self, fname, f, contract, loops, asg):
        self.new_solver()
        self.touched = set()
        self.cur_loc = None
        init = {}
        S = State(init)
        S.nn = {}
        fr = {}
        args = {}
        if len(f.params) != len(contract.params):
            raise Unsupported('%s: parameter count changed' % fname)
        for (ty, nm), (pn, pc) in zip(f.params, contract.params):
            if ty == 'ptr':
                v = contract.param_value(self, pn, pc)
                if v is None:
                    if isinstance(pc, tuple):   # ('cls', off)
                        v = Ptr(z3.Int('p_' + pn), pc[1], pc[0])
                    else:
                        v = Ptr(z3.Int('p_' + pn), 0, pc)
                        if pc in self.spec.classes and self.spec.classes[pc].arr:
                            v.idx = z3.Int('p_' + pn + '_idx')
            elif ty == 'i1':
                v = z3.Bool('p_' + pn)
            else:
                v = self.fresh_named(ty, 'p_' + pn)
                self.rng(S, ty, v)
            fr[nm] = v
            args[pn] = v
        self.contract = contract
        E = Env(self, args, None, S, {})
        E.g = contract.ghosts(E)
        self.spec.init_state(self, S)
        S0 = S.clone()
        S0.nn = {}
        E.S0 = S0
        E.S = S
        for lab, fm in contract.pre(E):
            self.assume(S, fm)
        # vacuity: the precondition must not be contradictory
        self.solver.set('timeout', 1500)
        if self.solver.check() == z3.unsat:
            self.obls.append(Obl(self.fn_label, 'precondition is satisfiable', None, 'failed', 0, 'z3', 'vacuous precondition', 'vacuity'))
            return
        S0.mem = dict(S.mem)
        S0.ghost = dict(S.ghost)
        self.act = []
        self.loop_info = loops
        self.asg = asg
        self.contract = contract
        self.topE = E
        self.paths = 0
        ctx = Ctx(f, fr, None, loops, asg, E, contract, None)
        self.run_from(ctx, S, f.order[0], None, 0)
        if self.returns == 0 and not contract.noreturn:
            self.obls.append(Obl(self.fn_label, 'some path returns', None, 'failed', 0, 'z3', 'no feasible path reaches a return', 'vacuity'))

    def fresh_named(self, ty, nm):
        if ty in ('float', 'double'):
            return z3.Real(nm)
        if isinstance(ty, tuple) or ty[0] == '%':
            raise Unsupported('aggregate parameter')
        return z3.Int(nm)

    def find_loops(self, f):
        """natural loops: header -> set of blocks"""
        succ = {b: self.succs(f.blocks[b]) for b in f.order}
        # dominators (simple iterative)
        doms = {b: set(f.order) for b in f.order}
        e = f.order[0]
        doms[e] = {e}
        preds = {b: [] for b in f.order}
        for b in f.order:
            for s in succ[b]:
                preds[s].append(b)
        ch = True
        while ch:
            ch = False
            for b in f.order[1:]:
                ps = [doms[p] for p in preds[b]]
                nd = (set.intersection(*ps) if ps else set()) | {b}
                if nd != doms[b]:
                    doms[b] = nd
                    ch = True
        loops = {}
        for b in f.order:
            for s in succ[b]:
                if s in doms[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        return loops

    def succs(self, b):
        t = b.term
        if t.op == 'br':
            return [t.args[0]] if len(t.args) == 1 else [t.args[1], t.args[2]]
        if t.op == 'switch':
            return [t.args[1]] + [c[1] for c in t.args[2]]
        return []

    def phis(self, f, h):
        return [i for i in f.blocks[h].instrs if i.op == 'phi']

    def loop_assignments(self, f, hdrs, loops, contract):
        """All ways to attach the contract's loop annotations (and their roles) to
        the function's loops, most plausible first."""
        anns = contract.loops
        if not hdrs:
            return [{}]
        if not anns:
            raise Unsupported('%s has a loop without invariant' % f.name)
        per = []
        for k, h in enumerate(hdrs):
            phis = self.phis(f, h)
            opts = []
            order = ([anns[k]] if k < len(anns) else []) + [a for j, a in enumerate(anns) if j != k]
            if getattr(contract, 'loops_in_order', False) and k < len(anns):
                order = [anns[k]]
            for a in order:
                roles = list(a.roles.items())
                for m in self.role_maps(roles, phis):
                    opts.append((a, m))
            if not opts:
                # no mapping fits: let the annotation see no roles at all
                opts.append((None, {}))
            per.append((h, opts))
        # choose independently: try product but bounded
        res = []
        for combo in itertools.islice(itertools.product(*[o for _, o in per]), 40):
            res.append({h: c for (h, _), c in zip(per, combo)})
        res = [r for r in res if all(c[0] is not None for c in r.values())]
        if not res:
            raise Unsupported('%s: no loop annotation fits the loops' % f.name)
        return res

    def role_maps(self, roles, phis):
        """injective maps role -> phi dst with matching type; name-similar first"""
        def score(role, dst):
            d = dst.strip('%').lower()
            rn = role.lower()
            return 0 if (d.startswith(rn)) else 1
        out = []
        pools = []
        for rn, ty in roles:
            opt = rn.endswith('?')
            c = [p.dst for p in phis if p.args[0] == ty]
            if not c and ty[0] == 'i':
                # the same quantity held in a variable of another width
                c = [p.dst for p in phis if p.args[0] in ('i8', 'i16', 'i32', 'i64')]
            c.sort(key=lambda d: score(rn.rstrip('?'), d))
            if opt:
                c = c + [None]
            pools.append(c)
        for combo in itertools.product(*pools):
            used = [c for c in combo if c is not None]
            if len(set(used)) == len(used):
                out.append({rn.rstrip('?'): c for (rn, _), c in zip(roles, combo)})
        out.sort(key=lambda m: sum(score(r, c) for r, c in m.items() if c))
        return out[:24]

    def run_from(self, ctx, S, block, prev, idx):
        """Execute from instruction idx of block; explores all paths (DFS)."""
        work = [(ctx, S, block, prev, idx)]
        while work:
            ctx, S, block, prev, idx = work.pop()
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            self.resync(S)
            try:
                while S.pending:
                    S.pending.pop(0)(self, S)
                work.extend(self.run_path(ctx, S, block, prev, idx))
            except PathEnd as e:
                if self.quiet and str(e) == 'fail-fast':
                    raise

    def resync(self, S):
        """Rebuild the incremental solver for a state's path condition."""
        self.new_solver()
        for c in S.pc:
            self.solver.add(c)

    def run_path(self, ctx, S, block, prev, idx):
        """Run one straight path; returns the list of forks."""
        while True:
            b = ctx.f.blocks[block]
            if idx == 0:
                if self.leaves(ctx, S, block):
                    return []
                if block in ctx.loops and not (ctx.cut == (block, 'in')):
                    r = self.at_loop_header(ctx, S, block, prev)
                    if r is None:
                        return []
                    ctx = r
                elif ctx.cut != (block, 'in') and any(i.op == 'phi' for i in b.instrs):
                    self.do_phis(ctx, S, b, prev)
            while idx < len(b.instrs):
                ins = b.instrs[idx]
                if ins.op == 'phi':
                    idx += 1
                    continue
                self.cur_loc = self.mod.loc(ins.dbg) or self.cur_loc
                if ins.op == 'br' and len(ins.args) == 1:
                    prev, block, idx = block, ins.args[0], 0
                    ctx.cut = None
                    break
                if ins.op == 'br':
                    c = self.val(ctx.fr, 'i1', ins.args[0][1])
                    t = self.feasible(S, c)
                    f_ = self.feasible(S, z3.Not(c))
                    if t and f_:
                        S2 = S.clone()
                        S2.nn = dict(S.nn)
                        S2.pc.append(z3.Not(c))
                        c2 = ctx.clone()
                        c2.cut = None
                        forks = [(c2, S2, ins.args[2], block, 0)]
                        self.assume(S, c)
                        ctx.cut = None
                        # run the true branch as another work item too
                        forks.append((ctx, S, ins.args[1], block, 0))
                        return forks
                    if not t and not f_:
                        return []
                    self.assume(S, c if t else z3.Not(c))
                    prev, block, idx = block, (ins.args[1] if t else ins.args[2]), 0
                    ctx.cut = None
                    break
                if ins.op == 'switch':
                    (ty, v), dflt, cases = ins.args
                    x = self.val(ctx.fr, ty, v)
                    forks = []
                    if ty == 'i1':
                        conds = [(x if c & 1 else z3.Not(x), tgt) for c, tgt in cases]
                    else:
                        n = bits(ty)
                        conds = [(x == (c % (1 << n)), tgt) for c, tgt in cases]
                    conds.append((z3.Not(z3.Or(*[c for c, _ in conds])) if conds else z3.BoolVal(True), dflt))
                    for c, tgt in conds:
                        if self.feasible(S, c):
                            S2 = S.clone()
                            S2.nn = dict(S.nn)
                            S2.pc.append(c)
                            c2 = ctx.clone()
                            c2.cut = None
                            forks.append((c2, S2, tgt, block, 0))
                    return forks
                if ins.op == 'ret':
                    rv = None
                    if ins.args[0] is not None:
                        rv = self.val(ctx.fr, *ins.args[0])
                    if ctx.parent is None:
                        self.at_return(ctx, S, rv)
                        return []
                    par, pblock, pprev, pidx, pins = ctx.parent
                    ctx = par.clone()
                    if pins.dst:
                        ctx.fr[pins.dst] = rv
                    block, prev, idx = pblock, pprev, pidx + 1
                    b = ctx.f.blocks[block]
                    ctx.cut = None
                    if idx >= len(b.instrs):
                        raise Unsupported('call at block end')
                    # continue in caller's block without re-running the header
                    ctx.resume = True
                    break
                if ins.op == 'unreachable':
                    self.spec.on_unreachable(self, S, ctx)
                    return []
                if ins.op == 'call':
                    try:
                        r = self.do_call(ctx, S, block, prev, idx, ins)
                    except Split as sp:
                        return self.fork_split(ctx, S, block, prev, idx, ins, sp)
                    if r is not None:
                        ctx, block, prev, idx = r
                        break
                    idx += 1
                    continue
                try:
                    self.step(ctx.fr, S, ins, ctx)
                except Split as sp:
                    return self.fork_split(ctx, S, block, prev, idx, ins, sp)
                idx += 1
            else:
                raise Unsupported('block without terminator')
            if getattr(ctx, 'resume', False):
                ctx.resume = False
                # jump into the middle of a block
                forks = self.resume_block(ctx, S, block, prev, idx)
                return forks

    def leaves(self, ctx, S, block):
        return False

    def resume_block(self, ctx, S, block, prev, idx):
        return [(ctx, S, block, prev, idx)]

    def fork_split(self, ctx, S, block, prev, idx, ins, sp):
        forks = []
        for cond, v in sp.alts:
            S2 = S.clone()
            S2.nn = dict(S.nn)
            if cond is not None:
                S2.pc.append(cond)
            if sp.apply is not None:
                c2 = ctx.clone()
                c2.cut = ctx.cut
                sp.apply(c2, S2, v)
                forks.append((c2, S2, block, prev, idx + 1))
                continue
            c2 = ctx.clone()
            if ins.dst:
                c2.fr[ins.dst] = v
            forks.append((c2, S2, block, prev, idx + 1))
        return forks

    def do_phis(self, ctx, S, b, prev):
        new = {}
        for i in b.instrs:
            if i.op != 'phi':
                break
            ty, inc = i.args
            for v, src in inc:
                if src == prev:
                    new[i.dst] = self.val(ctx.fr, ty, v)
                    break
            else:
                raise Unsupported('phi without edge')
        ctx.fr.update(new)

    # -- loops -------------------------------------------------------------------------
    def at_loop_header(self, ctx, S, h, prev):
        b = ctx.f.blocks[h]
        body = ctx.loops[h]
        a, roles = ctx.asg[h]
        inside = prev in body
        newphi = {}
        for i in b.instrs:
            if i.op != 'phi':
                break
            ty, inc = i.args
            for v, src in inc:
                if src == prev:
                    newphi[i.dst] = (ty, self.val(ctx.fr, ty, v))
        key = (id(ctx.f), h, ctx.depth)
        if not inside:
            rec = Env(self, ctx.E.a, ctx.E.S0, S, ctx.E.g)
            rec.L = S.clone()
            rec.phi0 = {k: v for k, (t, v) in newphi.items()}
        else:
            rec0 = ctx.loopenv[h]
            rec = Env(self, ctx.E.a, ctx.E.S0, S, ctx.E.g)
            rec.L = rec0.L
            rec.phi0 = rec0.phi0
        rec.ctx = ctx
        rec.r = {rn: (newphi[d][1] if d else None) for rn, d in roles.items()}
        rec.r0 = {rn: (rec.phi0[d] if d else None) for rn, d in roles.items()}
        rec.entering = not inside
        rec.phis = {k: v for k, (t, v) in newphi.items()}
        if inside and not isinstance(self, _DryExec):
            for k, ex_ in self.loop_frames(ctx, S, h):
                x = fresh('frame_x')
                self.prove(S, z3.Implies(conj([x != z for z in ex_]),
                                         z3.Select(S.get(k), x) == z3.Select(rec.L.get(k), x)),
                           'loop assigns %s' % (k,), self.cur_loc, 'frame')
        for lab, fm in a.inv(rec):
            self.prove(S, fm, 'loop %s: %s' % ('entry' if not inside else 'preserved', lab),
                       self.cur_loc, 'invariant')
        if inside:
            if a.variant is not None:
                v1 = a.variant(rec)
                v0 = ctx.loopenv[h].variant0
                self.prove(S, z3.And(v0 >= 0, v1 < v0), 'loop variant decreases', self.cur_loc, 'variant')
            return None
        # cut: havoc
        c2 = ctx.clone()
        for i in b.instrs:
            if i.op != 'phi':
                break
            ty, v = newphi[i.dst]
            if ty == 'ptr':
                cls = v.cls
                off = v.off
                for vv, src in i.args[1]:
                    pass
                if cls is None:
                    cls = self.phi_class(ctx, i, a, roles)
                nv = Ptr(fresh('phi_' + i.dst.strip('%')), off, cls, None)
                ac = self.spec.classes.get(cls)
                if ac is not None and ac.arr:
                    nv.idx = fresh('phii_' + i.dst.strip('%'))
                if a.cls:
                    for rn, d in roles.items():
                        if d == i.dst and rn in a.cls:
                            nv.cls = a.cls[rn]
            else:
                nv = self.fresh_val(ty, 'phi_' + i.dst.strip('%'))
                self.rng(S, ty, nv)
            c2.fr[i.dst] = nv
        for k in self.loop_writes(ctx, S, h):
            if k[0] == 'local':
                if k[1] not in S.locals:
                    continue          # first written inside of the loop
                t, old = S.locals[k[1]]
                nv = self.fresh_val(t, 'lcl', getattr(old, 'cls', None))
                if isinstance(old, Ptr):
                    nv.off = old.off
                    if old.idx is not None:
                        nv.idx = fresh('lcli')
                self.rng(S, t, nv)
                S.locals[k[1]] = (t, nv)
            elif k[0] == 'ghost':
                S.ghost[k[1]] = fresh('gh_' + k[1], S.ghost[k[1]].sort())
            else:
                old = S.get(k)
                S.havoc(k)
                for k2, ex_ in self.loop_frames(ctx, S, h):
                    if k2 == k:
                        new = old
                        for bb in ex_:
                            new = z3.Store(new, bb, z3.Select(S.get(k), bb))
                        S.set(k, new)
        for gname in a.havoc_ghost:
            if gname in S.ghost:
                S.ghost[gname] = fresh('gh_' + gname, S.ghost[gname].sort())
        S.nn = {}
        rec2 = Env(self, ctx.E.a, ctx.E.S0, S, ctx.E.g)
        rec2.L = rec.L
        rec2.phi0 = rec.phi0
        rec2.ctx = c2
        rec2.r = {rn: (c2.fr[d] if d else None) for rn, d in roles.items()}
        rec2.r0 = rec.r0
        rec2.entering = False
        rec2.phis = {k: c2.fr[k] for k in newphi}
        for lab, fm in a.inv(rec2):
            self.assume(S, fm)
        rec2.variant0 = a.variant(rec2) if a.variant is not None else None
        c2.loopenv = dict(ctx.loopenv)
        c2.loopenv[h] = rec2
        c2.cut = (h, 'in')
        return c2

    def loop_frames(self, ctx, S, h):
        """cells the loop may write only at the bases the contract lists"""
        ks = self.loop_writes(ctx, S, h)
        mods = self.contract.modifies(self.topE)
        return [(k, mods[k]) for k in ks if mods is not None and k in mods and mods[k] is not None]

    def phi_class(self, ctx, i, a, roles):
        # initial value is null: take the class from the annotation
        for rn, d in roles.items():
            if d == i.dst and rn in a.cls:
                return a.cls[rn]
        return self.spec.null_phi_class(ctx.f.name, i.dst)

    def loop_writes(self, ctx, S, h):
        """Over-approximate the memory the loop body writes: a dry run over the body
        with everything unknown is replaced by the set of all keys ever written by
        stores in the loop, found by iterating the body symbolically."""
        ks = ctx.writes.get(h)
        if ks is None:
            ks = self.dry_run(ctx, S, h)
            ctx.writes[h] = ks
        return ks

    def dry_run(self, ctx, S, h):
        """Discover the keys written in the loop: execute one iteration from a fully
        havocked state without proving anything, collecting written keys to a fixpoint."""
        written = set()
        saved = (self.solver, self.obls, self.touched, self.paths, self.returns, self.quiet, self.cur_loc)
        for _ in range(6):
            rec = DryRun(self)
            new = rec.run(ctx, S, h, written)
            if new <= written:
                break
            written |= new
        (self.solver, self.obls, self.touched, self.paths, self.returns, self.quiet, self.cur_loc) = saved
        return sorted(written, key=repr)

    # -- returns -----------------------------------------------------------------------
    def at_return(self, ctx, S, rv):
        self.returns += 1
        E = Env(self, ctx.E.a, ctx.E.S0, S, ctx.E.g, rv)
        c = self.contract
        if c.ret and isinstance(rv, Ptr) and rv.cls is None:
            rv.cls = c.ret if isinstance(c.ret, str) else c.ret[0]
        self.spec.pre_return(self, E)
        for lab, fm in c.post(E):
            self.prove(S, fm, 'ensures ' + lab, self.cur_loc, 'post')
        mods = c.modifies(E)
        if mods is not None:
            for k, v in sorted(S.mem.items(), key=lambda kv: repr(kv[0])):
                old = E.S0.mem.get(k)
                if old is None:
                    old = S.init[k]
                if v is old or v.eq(old):
                    continue
                if k in mods and mods[k] is None:
                    continue
                if self.spec.frame_exempt(k):
                    continue
                x = fresh('frame_x')
                ex = mods.get(k, [])
                conds = [x != z for z in ex] + self.spec.frame_domain(self, E, k, x)
                self.prove(S, z3.Implies(conj(conds), z3.Select(v, x) == z3.Select(old, x)),
                           'assigns %s' % (k,), self.cur_loc, 'frame')

    # -- instructions ------------------------------------------------------------------
    def step(self, fr, S, ins, ctx):
        op = ins.op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            ty, a, b = ins.args
            fr[ins.dst] = self.binop(S, op, ty, self.val(fr, ty, a), self.val(fr, ty, b))
        elif op == 'icmp':
            ty, a, b = ins.args
            fr[ins.dst] = self.icmp(S, ins.extra, ty, self.val(fr, ty, a), self.val(fr, ty, b))
        elif op == 'fcmp':
            fr[ins.dst] = fresh('fcmp', B)
        elif op in ('zext', 'sext', 'trunc'):
            ty, a, t2 = ins.args
            v = self.val(fr, ty, a)
            if isinstance(v, P2I):
                raise Unsupported('cast of ptrtoint')
            if isinstance(v, Diff):
                v = self.undiff(S, v, bits(ty))
            if op == 'zext':
                fr[ins.dst] = z3.If(v, z3.IntVal(1), z3.IntVal(0)) if ty == 'i1' else v
            elif op == 'sext':
                n2 = bits(t2)
                if ty == 'i1':
                    fr[ins.dst] = z3.If(v, z3.IntVal((1 << n2) - 1), z3.IntVal(0))
                else:
                    n = bits(ty)
                    if self.quick(S, v < (1 << (n - 1))):
                        fr[ins.dst] = v
                    else:
                        fr[ins.dst] = z3.If(v >= (1 << (n - 1)), v + ((1 << n2) - (1 << n)), v)
            else:
                if t2 == 'i1':
                    fr[ins.dst] = (v % 2) != 0
                else:
                    n2 = bits(t2)
                    if self.quick(S, v < (1 << n2)):
                        fr[ins.dst] = v
                    else:
                        fr[ins.dst] = v % (1 << n2)
        elif op in ('fptoui', 'fptosi'):
            x = self.fresh_val(ins.args[2], 'fp2i')
            self.rng(S, ins.args[2], x)
            fr[ins.dst] = x
        elif op in ('uitofp', 'sitofp', 'fpext', 'fptrunc', 'fneg'):
            fr[ins.dst] = fresh('fp', z3.RealSort())
        elif op == 'ptrtoint':
            v = self.val(fr, 'ptr', ins.args[1])
            fr[ins.dst] = P2I(v)
        elif op == 'inttoptr':
            v = self.val(fr, ins.args[0], ins.args[1])
            if isinstance(v, P2I):
                fr[ins.dst] = v.p
            elif z3.is_int_value(v) and v.as_long() == 0:
                fr[ins.dst] = NULL
            else:
                fr[ins.dst] = self.spec.inttoptr(self, S, v)
        elif op in ('bitcast', 'freeze'):
            fr[ins.dst] = self.val(fr, ins.args[0], ins.args[1])
        elif op == 'select':
            (ct, c), (ty, a), (_, b) = ins.args
            cv = self.val(fr, ct, c)
            av, bv = self.val(fr, ty, a), self.val(fr, ty, b)
            if isinstance(av, z3.ExprRef) and isinstance(bv, z3.ExprRef):
                fr[ins.dst] = z3.If(cv, av, bv)
            else:
                raise Split([(x, y) for x, y in ((cv, av), (z3.Not(cv), bv)) if self.feasible(S, x)])
        elif op == 'alloca':
            ty, cnt = ins.args
            nm = '%s%s@%d' % (ctx.f.name[-24:], ins.dst, ctx.depth)
            rt = self.mod.resolve(ty) if not isinstance(ty, str) or ty[0] == '%' else ty
            base = z3.Int('L_' + nm)
            cls = self.spec.alloca_class(ctx.f.name, ins.dst, ty)
            fr[ins.dst] = Ptr(base, 0, cls, None, nm)
            if cls is not None:
                # address-taken object handed to contracts: lives in the heap model
                fr[ins.dst].local = None
                self.assume(S, base != 0)
                for o in ctx.objs:
                    self.assume(S, base != o)
                ctx.objs.append(base)
                for e in self.spec.fresh_local(self, S, fr[ins.dst]):
                    self.assume(S, e)
            else:
                for pn in self.contract.params:
                    # A local object is not an object given by the caller.
                    if isinstance(pn[1], (str, tuple)):
                        self.assume(S, base != z3.Int('p_' + pn[0]))
                for k in [k for k in S.locals if k[0] == nm]:
                    del S.locals[k]
        elif op == 'load':
            ty, (pt, p) = ins.args
            pv = self.val(fr, pt, p)
            if self.ptr_cell(pv, ty):
                fr[ins.dst] = P2I(self.load(S, pv, 'ptr', ins.extra))
            else:
                fr[ins.dst] = self.load(S, pv, ty, ins.extra)
        elif op == 'store':
            (ty, v), (pt, p) = ins.args
            pv = self.val(fr, pt, p)
            vv = self.val(fr, ty, v)
            if self.ptr_cell(pv, ty):
                self.store(S, pv, 'ptr', self.i2p(vv), ins.extra)
            else:
                self.store(S, pv, ty, vv, ins.extra)
        elif op == 'getelementptr':
            ety, ops = ins.args
            ops = [(t, self.val(fr, t, v)) for t, v in ops]
            if isinstance(ops[0][1], Ptr) and ops[0][1].cls is not None and ops[0][1].cls.startswith('vtable:'):
                k = ops[1][1].as_long()
                p = ops[0][1]
                fr[ins.dst] = Ptr(p.base, p.off + k * self.mod.sizealign(ety)[0], p.cls)
            else:
                fr[ins.dst] = self.gep(ety, ops, S)
        elif op == 'extractvalue':
            (ty, v), idx = ins.args
            x = self.val(fr, ty, v)
            for k in idx:
                x = x[k]
            fr[ins.dst] = x
        elif op == 'insertvalue':
            (ty, v), (t2, e), idx = ins.args
            x = self.val(fr, ty, v)
            ev = self.val(fr, t2, e)

            def ins_(a, ix):
                a = list(a)
                a[ix[0]] = ev if len(ix) == 1 else ins_(a[ix[0]], ix[1:])
                return a
            fr[ins.dst] = ins_(x, idx)
        elif op == 'cmpxchg':
            (pt, p), (ty, c), (_, n) = ins.args
            pv = self.val(fr, pt, p)
            self.check_access(S, pv, 'cmpxchg')
            cv, nv = self.val(fr, ty, c), self.val(fr, ty, n)
            if self.ptr_cell(pv, ty):
                ty, cv, nv = 'ptr', self.i2p(cv), self.i2p(nv)
                ins = Instr(ins.op, ins.dst, ins.args, ins.dbg, ins.text, ins.extra)
                ins.as_int = True
            fr[ins.dst] = self.spec.shared_cmpxchg(self, S, pv, ty, cv, nv, ins.extra, ins)
        elif op == 'atomicrmw':
            (pt, p), (ty, v) = ins.args
            pv = self.val(fr, pt, p)
            self.check_access(S, pv, 'atomicrmw')
            vv = self.val(fr, ty, v)
            if self.ptr_cell(pv, ty):
                fr[ins.dst] = P2I(self.spec.shared_rmw(self, S, pv, 'ptr', ins.extra[0], self.i2p(vv), ins.extra[1]))
            else:
                fr[ins.dst] = self.spec.shared_rmw(self, S, pv, ty, ins.extra[0], vv, ins.extra[1])
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + op)

    # -- calls -------------------------------------------------------------------------
    def do_call(self, ctx, S, block, prev, idx, ins):
        rt, callee, args = ins.args
        fr = ctx.fr
        vals = [self.val(fr, t, v) for t, v in args]
        name = None
        if callee[0] == 'global':
            name = callee[1][1:]
        elif callee[0] == 'var':
            fv = fr[callee[1]]
            if isinstance(fv, Fn):
                name = fv.name
            else:
                r = self.spec.indirect_call(self, ctx, S, fv, vals, ins)
                if ins.dst:
                    fr[ins.dst] = r
                return None
        else:
            r = self.spec.inline_asm(self, S, callee, vals)
            if ins.dst:
                fr[ins.dst] = r
            return None
        h = self.spec.builtin(name)
        if h is not None:
            r = h(self, ctx, S, vals, ins)
            if ins.dst:
                fr[ins.dst] = r
            return None
        c = self.spec.contract_for(name)
        if c is not None and (c.modular or c.trusted):
            r = self.apply_contract(ctx, S, name, c, vals, rt)
            if ins.dst:
                fr[ins.dst] = r
            return None
        if name in self.mod.funcs:
            f = self.mod.func(name)
            if ctx.depth > 12:
                raise Unsupported('inlining depth at ' + name)
            loops = self.find_loops(f)
            asg = {}
            if loops:
                hd = [h for h in f.order if h in loops]
                ann = self.spec.inline_loops(name) or self.contract.loops
                k = 0
                c2 = type('C', (), {'loops': ann})
                cands = self.loop_assignments(f, hd, loops, c2)
                asg = cands[0]
            nfr = {}
            for (ty, nm), v in zip(f.params, vals):
                nfr[nm] = v
            nctx = Ctx(f, nfr, (ctx, block, prev, idx, ins), loops, asg, ctx.E, ctx.contract, ctx)
            nctx.depth = ctx.depth + 1
            return nctx, f.order[0], None, 0
        if name.startswith('llvm.'):
            r = self.intrinsic(S, name, vals, args)
            if ins.dst:
                fr[ins.dst] = r
            return None
        raise Unsupported('call of external %s (no contract)' % self.spec.dem(name))

    def intrinsic(self, S, name, v, args):
        if name == 'llvm.assume':
            self.assume(S, v[0])
            return None
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', name)
        if m:
            n = int(m.group(2))
            a, b = v
            x, y = (self.sgn(a, n), self.sgn(b, n)) if m.group(1)[0] == 's' else (a, b)
            return z3.If(x < y, a, b) if m.group(1)[1:] == 'min' else z3.If(x > y, a, b)
        if name.startswith('llvm.expect'):
            return v[0]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.spec.memcpy(self, S, v[0], v[1], v[2])
            return None
        if name.startswith('llvm.memset'):
            self.spec.memset(self, S, v[0], v[1], v[2])
            return None
        m = re.match(r'llvm\.bswap\.i(\d+)', name)
        if m:
            n = int(m.group(1))
            x = v[0]
            r = z3.IntVal(0)
            for k in range(n // 8):
                byte = (x / z3.IntVal(1 << (8 * k))) % 256
                r = r + byte * (1 << (n - 8 - 8 * k))
            return z3.simplify(r)
        m = re.match(r'llvm\.(abs)\.i(\d+)', name)
        if m:
            n = int(m.group(2))
            x = self.sgn(v[0], n)
            return self.wrap(S, z3.If(x < 0, -x, x), n)
        if name in ('llvm.trap', 'llvm.debugtrap'):
            self.prove(S, z3.BoolVal(False), 'no trap', self.cur_loc, 'safety')
            raise PathEnd()
        if name.startswith('llvm.stacksave') or name.startswith('llvm.stackrestore'):
            return NULL
        m = re.match(r'llvm\.usub\.sat\.i(\d+)', name)
        if m:
            return z3.If(v[0] > v[1], v[0] - v[1], z3.IntVal(0))
        m = re.match(r'llvm\.u(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            n = int(m.group(2))
            a, b = v
            s = {'add': a + b, 'sub': a - b, 'mul': a * b}[m.group(1)]
            return [self.wrap(S, s, n), z3.Or(s < 0, s >= (1 << n))]
        raise Unsupported('intrinsic ' + name)

    def apply_contract(self, ctx, S, name, c, vals, rt):
        args = {}
        if len(vals) != len(c.params):
            raise Unsupported('arity of ' + name)
        for (pn, pc), v in zip(c.params, vals):
            args[pn] = v
        pre = S.clone()
        E = Env(self, args, pre, S, {})
        E.g = c.call_ghost(E)
        E.ctx = ctx
        for lab, fm in c.pre(E):
            self.prove(S, fm, 'requires of %s: %s' % (c.short(), lab), self.cur_loc, 'call-pre')
        mods = c.modifies(E)
        if mods is None:
            raise Unsupported('contract without modifies used at a call')
        for k, bases in mods.items():
            old = S.get(k)
            S.havoc(k)
            self.touched.add(k)
            if bases is not None:
                new = old
                m = S.get(k)
                for bb in bases:
                    new = z3.Store(new, bb, z3.Select(m, bb))
                S.set(k, new)
        ret = None
        if rt != 'void':
            if rt == 'ptr':
                ret = c.ret_value(self, E)
                if ret is None:
                    ret = Ptr(fresh('ret_' + c.short()), 0, c.ret)
            else:
                ret = self.fresh_val(rt, 'ret_' + c.short())
                self.rng(S, rt, ret)
        E.ret = ret
        c.before_post(E)
        for lab, fm in c.post(E):
            self.assume(S, fm)
        c.after(E)
        if c.trusted:
            self.assumptions.add('assumed contract: ' + c.short())
        return E.ret


class Split(Exception):
    def __init__(self, alts, apply=None):
        self.alts = alts
        self.apply = apply


class Ctx:
    def __init__(self, f, fr, parent, loops, asg, E, contract, up):
        self.f = f
        self.fr = fr
        self.parent = parent
        self.loops = loops
        self.asg = asg
        self.E = E
        self.contract = contract
        self.loopenv = {}
        self.writes = {}
        self.cut = None
        self.depth = 0
        self.objs = [] if up is None else up.objs
        self.resume = False

    def clone(self):
        c = Ctx(self.f, dict(self.fr), self.parent, self.loops, self.asg, self.E, self.contract, None)
        c.loopenv = dict(self.loopenv)
        c.writes = self.writes
        c.cut = self.cut
        c.depth = self.depth
        c.objs = list(self.objs)
        return c


class DryRun:
    """Collect what a loop body may write."""

    def __init__(self, ex):
        self.ex = ex

    def run(self, ctx, S, h, written):
        ex = self.ex
        S2 = S.clone()
        S2.nn = {}
        S2.pc = []
        keys0 = set(S2.mem)
        for k in written:
            if k[0] == 'local':
                t, old = S2.locals[k[1]]
                nv = ex.fresh_val(t, 'dry', getattr(old, 'cls', None))
                if isinstance(old, Ptr):
                    nv.off = old.off
                    if old.idx is not None:
                        nv.idx = fresh('dryi')
                S2.locals[k[1]] = (t, nv)
            elif k[0] == 'ghost':
                S2.ghost[k[1]] = fresh('dry', S2.ghost[k[1]].sort())
            else:
                S2.havoc(k)
        c2 = ctx.clone()
        b = ctx.f.blocks[h]
        a, roles = ctx.asg[h]
        for i in b.instrs:
            if i.op != 'phi':
                break
            ty = i.args[0]
            old = None
            for v, src in i.args[1]:
                if src not in ctx.loops[h]:
                    old = ex.val(ctx.fr, ty, v)
            nv = ex.fresh_val(ty, 'dry', getattr(old, 'cls', None))
            if isinstance(old, Ptr):
                nv.off = old.off
                if nv.cls is None:
                    nv.cls = ex.phi_class(ctx, i, a, roles)
                for rn, d in roles.items():
                    if d == i.dst and rn in a.cls:
                        nv.cls = a.cls[rn]
                ac = ex.spec.classes.get(nv.cls)
                if ac is not None and ac.arr:
                    nv.idx = fresh('dryi')
            c2.fr[i.dst] = nv
        c2.cut = (h, 'in')
        base_mem = dict(S2.mem)
        base_loc = dict(S2.locals)
        base_gh = dict(S2.ghost)
        found = set()
        dx = _DryExec(ex)
        ex_touched = ex.touched
        dx.touched = set()
        dx.loop = (ctx.f, h, ctx.depth)
        dx.found = found
        dx.base = (base_mem, base_loc, base_gh)
        dx.run_from(c2, S2, h, None, 0)
        found |= {k for k in dx.touched if k not in ()}
        return found


class _DryExec(Exec):
    """Executes without proving; every branch is considered feasible."""

    def __init__(self, ex):
        Exec.__init__(self, ex.mod, ex.spec, ex.timeout)
        self.contract = ex.contract
        self.topE = ex.topE
        self.maxpaths = 600
        self.solver = z3.Solver()
        self.cur_loc = None

    def assume(self, S, f):
        pass

    def quick(self, S, goal):
        return z3.is_true(z3.simplify(goal))

    def feasible(self, S, cond):
        return not z3.is_false(z3.simplify(cond))

    def prove(self, S, goal, label, loc=None, kind='post'):
        return

    def resync(self, S):
        pass

    def collect(self, S):
        bm, bl, bg = self.base
        for k, v in S.mem.items():
            old = bm.get(k)
            if old is None:
                old = S.init[k]
            if not v.eq(old):
                self.found.add(k)
        for k, v in S.locals.items():
            if k in bl and bl[k][1] is not v:
                self.found.add(('local', k))
        for k, v in S.ghost.items():
            if k in bg and not (v is bg[k]):
                self.found.add(('ghost', k))

    def at_loop_header(self, ctx, S, h, prev):
        if (ctx.f, h, ctx.depth) == self.loop and prev is not None:
            if prev in ctx.loops[h]:
                self.collect(S)
                return None
        b = ctx.f.blocks[h]
        if prev is not None and prev in ctx.loops[h]:
            self.collect(S)
            return None
        # nested loop: run its body once, then also leave
        self.do_phis(ctx, S, b, prev)
        a, roles = ctx.asg[h]
        c2 = ctx.clone()
        for i in b.instrs:
            if i.op != 'phi':
                break
            old = ctx.fr[i.dst]
            nv = self.fresh_val(i.args[0], 'dry', getattr(old, 'cls', None))
            if isinstance(old, Ptr):
                nv.off = old.off
                for rn, d in roles.items():
                    if d == i.dst and rn in a.cls:
                        nv.cls = a.cls[rn]
                ac = self.spec.classes.get(nv.cls)
                if ac is not None and ac.arr:
                    nv.idx = fresh('dryi')
            c2.fr[i.dst] = nv
        c2.cut = (h, 'in')
        return c2

    def run_path(self, ctx, S, block, prev, idx):
        try:
            return Exec.run_path(self, ctx, S, block, prev, idx)
        finally:
            self.collect(S)

    def leaves(self, ctx, S, block):
        f, h, d = self.loop
        if ctx.depth == d and ctx.f is f and block not in ctx.loops[h]:
            self.collect(S)
            return True
        return False

    def at_return(self, ctx, S, rv):
        self.collect(S)
