"""Base class of a specification module: classes/layout, contracts, hooks."""
import re

import z3

from .sym import (Contract, Loop, Cls, To, Interior, ToFn, Ptr, Fn, NULL, Unsupported, PathEnd, Split, Obl,
                  fresh, conj, I, B, ARR, ARR2, P2I, Diff, bits, Env, State, Exec)


class Con(Contract):
    """A contract bound to functions by a regex over the demangled name."""
    label = None
    noreturn = False
    modular = False      # True: callers use the contract; False: callers inline the body
    find = None

    def short(self):
        return self.label or self.name

    def param_value(self, ex, pn, pc):
        return None

    def ret_value(self, ex, E):
        return None

    def before_post(self, E):
        pass


class Spec:
    tu = None
    flags = ()
    classes = {}
    contracts = []
    allow_inline_contracts = ()

    def __init__(self):
        self.cache = {}
        self.mod = None
        self.consts = {}
        self.setup()

    def setup(self):
        pass

    def attach(self, mod):
        self.mod = mod
        self.cache = {}
        self.on_attach()

    def on_attach(self):
        pass

    def k(self, name):
        """layout constant exported by the instantiation TU"""
        return self.mod.const_int(name)

    def dem(self, n):
        return self.mod.dem.get(n, n) if self.mod is not None else n

    def match(self, dem):
        for c in self.contracts:
            if re.fullmatch(c.name, dem):
                return c
        return None

    def is_contract(self, n, dem):
        return self.match(dem) is not None

    def no_inline(self, n, dem):
        return False

    def contract_for(self, n):
        if n not in self.cache:
            self.cache[n] = self.match(self.dem(n))
        return self.cache[n]

    # hooks -----------------------------------------------------------------------------
    def init_state(self, ex, S):
        pass

    def pre_return(self, ex, E):
        pass

    def array_bound(self, ex, S, p):
        return None

    def on_access(self, ex, S, p, what):
        pass

    def load_global(self, ex, S, p, ty):
        return None

    def shared_load(self, ex, S, p, ty, order):
        return None

    def shared_store(self, ex, S, p, ty, v, order):
        return False

    def shared_cmpxchg(self, ex, S, p, ty, cmp, new, order, ins):
        old = ex.raw_load(S, p, ty)
        eq = ex.peq(old, cmp) if ty == 'ptr' else old == cmp
        alts = [(eq, True), (z3.Not(eq), False)]
        alts = [(c, v) for c, v in alts if ex.feasible(S, c)]

        def apply(c2, S2, v):
            if v:
                ex.raw_store(S2, p, ty, new)
            c2.fr[ins.dst] = [P2I(old) if getattr(ins, 'as_int', False) else old, z3.BoolVal(v)]
        raise Split(alts, apply)

    def shared_rmw(self, ex, S, p, ty, op, v, order):
        old = ex.raw_load(S, p, ty)
        if op == 'xchg':
            ex.raw_store(S, p, ty, v)
        elif op == 'add':
            ex.raw_store(S, p, ty, ex.binop(S, 'add', ty, old, v))
        elif op == 'sub':
            ex.raw_store(S, p, ty, ex.binop(S, 'sub', ty, old, v))
        elif op in ('and', 'or', 'xor'):
            ex.raw_store(S, p, ty, ex.binop(S, op, ty, old, v))
        else:
            raise Unsupported('atomicrmw ' + op)
        return old

    def default_layout(self, p):
        return None

    def indirect_call(self, ex, ctx, S, fv, vals, ins):
        raise Unsupported('indirect call')

    def inline_asm(self, ex, S, callee, vals):
        return None

    def inline_loops(self, name):
        return None

    def bitop(self, ex, S, op, n, a, b):
        """an own meaning for a bitwise operation on two unknown values"""
        return None

    def alloca_class(self, fn, dst, ty):
        return None

    def fresh_local(self, ex, S, p):
        return []

    def frame_exempt(self, k):
        return False

    def frame_domain(self, ex, E, k, x):
        """conditions under which x is an address the frame obligation is about"""
        return []

    def null_phi_class(self, fn, dst):
        return None

    def inttoptr(self, ex, S, v):
        raise Unsupported('inttoptr')

    def memcpy(self, ex, S, d, s, n):
        raise Unsupported('memcpy')

    def memset(self, ex, S, d, v, n):
        raise Unsupported('memset')

    def on_unreachable(self, ex, S, ctx):
        pass

    def alloc(self, ex, ctx, S, size, ins):
        raise Unsupported('operator new (no allocation model)')

    def free(self, ex, ctx, S, p):
        raise Unsupported('operator delete (no allocation model)')

    def builtin(self, name):
        d = self.dem(name)
        if d.startswith('mg::box::AssertS(') or d.startswith('mg::box::AssertF(') or name == '__assert_fail' \
                or d.startswith('std::__glibcxx_assert_fail') or d == 'std::__terminate()' or name == 'abort' \
                or name == '_ZSt9terminatev' or d.startswith('std::__throw_'):
            return self.b_assert
        if name in ('_Znwm', '_Znam'):
            return lambda ex, ctx, S, v, ins: self.alloc(ex, ctx, S, v[0], ins)
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            return lambda ex, ctx, S, v, ins: self.free(ex, ctx, S, v[0])
        return None

    def b_assert(self, ex, ctx, S, vals, ins):
        what = self.dem(ins.args[1][1][1:])
        ex.prove(S, z3.BoolVal(False), 'assertion unreachable (%s)' % what.split('(')[0], ex.cur_loc, 'assert')
        raise PathEnd()
