"""Parser for the textual LLVM 18 IR that clang produced from /repo's sources.

Only the subset that clang emits for this code base (after sroa/simplifycfg) is
accepted; anything else raises IRError for the function in question, lazily, so
that an unsupported function nobody verifies does no harm.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<lid>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<gid>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+e[+-]?\d+|-?\d+|0x[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        out.append((k, m.group(k)))
    return out


def unq(s):
    if len(s) > 1 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


class Instr:
    __slots__ = ('op', 'dst', 'args', 'dbg', 'text', 'extra', 'as_int')

    def __init__(self, op, dst, args, dbg, text, extra=None):
        self.op = op
        self.dst = dst
        self.args = args
        self.dbg = dbg
        self.text = text
        self.extra = extra

    def __repr__(self):
        return self.text.strip()


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []

    @property
    def term(self):
        return self.instrs[-1]


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, name)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.raw = None
        self.parsed = False
        self.err = None


PARAM_ATTRS = {
    'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly',
    'readnone', 'writeonly', 'returned', 'immarg', 'inreg', 'nest', 'swiftself',
    'dead_on_unwind', 'writable', 'nofree', 'captures', 'nofpclass', 'noext',
    'allocptr', 'allocalign', 'dereferenceable', 'dereferenceable_or_null', 'align',
    'sret', 'byval', 'range', 'initializes', 'inalloca', 'preallocated',
}


class P:
    """Token cursor."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def isv(self, v):
        return self.peek()[1] == v and self.peek()[0] in ('p', 'word')

    def acc(self, v):
        if self.isv(v):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r got %r' % (v, self.t[self.i:self.i + 6]))

    def eof(self):
        return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'x86_fp80', 'token', 'half'):
                ty = v
                if v == 'ptr' and self.isv('addrspace'):
                    raise IRError('addrspace')
            elif re.fullmatch(r'i\d+', v):
                ty = v
            else:
                raise IRError('type? %r' % v)
        elif k == 'lid':
            ty = unq(v)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            el = self.type()
            self.exp(']')
            ty = ('arr', n, el)
        elif v == '{':
            els = []
            if not self.acc('}'):
                while True:
                    els.append(self.type())
                    if self.acc('}'):
                        break
                    self.exp(',')
            ty = ('struct', tuple(els))
        elif v == '<':
            if self.isv('{'):
                self.next()
                els = []
                if not self.acc('}'):
                    while True:
                        els.append(self.type())
                        if self.acc('}'):
                            break
                        self.exp(',')
                self.exp('>')
                ty = ('pstruct', tuple(els))
            else:
                n = int(self.next()[1])
                self.exp('x')
                el = self.type()
                self.exp('>')
                ty = ('vec', n, el)
        else:
            raise IRError('type? %r' % (v,))
        # function type suffix
        while self.isv('('):
            depth = 0
            while True:
                k, v = self.next()
                if v == '(':
                    depth += 1
                elif v == ')':
                    depth -= 1
                    if depth == 0:
                        break
            ty = ('fn', ty)
        return ty

    def skip_parens(self):
        self.exp('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
                if v == 'align' and self.peek()[0] == 'num':
                    self.i += 1
                elif self.isv('('):
                    self.skip_parens()
            elif k == 'str' or k == 'attr':
                self.i += 1
                if self.isv('='):
                    self.i += 2
            else:
                return

    def value(self, ty):
        """Parse a value of known type -> ('const', n) | ('var', name) | ..."""
        k, v = self.next()
        if k == 'lid':
            return ('var', unq(v))
        if k == 'gid':
            return ('global', unq(v))
        if k == 'num':
            if ty in ('float', 'double'):
                return ('fconst', v)
            if v.startswith('0x'):
                return ('fconst', v)
            return ('int', int(v))
        if k == 'str':
            return ('str', v)
        if k == 'word':
            if v == 'null':
                return ('null',)
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                if self.isv('inrange'):
                    self.next()
                    self.skip_parens()
                self.exp('(')
                ety = self.type()
                self.exp(',')
                ops = []
                while True:
                    if self.isv('inrange'):
                        self.next()
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.acc(')'):
                        break
                    self.exp(',')
                return ('cgep', ety, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'icmp', 'mul', 'xor'):
                pred = None
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                if v == 'icmp':
                    pred = self.next()[1]
                self.exp('(')
                t = self.type()
                a = self.value(t)
                self.exp(',')
                t2 = self.type()
                b = self.value(t2)
                self.exp(')')
                return ('cbin', v, pred, t, a, b)
            raise IRError('value %r' % v)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.isv('{'):
                self.next()
                els = self._elems('}')
                self.exp('>')
                return ('agg', els)
            return ('agg', self._elems(close))
        raise IRError('value? %r' % ((k, v),))

    def _elems(self, close):
        els = []
        if self.acc(close):
            return els
        while True:
            t = self.type()
            els.append((t, self.value(t)))
            if self.acc(close):
                return els
            self.exp(',')


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.rawglobals = {}
        self.decls = {}
        self.md = {}
        self._size = {}
        self._load(text)

    # -- layout -----------------------------------------------------------------
    def sizealign(self, ty):
        r = self._size.get(ty)
        if r is None:
            r = self._sizealign(ty)
            self._size[ty] = r
        return r

    def _sizealign(self, ty):
        if isinstance(ty, str):
            if ty == 'ptr':
                return 8, 8
            if ty == 'double':
                return 8, 8
            if ty == 'float':
                return 4, 4
            if ty == 'x86_fp80':
                return 16, 16
            if ty[0] == 'i' and ty[1:].isdigit():
                n = int(ty[1:])
                b = 1
                while b * 8 < n:
                    b *= 2
                return b, min(b, 16)
            if ty[0] == '%':
                d = self.types.get(ty)
                if d is None:
                    raise IRError('opaque type ' + ty)
                return self.sizealign(d)
        if ty[0] == 'arr' or ty[0] == 'vec':
            s, a = self.sizealign(ty[2])
            return s * ty[1], a
        if ty[0] == 'struct':
            off = 0
            al = 1
            for e in ty[1]:
                s, a = self.sizealign(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if ty[0] == 'pstruct':
            return sum(self.sizealign(e)[0] for e in ty[1]), 1
        raise IRError('size of %r' % (ty,))

    def resolve(self, ty):
        while isinstance(ty, str) and ty[0] == '%':
            if ty not in self.types:
                raise IRError('opaque type ' + ty)
            ty = self.types[ty]
        return ty

    def field(self, ty, idx):
        ty = self.resolve(ty)
        if ty[0] == 'struct':
            off = 0
            for k, e in enumerate(ty[1]):
                s, a = self.sizealign(e)
                off = (off + a - 1) // a * a
                if k == idx:
                    return off, e
                off += s
        if ty[0] == 'pstruct':
            off = 0
            for k, e in enumerate(ty[1]):
                if k == idx:
                    return off, e
                off += self.sizealign(e)[0]
        raise IRError('field %r %r' % (ty, idx))

    # -- loading ----------------------------------------------------------------
    def _load(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln).group(1).strip('"')
                f = Func(name)
                f.raw = lines[i:j + 1]
                self.funcs[name] = f
                i = j + 1
                continue
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                nm = unq(nm.strip())
                if rest.strip() != 'opaque':
                    try:
                        self.types[nm] = P(tokenize(rest)).type()
                    except IRError:
                        pass
            elif ln.startswith('@'):
                nm = ln.split(' = ', 1)[0].strip()
                self.rawglobals[unq(nm)] = ln
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('!') and ' = ' in ln:
                nm, rest = ln.split(' = ', 1)
                self.md[nm] = rest
            i += 1

    def global_init(self, gid):
        """-> (type, value, is_constant) of a global with initializer"""
        if gid in self.globals:
            return self.globals[gid]
        ln = self.rawglobals.get(gid)
        if ln is None:
            raise IRError('no global ' + gid)
        rest = ln.split(' = ', 1)[1]
        m = re.search(r'\b(global|constant)\b', rest)
        const = m.group(1) == 'constant'
        ext = re.match(r'\s*(external|extern_weak)', rest) is not None
        p = P(tokenize(rest[m.end():]))
        ty = p.type()
        val = None
        if not ext:
            val = p.value(ty)
        r = (ty, val, const)
        self.globals[gid] = r
        return r

    def const_int(self, name):
        ty, val, _ = self.global_init('@' + name)
        if val[0] == 'int':
            return val[1]
        if val[0] == 'zero':
            return 0
        raise IRError('const %s' % name)

    def loc(self, dbg):
        """!N of a DILocation -> 'File.h:123'"""
        if dbg is None:
            return None
        r = self.md.get(dbg)
        if not r:
            return None
        m = re.search(r'line: (\d+)', r)
        line = m.group(1) if m else '?'
        sc = re.search(r'scope: (!\d+)', r)
        fn = '?'
        cur = sc.group(1) if sc else None
        for _ in range(20):
            if cur is None:
                break
            d = self.md.get(cur, '')
            fm = re.search(r'file: (!\d+)', d)
            if fm:
                fd = self.md.get(fm.group(1), '')
                q = re.search(r'filename: "([^"]*)"', fd)
                if q:
                    fn = q.group(1).split('/')[-1]
                break
            sm = re.search(r'scope: (!\d+)', d)
            cur = sm.group(1) if sm else None
        return '%s:%s' % (fn, line)

    # -- functions ----------------------------------------------------------------
    def func(self, name):
        f = self.funcs[name]
        if not f.parsed:
            f.parsed = True
            try:
                self._parse_func(f)
            except (IRError, IndexError, ValueError) as e:
                f.err = '%s: %s' % (name, e)
        if f.err:
            raise IRError(f.err)
        return f

    def _parse_func(self, f):
        hdr = f.raw[0]
        # params
        k = hdr.index('(', hdr.index('@'))
        # careful: quoted names contain no parens in our modules
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
        k = m.end() - 1
        d = 0
        j = k
        while True:
            if hdr[j] == '(':
                d += 1
            elif hdr[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        pre = hdr[len('define '):m.start()]
        toks = tokenize(pre)
        # return type = last type in pre
        p = P(toks)
        while True:
            kk, v = p.peek()
            if kk is None:
                raise IRError('ret type')
            if kk == 'word' and not (v in ('ptr', 'void', 'float', 'double', 'x86_fp80') or re.fullmatch(r'i\d+', v)):
                p.next()
                if v == 'align' and p.peek()[0] == 'num':
                    p.next()
                elif p.isv('('):
                    p.skip_parens()
                continue
            break
        f.ret = p.type()
        p = P(tokenize(hdr[k + 1:j]))
        while not p.eof():
            if p.peek()[0] == 'dots':
                break
            ty = p.type()
            p.attrs()
            nm = None
            if p.peek()[0] == 'lid':
                nm = unq(p.next()[1])
            f.params.append((ty, nm))
            if not p.acc(','):
                break
        cur = None
        body = f.raw[1:-1]
        # join continued lines (switch)
        i = 0
        while i < len(body):
            ln = body[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                nm = ln.split(':')[0]
                nm = nm.strip('"')
                cur = Block('%' + nm)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if ln.strip().startswith('#dbg'):
                continue
            if cur is None:
                cur = Block('%entry.')
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if re.match(r'\s*switch ', ln) and not ln.rstrip().endswith(']') and '[' in ln and ']' not in ln:
                while ']' not in body[i]:
                    ln += ' ' + body[i]
                    i += 1
                ln += ' ' + body[i]
                i += 1
            ins = self._instr(ln)
            if ins is not None:
                cur.instrs.append(ins)

    def _instr(self, ln):
        toks = tokenize(ln)
        p = P(toks)
        dst = None
        if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
            dst = unq(p.next()[1])
            p.next()
        dbg = None
        for q in range(len(toks) - 1):
            if toks[q] == ('md', '!dbg'):
                dbg = toks[q + 1][1]
                break
        op = p.next()[1]

        def mk(args, extra=None):
            return Instr(op, dst, args, dbg, ln, extra)

        def tv():
            t = p.type()
            p.attrs()
            return (t, p.value(t))

        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp'):
                fl.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return mk((t, a, b), fl)
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return mk((t, a, b), pred)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.exp('to')
            t2 = p.type()
            return mk((t, a, t2))
        if op == 'freeze':
            t, a = tv()
            return mk((t, a))
        if op == 'fneg':
            t, a = tv()
            return mk((t, a))
        if op == 'select':
            c = tv()
            p.exp(',')
            a = tv()
            p.exp(',')
            b = tv()
            return mk((c, a, b))
        if op == 'alloca':
            p.acc('inalloca')
            t = p.type()
            cnt = None
            if p.acc(',') and not p.isv('align'):
                if p.peek()[0] == 'word' and re.fullmatch(r'i\d+', p.peek()[1]):
                    cnt = tv()
            return mk((t, cnt))
        if op == 'load':
            at = p.acc('atomic')
            vol = p.acc('volatile')
            t = p.type()
            p.exp(',')
            ptr = tv()
            order = None
            if at:
                if p.isv('syncscope'):
                    p.next()
                    p.skip_parens()
                order = p.next()[1]
            return mk((t, ptr), order)
        if op == 'store':
            at = p.acc('atomic')
            p.acc('volatile')
            v = tv()
            p.exp(',')
            ptr = tv()
            order = None
            if at:
                if p.isv('syncscope'):
                    p.next()
                    p.skip_parens()
                order = p.next()[1]
            return mk((v, ptr), order)
        if op == 'cmpxchg':
            weak = p.acc('weak')
            p.acc('volatile')
            ptr = tv()
            p.exp(',')
            c = tv()
            p.exp(',')
            n = tv()
            o1 = p.next()[1]
            o2 = p.next()[1]
            return mk((ptr, c, n), (o1, o2, weak))
        if op == 'atomicrmw':
            p.acc('volatile')
            rop = p.next()[1]
            ptr = tv()
            p.exp(',')
            v = tv()
            o = p.next()[1]
            return mk((ptr, v), (rop, o))
        if op == 'fence':
            return mk((), p.next()[1])
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            ety = p.type()
            p.exp(',')
            ops = [tv()]
            while p.acc(','):
                if p.peek()[0] == 'md':
                    break
                ops.append(tv())
            return mk((ety, ops))
        if op == 'extractvalue':
            v = tv()
            idx = []
            while p.acc(','):
                if p.peek()[0] != 'num':
                    break
                idx.append(int(p.next()[1]))
            return mk((v, idx))
        if op == 'insertvalue':
            v = tv()
            p.exp(',')
            e = tv()
            idx = []
            while p.acc(','):
                if p.peek()[0] != 'num':
                    break
                idx.append(int(p.next()[1]))
            return mk((v, e, idx))
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp'):
                p.next()
            t = p.type()
            inc = []
            while True:
                p.exp('[')
                v = p.value(t)
                p.exp(',')
                b = unq(p.next()[1])
                p.exp(']')
                inc.append((v, b))
                if not p.acc(','):
                    break
                if p.peek()[0] == 'md':
                    break
            return mk((t, inc))
        if op == 'br':
            if p.acc('label'):
                return mk((unq(p.next()[1]),))
            t = p.type()
            c = p.value(t)
            p.exp(',')
            p.exp('label')
            a = unq(p.next()[1])
            p.exp(',')
            p.exp('label')
            b = unq(p.next()[1])
            return mk(((t, c), a, b))
        if op == 'switch':
            v = tv()
            p.exp(',')
            p.exp('label')
            d = unq(p.next()[1])
            cases = []
            p.exp('[')
            while not p.acc(']'):
                t = p.type()
                c = p.value(t)
                p.exp(',')
                p.exp('label')
                cases.append((c[1], unq(p.next()[1])))
            return mk((v, d, cases))
        if op == 'ret':
            if p.isv('void'):
                return mk((None,))
            return mk((tv(),))
        if op == 'unreachable':
            return mk(())
        if op in ('tail', 'musttail', 'notail', 'call'):
            if op != 'call':
                p.next()
            op = 'call'
            while True:
                k, v = p.peek()
                if k == 'word' and (v in ('fastcc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz') or v in PARAM_ATTRS):
                    p.next()
                    if v == 'align' and p.peek()[0] == 'num':
                        p.next()
                    elif p.isv('('):
                        p.skip_parens()
                    continue
                break
            rt = p.type()
            if isinstance(rt, tuple) and rt[0] == 'fn':
                rt = rt[1]
            k, v = p.next()
            if k == 'word' and v == 'asm':
                callee = ('asm', p.peek()[1])
                while not p.isv('('):
                    p.next()
            else:
                callee = ('global', unq(v)) if k == 'gid' else ('var', unq(v))
            if callee[1].startswith('@llvm.dbg.') or callee[1].startswith('@llvm.lifetime') or \
                    callee[1].startswith('@llvm.experimental.noalias'):
                return None
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    t = p.type()
                    if t == 'metadata':
                        return None
                    p.attrs()
                    args.append((t, p.value(t)))
                    if p.acc(')'):
                        break
                    p.exp(',')
            i = mk((rt, callee, args))
            i.op = 'call'
            return i
        raise IRError('instr %s' % ln.strip()[:80])
