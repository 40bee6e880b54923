"""Textual LLVM IR (clang/opt 18) reader: types, layout, functions, debug info.

Only what the analyses need is modelled.  Nothing here executes code of the
program under analysis; the IR text is the "resolved program" (types, callees,
macros and inline functions resolved by the real compiler front end).
"""
import re
import sys

sys.setrecursionlimit(20000)


class IRError(Exception):
    pass


# --------------------------------------------------------------------------
# Types
# --------------------------------------------------------------------------
# ('i',n) ('f',n) ('ptr',) ('void',) ('arr',n,T) ('st',name) ('lit',(T..),packed)
VOID = ('void',)
PTR = ('ptr',)


class TypeTable:
    def __init__(self):
        self.structs = {}   # name -> ('lit', fields, packed) or None if opaque
        self._size = {}

    def size_align(self, t):
        r = self._size.get(t)
        if r is None:
            r = self._compute(t)
            self._size[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def _compute(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if k == 'f':
            b = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
            return (b, b)
        if k == 'ptr':
            return (8, 8)
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'st':
            d = self.structs.get(t[1])
            if d is None:
                return (1, 1)
            return self.size_align(d)
        if k == 'lit':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            off = (off + al - 1) // al * al
            return (off, al)
        if k == 'vec':
            s, a = self.size_align(t[2])
            return (s * t[1], s * t[1])
        return (0, 1)

    def field_offset(self, t, idx):
        if t[0] == 'st':
            t = self.structs[t[1]]
        off = 0
        for n, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if not t[2]:
                off = (off + a - 1) // a * a
            if n == idx:
                return off, f
            off += s
        raise IRError('field index')


_tok = re.compile(r'''
   \s+
 | (?P<meta>!"(?:[^"]*)"|![A-Za-z_.][\w.]*|!\d+|!\{|!)
 | (?P<cstr>c"(?:[^"]*)")
 | (?P<str>"(?:[^"]*)")
 | (?P<loc>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<attr>\#\d+)
 | (?P<num>-?0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | (?P<word>[A-Za-z_][\w.]*:?)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*|:$+-])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = _tok.match
    while i < n:
        c = s[i]
        if c == ' ':
            i += 1
            continue
        if c == ';':
            break
        r = m(s, i)
        if not r:
            raise IRError('tokenize: %r at %d' % (s, i))
        k = r.lastgroup
        i = r.end()
        if k:
            out.append((k, r.group(k)))
    return out


def _unq(s):
    # @"foo" / %"foo" -> @foo
    if len(s) > 2 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def peekv(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def nextv(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def expect(self, v):
        x = self.nextv()
        if x != v:
            raise IRError('expected %r got %r in %r' % (v, x, self.t))

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def eof(self):
        return self.i >= len(self.t)


def parse_type(tk):
    k, v = tk.next()
    if k == 'word':
        if v == 'void':
            t = VOID
        elif v == 'ptr':
            t = PTR
        elif v == 'float':
            t = ('f', 32)
        elif v == 'double':
            t = ('f', 64)
        elif v == 'half':
            t = ('f', 16)
        elif v == 'x86_fp80':
            t = ('f', 80)
        elif v == 'fp128':
            t = ('f', 128)
        elif v in ('metadata', 'label', 'token', 'opaque'):
            t = (v,)
        elif v[0] == 'i' and v[1:].isdigit():
            t = ('i', int(v[1:]))
        else:
            raise IRError('type %r' % v)
    elif k == 'loc':
        t = ('st', _unq(v)[1:])
    elif v == '[':
        n = int(tk.nextv())
        tk.expect('x')
        e = parse_type(tk)
        tk.expect(']')
        t = ('arr', n, e)
    elif v == '{':
        fs = []
        if not tk.accept('}'):
            while True:
                fs.append(parse_type(tk))
                if tk.accept('}'):
                    break
                tk.expect(',')
        t = ('lit', tuple(fs), False)
    elif v == '<':
        if tk.peekv() == '{':
            tk.next()
            fs = []
            if not tk.accept('}'):
                while True:
                    fs.append(parse_type(tk))
                    if tk.accept('}'):
                        break
                    tk.expect(',')
            tk.expect('>')
            t = ('lit', tuple(fs), True)
        else:
            n = int(tk.nextv())
            tk.expect('x')
            e = parse_type(tk)
            tk.expect('>')
            t = ('vec', n, e)
    else:
        raise IRError('type tok %r' % v)
    # function type suffix: T (args...)
    while tk.peekv() == '(' and tk.peek()[0] == 'p':
        # only function types in call instructions: i32 (ptr, ...)
        save = tk.i
        depth = 0
        while True:
            x = tk.nextv()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        nx = tk.peek()
        if nx[0] in ('loc', 'glob') or nx[1] == '*':
            t = ('fn', t)
        else:
            tk.i = save
            break
    return t


# Operand values:
#  ('l',name) ('g',name) ('c',int) ('null',) ('undef',) ('fp',text)
#  ('gep',srcT,base,[(T,val)..]) ('cast',op,val) ('zero',) ('agg',[(T,v)..])
#  ('str',bytes) ('binop',op,a,b)
_GEPFLAGS = ('inbounds', 'nuw', 'nusw')


def parse_value(tk, ty):
    k, v = tk.next()
    if k == 'loc':
        return ('l', _unq(v)[1:])
    if k == 'glob':
        return ('g', _unq(v)[1:])
    if k == 'num':
        if ty[0] == 'f':
            return ('fp', v)
        if v.startswith('0x') or '.' in v:
            return ('fp', v)
        return ('c', int(v))
    if k == 'word':
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('null',)
        if v == 'getelementptr':
            while tk.peekv() in _GEPFLAGS:
                tk.next()
            tk.expect('(')
            st = parse_type(tk)
            tk.expect(',')
            bt = parse_type(tk)
            bv = parse_value(tk, bt)
            idx = []
            while tk.accept(','):
                while tk.peekv() == 'inrange':
                    tk.next()
                t = parse_type(tk)
                idx.append((t, parse_value(tk, t)))
            tk.expect(')')
            return ('gep', st, bv, idx)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext',
                 'addrspacecast'):
            tk.expect('(')
            t = parse_type(tk)
            x = parse_value(tk, t)
            tk.expect('to')
            t2 = parse_type(tk)
            tk.expect(')')
            return ('cast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while tk.peekv() in ('nuw', 'nsw'):
                tk.next()
            tk.expect('(')
            t = parse_type(tk)
            a = parse_value(tk, t)
            tk.expect(',')
            t2 = parse_type(tk)
            b = parse_value(tk, t2)
            tk.expect(')')
            return ('cbin', v, t, a, b)
        if v == 'blockaddress':
            depth = 0
            while True:
                x = tk.nextv()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            return ('undef',)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return parse_value(tk, ty)
        raise IRError('value word %r in %r' % (v, tk.t))
    if k == 'cstr':
        return ('str', decode_cstr(v[2:-1]))
    if v == '{' or v == '[' or v == '<':
        close = {'{': '}', '[': ']', '<': '>'}[v]
        if v == '<' and tk.peekv() == '{':
            tk.next()
            close = '}'
        els = []
        if not tk.accept(close):
            while True:
                t = parse_type(tk)
                els.append((t, parse_value(tk, t)))
                if tk.accept(close):
                    break
                tk.expect(',')
        if v == '<' and close == '}':
            tk.expect('>')
        return ('agg', els)
    if k == 'meta':
        return ('meta', v)
    raise IRError('value %r %r in %r' % (k, v, tk.t))


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'dbg', 'fn', 'blk', 'idx', 'x')
    # ty: result type; a: operand tuple (op specific); x: extra

    def __repr__(self):
        return '<%s %s=%s %s>' % (self.fn.name, self.dest, self.op, self.a)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'idx')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, name)
        self.ret = None
        self.blocks = []
        self.bmap = {}
        self.internal = False
        self.hidden = False
        self.sp = None     # DISubprogram id
        self.vararg = False
        self.declared_only = False

    def __repr__(self):
        return '<fn %s>' % self.name


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'internal', 'dbg', 'tls')


_IGN = {'noundef', 'nonnull', 'zeroext', 'signext', 'immarg', 'nocapture',
        'readonly', 'readnone', 'writeonly', 'noalias', 'inreg', 'returned',
        'allocptr', 'swiftself', 'nest', 'noinline', 'nofree', 'allocalign',
        'noext', 'dead_on_unwind', 'writable'}


def skip_param_attrs(tk):
    while True:
        k, v = tk.peek()
        if k == 'word' and v in _IGN:
            tk.next()
        elif k == 'word' and v in ('align',):
            tk.next()
            tk.next()
        elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null',
                                   'byval', 'sret', 'elementtype', 'align',
                                   'captures', 'range', 'memory'):
            tk.next()
            depth = 0
            while True:
                x = tk.nextv()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
        else:
            return


_BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr',
        'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
_CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc',
         'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'addrspacecast'}
_FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf',
          'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'atomic'}
_LINKAGE = {'internal', 'private', 'external', 'weak', 'linkonce', 'linkonce_odr',
            'weak_odr', 'common', 'appending', 'extern_weak', 'available_externally'}


class Module:
    def __init__(self, text):
        self.types = TypeTable()
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.md = {}
        self._mdcache = {}
        self._parse(text)
        for f in self.functions.values():
            self._cfg(f)

    # ---- top level ----
    def _parse(self, text):
        lines = text.split('\n')
        n = len(lines)
        i = 0
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ';':
                i += 1
                continue
            c = ln[0]
            if c == '%':
                tk = Toks(tokenize(ln))
                name = _unq(tk.nextv())[1:]
                tk.expect('=')
                tk.expect('type')
                if tk.peekv() == 'opaque':
                    self.types.structs[name] = None
                else:
                    self.types.structs[name] = parse_type(tk)
                i += 1
            elif c == '@':
                self._global(ln)
                i += 1
            elif ln.startswith('define'):
                i = self._function(lines, i)
            elif ln.startswith('declare'):
                self._header(ln, True)
                i += 1
            elif c == '!':
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
                i += 1
            else:
                i += 1

    def _global(self, ln):
        tk = Toks(tokenize(ln))
        g = Global()
        g.name = _unq(tk.nextv())[1:]
        g.internal = False
        g.const = False
        g.tls = False
        g.init = None
        g.dbg = []
        tk.expect('=')
        while True:
            k, v = tk.peek()
            if v in ('internal', 'private'):
                g.internal = True
                tk.next()
            elif v == 'thread_local':
                g.tls = True
                tk.next()
                if tk.peekv() == '(':
                    while tk.nextv() != ')':
                        pass
            elif v in ('global', 'constant'):
                g.const = (v == 'constant')
                tk.next()
                break
            elif v in ('alias', 'ifunc', 'comdat'):
                return
            else:
                tk.next()
        g.ty = parse_type(tk)
        if not tk.eof() and tk.peekv() not in (',',):
            g.init = parse_value(tk, g.ty)
        for j, (k, v) in enumerate(tk.t):
            if k == 'meta' and v == '!dbg' and j + 1 < len(tk.t):
                g.dbg.append(int(tk.t[j + 1][1][1:]))
        self.globals[g.name] = g

    def _header(self, ln, decl):
        tk = Toks(tokenize(ln))
        tk.next()
        internal = hidden = False
        while True:
            k, v = tk.peek()
            if v in ('internal', 'private'):
                internal = True
                tk.next()
            elif v == 'hidden':
                hidden = True
                tk.next()
            elif v in _LINKAGE or v in ('dso_local', 'dso_preemptable', 'protected',
                                        'default', 'unnamed_addr',
                                        'local_unnamed_addr', 'noundef'):
                tk.next()
            elif k == 'word' and v in _IGN or v in ('align', 'dereferenceable',
                                                    'dereferenceable_or_null', 'range'):
                skip_param_attrs(tk)
            else:
                break
        rt = parse_type(tk)
        k, v = tk.next()
        if k != 'glob':
            raise IRError('fn header %r' % ln)
        f = Function(_unq(v)[1:])
        f.internal = internal
        f.hidden = hidden
        f.ret = rt
        tk.expect('(')
        if not tk.accept(')'):
            while True:
                if tk.peekv() == '...':
                    tk.next()
                    f.vararg = True
                else:
                    t = parse_type(tk)
                    skip_param_attrs(tk)
                    nm = None
                    if tk.peek()[0] == 'loc':
                        nm = _unq(tk.nextv())[1:]
                    f.params.append((t, nm))
                if tk.accept(')'):
                    break
                tk.expect(',')
        for j, (k, v) in enumerate(tk.t):
            if k == 'meta' and v == '!dbg':
                f.sp = int(tk.t[j + 1][1][1:])
        if decl:
            f.declared_only = True
            self.declares[f.name] = f
        return f

    def _function(self, lines, i):
        ln = lines[i]
        f = self._header(ln, False)
        i += 1
        blk = None
        n = len(lines)
        # unnamed params get numbers
        cnt = 0
        ps = []
        for t, nm in f.params:
            if nm is None:
                nm = str(cnt)
                cnt += 1
            ps.append((t, nm))
        f.params = ps
        while i < n:
            ln = lines[i]
            i += 1
            if ln == '}':
                break
            if not ln or ln.isspace():
                continue
            if ln[0] != ' ':
                m = re.match(r'("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    nm = m.group(1).strip('"')
                    blk = Block(nm)
                    blk.idx = len(f.blocks)
                    f.blocks.append(blk)
                    f.bmap[nm] = blk
                continue
            if '@llvm.dbg.' in ln or '@llvm.lifetime' in ln:
                continue
            if blk is None:
                blk = Block(str(cnt))
                blk.idx = 0
                f.blocks.append(blk)
                f.bmap[blk.name] = blk
            s = ln
            if s.rstrip().endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            ins = self._instr(s, f, blk)
            if ins is not None:
                ins.idx = len(blk.ins)
                blk.ins.append(ins)
        self.functions[f.name] = f
        return i

    def _instr(self, s, f, blk):
        toks = tokenize(s)
        tk = Toks(toks)
        I = Instr()
        I.fn = f
        I.blk = blk
        I.dest = None
        I.dbg = None
        I.x = None
        I.a = ()
        # debug loc
        for j in range(len(toks) - 2, -1, -1):
            if toks[j] == ('meta', '!dbg'):
                I.dbg = int(toks[j + 1][1][1:])
                break
        if toks[0][0] == 'loc' and len(toks) > 1 and toks[1][1] == '=':
            I.dest = _unq(toks[0][1])[1:]
            tk.i = 2
        op = tk.nextv()
        if op in ('tail', 'musttail', 'notail'):
            op = tk.nextv()
        I.op = op
        if op in _BIN:
            while tk.peekv() in _FLAGS:
                tk.next()
            t = parse_type(tk)
            a = parse_value(tk, t)
            tk.expect(',')
            b = parse_value(tk, t)
            I.ty = t
            I.a = (a, b)
        elif op in _CAST:
            while tk.peekv() in _FLAGS:
                tk.next()
            t = parse_type(tk)
            a = parse_value(tk, t)
            tk.expect('to')
            I.ty = parse_type(tk)
            I.a = (a,)
            I.x = t
        elif op == 'load':
            while tk.peekv() in _FLAGS:
                tk.next()
            I.ty = parse_type(tk)
            tk.expect(',')
            pt = parse_type(tk)
            I.a = (parse_value(tk, pt),)
        elif op == 'store':
            while tk.peekv() in _FLAGS:
                tk.next()
            t = parse_type(tk)
            v = parse_value(tk, t)
            tk.expect(',')
            pt = parse_type(tk)
            p = parse_value(tk, pt)
            I.ty = VOID
            I.x = t
            I.a = (v, p)
        elif op == 'alloca':
            t = parse_type(tk)
            cnt = ('c', 1)
            while tk.accept(','):
                if tk.peekv() == 'align':
                    tk.next()
                    tk.next()
                elif tk.peek()[0] == 'meta':
                    break
                else:
                    ct = parse_type(tk)
                    cnt = parse_value(tk, ct)
            I.ty = PTR
            I.x = t
            I.a = (cnt,)
        elif op == 'getelementptr':
            while tk.peekv() in _GEPFLAGS:
                tk.next()
            st = parse_type(tk)
            tk.expect(',')
            bt = parse_type(tk)
            bv = parse_value(tk, bt)
            idx = []
            while tk.accept(','):
                if tk.peek()[0] == 'meta':
                    break
                t = parse_type(tk)
                idx.append((t, parse_value(tk, t)))
            I.ty = PTR
            I.x = (st, idx)
            I.a = (bv,)
        elif op == 'icmp' or op == 'fcmp':
            while tk.peekv() in _FLAGS:
                tk.next()
            pred = tk.nextv()
            t = parse_type(tk)
            a = parse_value(tk, t)
            tk.expect(',')
            b = parse_value(tk, t)
            I.ty = ('i', 1)
            I.x = (pred, t)
            I.a = (a, b)
        elif op == 'br':
            I.ty = VOID
            if tk.peekv() == 'label':
                tk.next()
                I.x = (_unq(tk.nextv())[1:],)
            else:
                t = parse_type(tk)
                c = parse_value(tk, t)
                tk.expect(',')
                tk.expect('label')
                a = _unq(tk.nextv())[1:]
                tk.expect(',')
                tk.expect('label')
                b = _unq(tk.nextv())[1:]
                I.a = (c,)
                I.x = (a, b)
        elif op == 'switch':
            I.ty = VOID
            t = parse_type(tk)
            c = parse_value(tk, t)
            tk.expect(',')
            tk.expect('label')
            d = _unq(tk.nextv())[1:]
            tk.expect('[')
            cases = []
            while not tk.accept(']'):
                ct = parse_type(tk)
                cv = parse_value(tk, ct)
                tk.expect(',')
                tk.expect('label')
                cases.append((cv[1], _unq(tk.nextv())[1:]))
            I.a = (c,)
            I.x = (t, d, cases)
        elif op == 'ret':
            I.ty = VOID
            t = parse_type(tk)
            if t != VOID:
                I.a = (parse_value(tk, t),)
            I.x = t
        elif op == 'phi':
            while tk.peekv() in _FLAGS:
                tk.next()
            t = parse_type(tk)
            inc = []
            while True:
                tk.expect('[')
                v = parse_value(tk, t)
                tk.expect(',')
                b = _unq(tk.nextv())[1:]
                tk.expect(']')
                inc.append((v, b))
                if not tk.accept(','):
                    break
                if tk.peek()[0] == 'meta':
                    break
            I.ty = t
            I.x = dict((b, v) for v, b in inc)
        elif op == 'select':
            while tk.peekv() in _FLAGS:
                tk.next()
            ct = parse_type(tk)
            c = parse_value(tk, ct)
            tk.expect(',')
            t = parse_type(tk)
            a = parse_value(tk, t)
            tk.expect(',')
            t2 = parse_type(tk)
            b = parse_value(tk, t2)
            I.ty = t
            I.a = (c, a, b)
        elif op == 'call' or op == 'invoke':
            while tk.peekv() in _FLAGS or tk.peekv() in ('fastcc', 'ccc', 'coldcc'):
                tk.next()
            skip_param_attrs(tk)
            t = parse_type(tk)
            vararg = False
            if t[0] == 'fn':
                t = t[1]
            if tk.peekv() == 'asm':
                I.op = 'asm'
                I.ty = t
                return I
            callee = parse_value(tk, PTR)
            tk.expect('(')
            args = []
            if not tk.accept(')'):
                while True:
                    at = parse_type(tk)
                    if at == ('metadata',):
                        # skip the metadata operand
                        depth = 0
                        while not (depth == 0 and tk.peekv() in (',', ')')):
                            x = tk.nextv()
                            if x in ('(', '!{'):
                                depth += 1
                            elif x in (')', '}'):
                                depth -= 1
                        args.append((at, ('undef',)))
                    else:
                        skip_param_attrs(tk)
                        args.append((at, parse_value(tk, at)))
                    if tk.accept(')'):
                        break
                    tk.expect(',')
            I.ty = t
            I.a = tuple(a for _, a in args)
            I.x = (callee, tuple(a for a, _ in args))
            if op == 'invoke':
                while tk.peekv() != 'to':
                    tk.next()
                tk.next()
                tk.expect('label')
                nl = _unq(tk.nextv())[1:]
                tk.expect('unwind')
                tk.expect('label')
                ul = _unq(tk.nextv())[1:]
                I.x = I.x + (nl, ul)
        elif op == 'unreachable':
            I.ty = VOID
        elif op == 'extractvalue':
            t = parse_type(tk)
            v = parse_value(tk, t)
            idx = []
            while tk.accept(','):
                if tk.peek()[0] != 'num':
                    break
                idx.append(int(tk.nextv()))
            rt = t
            for ix in idx:
                if rt[0] == 'st':
                    rt = self.types.structs[rt[1]]
                rt = rt[2] if rt[0] == 'arr' else rt[1][ix]
            I.ty = rt
            I.a = (v,)
            I.x = (t, idx)
        elif op == 'insertvalue':
            t = parse_type(tk)
            v = parse_value(tk, t)
            tk.expect(',')
            t2 = parse_type(tk)
            v2 = parse_value(tk, t2)
            I.ty = t
            I.a = (v, v2)
            idx = []
            while tk.accept(','):
                if tk.peek()[0] != 'num':
                    break
                idx.append(int(tk.nextv()))
            I.x = idx
        elif op == 'atomicrmw':
            while tk.peekv() in _FLAGS:
                tk.next()
            kind = tk.nextv()
            pt = parse_type(tk)
            p = parse_value(tk, pt)
            tk.expect(',')
            t = parse_type(tk)
            v = parse_value(tk, t)
            I.ty = t
            I.x = kind
            I.a = (p, v)
        elif op == 'cmpxchg':
            while tk.peekv() in _FLAGS or tk.peekv() == 'weak':
                tk.next()
            pt = parse_type(tk)
            p = parse_value(tk, pt)
            tk.expect(',')
            t = parse_type(tk)
            a = parse_value(tk, t)
            tk.expect(',')
            t2 = parse_type(tk)
            b = parse_value(tk, t2)
            I.ty = ('lit', (t, ('i', 1)), False)
            I.x = t
            I.a = (p, a, b)
        elif op == 'freeze':
            I.ty = parse_type(tk)
            I.a = (parse_value(tk, I.ty),)
        elif op == 'fneg':
            I.ty = parse_type(tk)
            I.a = (parse_value(tk, I.ty),)
        elif op == 'fence':
            return None
        elif op in ('landingpad', 'resume', 'extractelement', 'insertelement',
                    'shufflevector', 'cleanupret', 'catchret'):
            I.ty = VOID
            I.op = 'other'
            I.x = op
            if op == 'resume':
                I.op = 'unreachable'
            if op == 'landingpad':
                I.ty = ('lit', (PTR, ('i', 32)), False)
        else:
            raise IRError('instr %r' % s)
        return I

    def _cfg(self, f):
        for b in f.blocks:
            t = b.ins[-1]
            if t.op == 'br':
                s = list(t.x)
            elif t.op == 'switch':
                s = [t.x[1]] + [l for _, l in t.x[2]]
            elif t.op == 'call' and len(t.x) > 2:
                s = [t.x[2], t.x[3]]
            elif t.op == 'invoke':
                s = [t.x[2], t.x[3]]
            else:
                s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            b.succ = [f.bmap[x] for x in seen]
            for x in b.succ:
                x.pred.append(b)

    # ---- debug info ----
    def mdnode(self, i):
        """Parse a DI node into (kind, dict)."""
        r = self._mdcache.get(i)
        if r is not None:
            return r
        s = self.md.get(i)
        if s is None:
            return (None, {})
        m = re.match(r'!(DI\w+)\((.*)\)$', s)
        if m:
            d = {}
            for p in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)', m.group(2)):
                v = p.group(2)
                if v.startswith('"'):
                    v = v[1:-1]
                elif re.match(r'!\d+$', v):
                    v = ('md', int(v[1:]))
                d[p.group(1)] = v
            r = (m.group(1), d)
        else:
            m = re.match(r'!\{(.*)\}$', s)
            if m:
                els = []
                for x in m.group(1).split(','):
                    x = x.strip()
                    if re.match(r'!\d+$', x):
                        els.append(int(x[1:]))
                    else:
                        els.append(None)
                r = ('tuple', {'els': els})
            else:
                r = (None, {})
        self._mdcache[i] = r
        return r

    def loc(self, dbg):
        """(file, line) of a debug location id."""
        if dbg is None:
            return ('?', 0)
        k, d = self.mdnode(dbg)
        line = int(d.get('line', 0))
        sc = d.get('scope')
        while sc is not None:
            k2, d2 = self.mdnode(sc[1])
            if 'file' in d2:
                fk, fd = self.mdnode(d2['file'][1])
                return (fd.get('filename', '?').split('/')[-1], line)
            sc = d2.get('scope')
        return ('?', line)

    def where(self, ins):
        f, l = self.loc(ins.dbg)
        return '%s:%d (%s)' % (f, l, ins.fn.name)

    def strip_type(self, t):
        """Follow typedef/const/volatile to a DI type id."""
        while t is not None:
            k, d = self.mdnode(t)
            if k == 'DIDerivedType' and d.get('tag') in (
                    'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type',
                    'DW_TAG_restrict_type'):
                b = d.get('baseType')
                t = b[1] if b else None
            else:
                return t
        return None

    def di_unsigned(self, t):
        t = self.strip_type(t)
        if t is None:
            return None
        k, d = self.mdnode(t)
        if k == 'DIBasicType':
            return 'unsigned' in d.get('encoding', '') or 'boolean' in d.get('encoding', '')
        if k == 'DICompositeType' and d.get('tag') == 'DW_TAG_enumeration_type':
            return True
        return None

    def di_struct_name(self, t):
        """If DI type t is a (pointer to) struct, its name."""
        t = self.strip_type(t)
        if t is None:
            return None
        k, d = self.mdnode(t)
        if k == 'DICompositeType':
            return d.get('name')
        if k == 'DIDerivedType' and d.get('tag') == 'DW_TAG_pointer_type':
            b = d.get('baseType')
            return self.di_struct_name(b[1]) if b else None
        return None

    def param_types(self, f):
        """DI type ids [ret, args...] of a function."""
        if f.sp is None:
            return []
        k, d = self.mdnode(f.sp)
        t = d.get('type')
        if not t:
            return []
        k, d = self.mdnode(t[1])
        t = d.get('types')
        if not t:
            return []
        return self.mdnode(t[1])[1].get('els', [])

    def struct_fields(self):
        """name -> {byte offset: (field name, size bytes, DI type id)} (flattened
        for nested aggregates with dotted names, arrays by first element)."""
        if hasattr(self, '_sf'):
            return self._sf
        out = {}
        byid = {}
        for i in self.md:
            s = self.md[i]
            if 'DICompositeType(' not in s:
                continue
            k, d = self.mdnode(i)
            if d.get('tag') not in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                continue
            if 'elements' not in d or 'name' not in d:
                continue
            out.setdefault(d['name'], i)
        self._sf = {}
        for n, i in out.items():
            fl = {}
            self._flatten(i, 0, '', fl, 0)
            self._sf[n] = fl
        return self._sf

    def _flatten(self, ti, base, prefix, fl, depth):
        if depth > 6:
            return
        k, d = self.mdnode(ti)
        els = d.get('elements')
        if not els:
            return
        for e in self.mdnode(els[1])[1].get('els', []):
            if e is None:
                continue
            k, m = self.mdnode(e)
            if k != 'DIDerivedType' or m.get('tag') != 'DW_TAG_member':
                continue
            off = base + int(m.get('offset', 0)) // 8
            sz = int(m.get('size', 0)) // 8
            nm = prefix + m.get('name', '')
            bt = m['baseType'][1]
            fl.setdefault(off, []).append((nm, sz, bt))
            st = self.strip_type(bt)
            k2, d2 = self.mdnode(st) if st is not None else (None, {})
            if k2 == 'DICompositeType' and d2.get('tag') in (
                    'DW_TAG_structure_type', 'DW_TAG_union_type'):
                self._flatten(st, off, nm + '.' if m.get('name') else prefix, fl, depth + 1)

    def field_name(self, struct, off, size=None):
        fl = self.struct_fields().get(struct)
        if not fl:
            return None
        c = fl.get(off)
        if c:
            # prefer the innermost entry matching the access size
            for nm, sz, t in reversed(c):
                if size is None or sz == size:
                    return nm
            return c[-1][0]
        # inside an array / larger member
        best = None
        for o, es in fl.items():
            for nm, sz, t in es:
                if o <= off < o + sz and (best is None or sz < best[1]):
                    best = (nm + '[]', sz)
        return best[0] if best else None

    def field_offset(self, struct, name):
        fl = self.struct_fields().get(struct) or {}
        for o, es in fl.items():
            for nm, sz, t in es:
                if nm == name:
                    return o, sz
        return None
