"""Path-sensitive abstract interpreter over LLVM IR.

Interprocedural by expanding calls in context; branch conditions become facts
(dom.Facts); control-flow joins merge states whose stores and rule states are
equal (losing only the facts that differ); loops are generalised: everything a
body iteration changes becomes a fresh unknown at the loop header, keeping only
candidate relations that every iteration re-establishes.  Rules plug in through
the hooks of class Rule.
"""
import ir as IR
from dom import *
import dom
import bv as BV


class AnalysisError(Exception):
    pass


class Budget(AnalysisError):
    pass


class NoProgress(AnalysisError):
    """A loop comes back to its header in the same state."""


ERRNO = atom(('global', '__errno'), 'obj')


class Cells(dict):
    """Cells of an object; sg caches their part of the signature until wcells."""
    __slots__ = ('sg',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.sg = None


class State:
    __slots__ = ('mem', 'ver', 'f', 'heap', 'rs', 'trace', 'own', 'epoch', 'sz')

    def __init__(self):
        self.mem = {}      # base atom -> {off: (size, val)}
        self.ver = {}      # base atom -> version token
        self.f = Facts()
        self.heap = {}     # heap atom -> status dict-like tuple
        self.rs = None     # rule state (hashable)
        self.trace = None  # (prev, text)
        self.own = set()   # bases whose inner dict is private
        self.epoch = 0
        self.sz = {}       # base atom -> allocated size on this path

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.f = self.f.copy()
        s.heap = dict(self.heap)
        s.rs = self.rs
        s.trace = self.trace
        s.own = set()
        self.own = set()
        s.epoch = self.epoch
        s.sz = dict(self.sz)
        return s

    def wcells(self, base):
        c = self.mem.get(base)
        if c is None:
            c = Cells()
            self.mem[base] = c
            self.own.add(base)
        elif base not in self.own or type(c) is not Cells:
            c = Cells(c)
            self.mem[base] = c
            self.own.add(base)
        else:
            c.sg = None
        return c

    def sig(self):
        """Signature of the observable store + rule state."""
        items = []
        for b, cells in self.mem.items():
            if b == ERRNO:
                continue
            if type(cells) is Cells:
                g = cells.sg
                if g is not None:
                    if g is not NOCELLS:
                        items.append(g)
                    continue
            its = []
            for o, (sz, v) in cells.items():
                if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
                    k = A_KEY[v.t[0][0]]
                    if k[0] == 'init' and k[1] == b and k[2] == o:
                        continue
                its.append((o, v))
            g = (b, frozenset(its)) if its else NOCELLS
            if type(cells) is Cells:
                cells.sg = g
            if its:
                items.append(g)
        return (frozenset(items), frozenset(self.ver.items()),
                frozenset(self.heap.items()), self.rs, frozenset(self.sz.items()))

    def steps(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


NOCELLS = ('none',)
State0 = State()


class Rule:
    """Hook interface; every hook may update st.rs (must be hashable)."""
    name = 'rule'
    max_depth = 14
    max_rec = 1
    pun_bytes = False
    max_states = 200000
    max_out = 6
    max_join = 10
    merge = True
    bounds = ()        # further candidate upper bounds of loop variables
    bitmode = False    # track bit provenance of integer values
    vamodel = False    # model variable arguments (implied by bitmode)

    def join_key(self, I, st):
        """Extra partition key when too many states are joined."""
        return None

    def init_rs(self):
        return None

    def loop_key(self, st):
        return st.rs

    # return None for default handling or a list of (state, ret)
    def call(self, I, st, name, args, ins):
        return None

    def on_store(self, I, st, base, off, size, val, ins):
        pass

    def on_load(self, I, st, base, off, size, ins):
        pass

    def on_deref(self, I, st, ptr, size, ins, write):
        pass

    def on_indirect(self, I, st, fnval, args, ins):
        """Indirect call to an unresolved target: list of outcomes or None."""
        return None

    def on_init(self, I, st, base, off, size, val):
        """A location of the initial (unknown) store is read for the first
        time on this path: add what the class invariant says about it."""
        pass

    # invariants of whole objects, kept across joins and loop heads
    def inv_objects(self, I, st):
        return ()

    def inv_ok(self, I, st, o):
        return False

    def inv_assume(self, I, st, o):
        pass

    def on_backedge(self, I, st, start, ins):
        pass

    def exact(self, I, fn, h):
        """Iterate the loop exactly, at most this many times (0: generalise)."""
        return 0

    def on_mem(self, I, st, kind, ptr, n, ins):
        """memcpy/memset style access of n bytes at ptr."""
        pass

    def on_branch(self, I, st, ins, taken):
        pass

    def on_enter(self, I, st, fn, args):
        pass

    def at_exit(self, I, args, outs):
        """After the entry point: outs is a list of (state, return value)."""
        pass

    def result(self):
        return None

    def on_leave(self, I, st, fn, args, ret):
        pass


class LoopInfo:
    """Natural loops of a function (header -> set of block indices)."""

    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        # RPO
        seen = set()
        order = []
        stack = [(fn.blocks[0], iter(fn.blocks[0].succ))]
        seen.add(fn.blocks[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succ)))
                    break
            else:
                stack.pop()
                order.append(b)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        # dominators (iterative)
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in b.pred if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x is not y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) is not new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in b.succ:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in x.pred if p in self.rpo)
        # live-in names per block (for merging)
        self._live()

    def dominates(self, a, b):
        while True:
            if a is b:
                return True
            nb = self.idom.get(b)
            if nb is b or nb is None:
                return False
            b = nb

    def _live(self):
        use = {}
        defs = {}
        phiuse = {}
        for b in self.fn.blocks:
            u, d = set(), set()
            for i in b.ins:
                if i.op == 'phi':
                    for pb, v in i.x.items():
                        for nm in _names(v):
                            phiuse.setdefault((pb, b.name), set()).add(nm)
                    d.add(i.dest)
                    continue
                ops = list(i.a)
                if i.op == 'getelementptr':
                    ops += [v for _, v in i.x[1]]
                if i.op in ('call', 'invoke'):
                    ops.append(i.x[0])
                for v in ops:
                    for nm in _names(v):
                        if nm not in d:
                            u.add(nm)
                if i.dest:
                    d.add(i.dest)
            use[b] = u
            defs[b] = d
        live = {b: set() for b in self.fn.blocks}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.fn.blocks):
                out = set()
                for s in b.succ:
                    out |= live[s]
                    out |= phiuse.get((b.name, s.name), set())
                # phi dests of successors are defined there
                new = use[b] | (out - defs[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        # live after phis: names needed inside b (includes phi dests)
        self.live = {}
        for b in self.fn.blocks:
            self.live[b] = live[b] | {i.dest for i in b.ins if i.op == 'phi'}


def _names(v):
    k = v[0]
    if k == 'l':
        return (v[1],)
    if k == 'gep':
        r = list(_names(v[2]))
        for _, x in v[3]:
            r += _names(x)
        return r
    if k == 'cast':
        return _names(v[3])
    if k == 'cbin':
        return tuple(_names(v[3])) + tuple(_names(v[4]))
    if k == 'agg':
        r = []
        for _, x in v[1]:
            r += _names(x)
        return r
    return ()


SIGNED_RET = {'read', 'write', 'recv', 'send', 'sendto', 'sendmsg', 'recvmsg',
              'recvfrom'}

# libc calls: (return spec) 'ptr0' maybe-null pointer, 'heap' fresh heap object
HEAP = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup'}
RANGES = {
    # fd producing calls: -1 or >= 0
    'socket': (-1, 1 << 20), 'accept': (-1, 1 << 20), 'accept4': (-1, 1 << 20),
    'dup': (-1, 1 << 20), 'dup2': (-1, 1 << 20), 'open': (-1, 1 << 20),
    'epoll_create': (-1, 1 << 20), 'epoll_create1': (-1, 1 << 20),
    'eventfd': (-1, 1 << 20), 'timerfd_create': (-1, 1 << 20),
    # 0 / -1
    'close': (-1, 0), 'pipe': (-1, 0), 'pipe2': (-1, 0), 'bind': (-1, 0),
    'listen': (-1, 0), 'connect': (-1, 0), 'setsockopt': (-1, 0),
    'getsockopt': (-1, 0), 'getsockname': (-1, 0), 'getpeername': (-1, 0),
    'epoll_ctl': (-1, 0), 'shutdown': (-1, 0), 'unlink': (-1, 0),
    'chmod': (-1, 0), 'timerfd_settime': (-1, 0), 'timer_create': (-1, 0),
    'timer_settime': (-1, 0), 'timer_delete': (-1, 0), 'sigaction': (-1, 0),
    'clock_gettime': (-1, 0), 'fcntl': (-1, (1 << 31) - 1),
    'poll': (-1, 1 << 20), 'epoll_wait': (-1, 1 << 20),
    'strlen': (0, 1 << 62), 'getaddrinfo': (-(1 << 31), (1 << 31) - 1),
    'asprintf': (-1, (1 << 31) - 1), 'vasprintf': (-1, (1 << 31) - 1),
    'snprintf': (-1, (1 << 31) - 1), 'vsnprintf': (-1, (1 << 31) - 1),
    'pthread_mutex_lock': (0, 4095), 'pthread_mutex_unlock': (0, 4095),
    'pthread_mutex_init': (0, 4095), 'pthread_mutex_destroy': (0, 4095),
    'pthread_cond_init': (0, 4095), 'pthread_cond_destroy': (0, 4095),
    'pthread_cond_wait': (0, 4095), 'pthread_cond_timedwait': (0, 4095),
    'pthread_cond_signal': (0, 4095), 'pthread_create': (0, 4095),
    'pthread_join': (0, 4095), 'pthread_condattr_init': (0, 4095),
    'pthread_condattr_setclock': (0, 4095), 'pthread_condattr_destroy': (0, 4095),
}
NO_ERRNO = {'free', 'strlen', 'strerror', 'strcmp', 'strncmp', 'strrchr',
            'strchr', 'memcmp', 'memset', 'memcpy', '__errno_location',
            'pthread_mutex_lock', 'pthread_mutex_unlock', 'llvm.va_start',
            'llvm.va_end', 'llvm.va_copy', '__cmsg_nxthdr', 'htons', 'ntohs',
            'gai_strerror', '__libc_current_sigrtmin', 'freeaddrinfo',
            'pthread_cond_signal', 'memmove', 'fprintf', 'llvm.va_start.p0',
            'pthread_mutex_destroy', 'pthread_cond_destroy'}
# out parameters of libc calls: index -> what
OUTARG = {
    'read': [1], 'recv': [1], 'recvfrom': [1, 4, 5], 'getsockopt': [3, 4],
    'getsockname': [1, 2], 'getpeername': [1, 2], 'accept': [1, 2],
    'accept4': [1, 2], 'pipe': [0],
    'pipe2': [0], 'clock_gettime': [1], 'timer_create': [2], 'poll': [0],
    'epoll_wait': [1], 'getaddrinfo': [3], 'snprintf': [0], 'vsnprintf': [0],
    'asprintf': [0], 'vasprintf': [0], 'recvmsg': [1], 'strtol': [1],
    '__isoc23_strtol': [1], '__isoc23_strtoul': [1], '__isoc23_strtoll': [1],
    '__isoc23_strtoull': [1], 'strtof': [1], 'strtod': [1], 'strtoul': [1],
    'strtoll': [1], 'strtoull': [1],
    'sscanf': 'va2', '__isoc23_sscanf': 'va2', 'getnameinfo': [2, 4],
    'pthread_create': [0],
}


def fresh_root(b):
    """The atom a lazily named object hangs off if it was invented (a join or
    generalised value), else -1."""
    while True:
        k = A_KEY[b]
        if k[0] == 'fresh':
            return b
        if k[0] != 'init' or not isinstance(k[1], int):
            return -1
        b = k[1]


class Interp:
    def __init__(self, mod, rule, gvals=None):
        self.m = mod
        self.rule = rule
        self.loopinfo = {}
        self.gvals = gvals or {}
        self.stack = []
        self.ctx = ()
        self._ctxid = {}
        self.nstates = 0
        self.stats = {'calls': 0, 'instrs': 0, 'paths': 0, 'loops': 0,
                      'merged': 0, 'truncated': 0, 'infeasible': 0}
        self.visited_fns = set()
        self.errno_obj = ERRNO
        self.structs_of = {}   # atom -> {start offset: struct name}
        self.unresolved = set()
        self.no_inline = set()
        self.probe = 0     # >0 while an attempt that may be discarded runs

    # ---- helpers -----------------------------------------------------------
    def li(self, fn):
        l = self.loopinfo.get(fn)
        if l is None:
            l = LoopInfo(fn)
            self.loopinfo[fn] = l
        return l

    def note(self, st, ins, text):
        f, l = self.m.loc(ins.dbg) if ins is not None else ('?', 0)
        st.trace = (st.trace, '%s:%d: %s' % (f, l, text))

    def tag_struct(self, base, off, sname):
        d = self.structs_of.setdefault(base, {})
        if off not in d:
            d[off] = sname
        else:
            # keep the bigger struct
            old = d[off]
            if self.m.types.size(('st', 'struct.' + sname)) > \
                    self.m.types.size(('st', 'struct.' + old)):
                d[off] = sname

    def field(self, base, off, size=None):
        """(struct, field) name of a location, outermost struct."""
        d = self.structs_of.get(base)
        if not d or not isinstance(off, int):
            return None
        best = None
        for s, n in d.items():
            sz = self.m.types.size(('st', 'struct.' + n))
            if s <= off < s + sz:
                if best is None or sz > best[2]:
                    best = (s, n, sz)
        if best is None:
            return None
        fn = self.m.field_name(best[1], off - best[0], size)
        if fn is None:
            return None
        return best[1], fn

    def field_ditype(self, base, off, size):
        pd = A_INFO[base].get('pdi')
        if pd is not None and off == 0:
            return pd
        d = self.structs_of.get(base)
        if not d or not isinstance(off, int):
            return None
        for s, n in d.items():
            fl = self.m.struct_fields().get(n)
            if not fl:
                continue
            for nm, sz, t in fl.get(off - s, ()):
                if sz == size:
                    return t
        return None

    def base_off(self, st, ptr):
        """Split a pointer value into (base atom, offset value)."""
        p = st.f.res(ptr)
        if not isinstance(p, Lin):
            return None, p
        b = None
        for a, k in p.t:
            if k == 1 and A_KIND[a] in ('obj', 'ptr', 'fn'):
                if b is None or A_KIND[a] == 'obj':
                    b = a
        if b is None:
            # opaque address: single atom
            if len(p.t) == 1 and p.t[0][1] == 1:
                b = p.t[0][0]
            else:
                return None, p
        off = sub(p, av(b))
        return b, off

    def init_val(self, st, base, off, size, ty):
        ver = st.ver.get(base, 0)
        info = A_INFO[base]
        gi = info.get('ginit')
        if gi is not None and ver == 0 and isinstance(off, int):
            v = self.const_at(gi[0], gi[1], off, size, ty)
            if v is not None:
                return v
        z = info.get('zero')
        if z and ver == 0:
            return 0
        if ver == ('zero',):
            return 0
        kind = 'ptr' if ty == IR.PTR else 'int'
        key = ('init', base, off, size, ver)
        a = dom._intern.get(key)
        if a is None:
            lo, hi = self.ty_range(ty, None)
            di = self.field_ditype(base, off, size)
            finfo = {}
            if di is not None:
                if kind == 'int':
                    lo, hi = self.ty_range(ty, self.m.di_unsigned(di))
                else:
                    sn = self.m.di_struct_name(di)
                    if sn:
                        finfo['pointee'] = sn
            fl = self.field(base, off, size)
            if di is None and kind == 'int' and ty[0] == 'i':
                u = self.elem_unsigned(base, off)
                if u is not None:
                    lo, hi = self.ty_range(ty, u)
            if fl:
                finfo['field'] = fl[1]
                finfo['struct'] = fl[0]
            if kind == 'ptr':
                lo, hi = 0, INF
            a = atom(key, kind, lo, hi, finfo)
            if finfo.get('pointee'):
                self.tag_struct(a, 0, finfo['pointee'])
        return av(a)

    def ty_range(self, ty, unsigned):
        if ty[0] == 'i':
            w = ty[1]
            if w <= 1:
                return (0, 1)
            if unsigned is None:
                return (-(1 << (w - 1)), (1 << w) - 1)
            if unsigned:
                return (0, (1 << w) - 1 if w < 64 else (1 << 63) - 1)
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if ty == IR.PTR:
            return (0, INF)
        return (-INF, INF)

    def const_at(self, ty, init, off, size, want):
        """Constant initialiser value at byte offset."""
        k = init[0]
        tt = self.m.types
        if k == 'zero' or k == 'undef':
            return 0
        if k == 'str':
            if size == 1 and off < len(init[1]):
                b = init[1][off]
                return b if b < 128 else b - 256
            return None
        if ty[0] == 'st' and self.m.types.structs.get(ty[1]):
            ty = self.m.types.structs[ty[1]]
        if k == 'agg':
            if ty[0] == 'arr':
                es = tt.size(ty[2])
                i = off // es
                if 0 <= i < len(init[1]):
                    return self.const_at(init[1][i][0], init[1][i][1],
                                         off - i * es, size, want)
                return None
            o = 0
            for n, (t, v) in enumerate(init[1]):
                fo, ft = tt.field_offset(ty, n)
                fs = tt.size(ft)
                if fo <= off < fo + fs:
                    return self.const_at(ft, v, off - fo, size, want)
            return None
        if off != 0:
            return None
        if tt.size(ty) != size and k != 'null':
            return None
        return self.const_val(init, ty)

    # ---- constants & operands ---------------------------------------------
    def cstring(self, st, ptr):
        """Bytes of a constant string, or None."""
        b, off = self.base_off(st, ptr)
        if b is None or not isinstance(off, int):
            return None
        gi = A_INFO[b].get('ginit')
        if gi and gi[1][0] == 'str':
            return gi[1][1][off:].split(b'\0')[0]
        if gi and gi[1][0] in ('zero', 'zeroinit'):
            return b''
        return None

    def gatom(self, name):
        key = ('global', name)
        a = dom._intern.get(key)
        if a is not None and 'g' in A_INFO[a]:
            return a
        if name in self.m.functions or name in self.m.declares:
            return atom(('fn', name), 'fn', info={'g': 1})
        g = self.m.globals.get(name)
        info = {'g': g}
        if g is not None and g.init is not None and g.const:
            info['ginit'] = (g.ty, g.init)
        a = atom(key, 'obj', info=info)
        A_INFO[a].update(info)
        if g is not None and g.ty[0] == 'st' and g.ty[1].startswith('struct.'):
            self.tag_struct(a, 0, g.ty[1][7:])
        if g is not None:
            A_INFO[a]['size'] = self.m.types.size(g.ty)
        return a

    def const_val(self, v, ty):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null' or k == 'zero':
            return 0
        if k == 'g':
            return av(self.gatom(v[1]))
        if k == 'gep':
            b = self.const_val(v[2], IR.PTR)
            off = 0
            t = v[1]
            for n, (it, iv) in enumerate(v[3]):
                x = self.const_val(iv, it)
                if n == 0:
                    off = add(off, scale(x, self.m.types.size(t)))
                elif t[0] == 'arr':
                    t = t[2]
                    off = add(off, scale(x, self.m.types.size(t)))
                else:
                    fo, t = self.m.types.field_offset(t, x)
                    off = add(off, fo)
            return add(b, off)
        if k == 'cast':
            return self.const_val(v[3], v[2])
        if k == 'cbin':
            a = self.const_val(v[3], v[2])
            b = self.const_val(v[4], v[2])
            if v[1] == 'add':
                return add(a, b)
            if v[1] == 'sub':
                return sub(a, b)
            return av(fresh('cbin'))
        if k == 'undef':
            return 0
        if k == 'fp':
            return av(atom(('fpconst', v[1])))
        return av(fresh('const'))

    def val(self, st, env, v, ty=None):
        k = v[0]
        if k == 'l':
            x = env.get(v[1])
            if x is None:
                raise AnalysisError('undefined %' + v[1])
            return x
        if k == 'c':
            return v[1]
        if k == 'undef':
            lo, hi = self.ty_range(ty, None) if ty else (-INF, INF)
            return av(atom(('undef', self.ctx, ty), 'ptr' if ty == IR.PTR else 'int', lo, hi))
        if k == 'agg' or k == 'zero' and ty and ty[0] in ('st', 'lit', 'arr'):
            return ('AGG', v)
        return self.const_val(v, ty)

    def size_of(self, st, b):
        v = st.sz.get(b)
        return v if v is not None else A_INFO[b].get('size')

    # ---- memory ------------------------------------------------------------
    def deref(self, st, ptr, size, ins, write):
        """Assume ptr valid; tell the rule."""
        self.rule.on_deref(self, st, ptr, size, ins, write)
        p = st.f.res(ptr)
        if isinstance(p, int):
            if 0 <= p < 4096:
                raise Infeasible()
            return
        b, off = self.base_off(st, p)
        if b is not None and not is_obj(b):
            l, h = st.f.arange(b)
            if l <= 0 and isinstance(off, int):
                st.f.assume_ne0(av(b))

    def load(self, st, ptr, ty, ins):
        size = self.m.types.size(ty)
        if size > 8 or ty[0] in ('st', 'lit', 'arr'):
            self.deref(st, ptr, size, ins, False)
            return av(self.pf(st, ins, 'aggload'))
        self.deref(st, ptr, size, ins, False)
        base, off = self.base_off(st, ptr)
        if base is None:
            return self.unk(ty, 'load', st, ins)
        self.rule.on_load(self, st, base, off, size, ins)
        if A_KIND[base] == 'obj' and A_KEY[base][0] == 'global':
            gv = self.gvals.get((A_KEY[base][1], off if isinstance(off, int) else None))
            if gv is not None and base not in st.mem:
                return gv
        cells = st.mem.get(base)
        if cells is not None:
            c = cells.get(off)
            if c is not None:
                if c[0] == size:
                    v = c[1]
                    if ty != IR.PTR and ty[0] == 'i' and size < 8 and isinstance(v, int):
                        pass
                    return self.retype(v, ty)
                if isinstance(c[1], int) and c[1] == 0 and c[0] >= size:
                    return 0
                if c[0] == 1 and isinstance(off, int):
                    bs = [cells.get(off + k) for k in range(size)]
                    if all(b is not None and b[0] == 1 for b in bs):
                        return self.assemble([b[1] for b in bs], ty)
                if self.rule.bitmode and isinstance(off, int):
                    bs = [self.byte_at(st, base, off + k) for k in range(size)]
                    if all(b is not None for b in bs):
                        return self.assemble(bs, ty)
                return self.pun(st, base, off, size, ty, ins)
            if isinstance(off, int):
                if size in (2, 4, 8) and off not in cells or off in cells and cells[off][0] < size:
                    bs = [cells.get(off + k) for k in range(size)]
                    if all(b is not None and b[0] == 1 for b in bs):
                        return self.assemble([b[1] for b in bs], ty)
                if self.rule.bitmode:
                    bs = [self.byte_at(st, base, off + k) for k in range(size)]
                    if all(b is not None for b in bs):
                        return self.assemble(bs, ty)
                for o, (sz, v) in cells.items():
                    if isinstance(o, int) and o < off + size and off < o + sz:
                        if v == 0 and isinstance(v, int) and o <= off and off + size <= o + sz:
                            return 0
                        return self.pun(st, base, off, size, ty, ins)
            else:
                # symbolic offset: maybe equal to some cell
                for o in cells:
                    if not isinstance(o, int):
                        d = st.f.res(sub(o, off))
                        if d == 0:
                            return self.retype(cells[o][1], ty)
                if st.ver.get(base) is None and A_INFO[base].get('zero') and not cells:
                    return 0
                return self.unk(ty, 'idx', st, ins, self.elem_unsigned(base, off))
        v = self.init_val(st, base, off, size, ty)
        if isinstance(v, Lin):
            self.rule.on_init(self, st, base, off, size, v)
        if isinstance(off, int):
            st.wcells(base)[off] = (size, v)
        else:
            if isinstance(v, Lin):
                st.wcells(base)[off] = (size, v)
        return v

    def pun(self, st, base, off, size, ty, ins):
        """A load across cells of other sizes: unknown, the same when repeated."""
        if self.rule.pun_bytes and isinstance(off, int) and size <= 8:
            zero = st.ver.get(base) == ('zero',)
            cells = st.mem.get(base, {})
            bs = {}
            for o, (sz, v) in cells.items():
                if isinstance(o, int) and o < off + size and off < o + sz:
                    for k in range(max(o, off), min(o + sz, off + size)):
                        if isinstance(v, int):
                            bs[k] = (v >> (8 * (k - o))) & 255 if k - o < 8 else 0 if v == 0 else None
                        else:
                            bs[k] = v if sz == 1 else None
                elif not isinstance(o, int):
                    zero = False
            vs = [bs.get(k, 0 if zero else None) for k in range(off, off + size)]
            if all(b is not None for b in vs):
                return self.assemble(vs, ty)
        v = self.unk(ty, 'pun', st, ins)
        if isinstance(off, int) and not self.rule.bitmode:
            cells = st.wcells(base)
            ov = [o for o in cells if isinstance(o, int) and o < off + size and off < o + cells[o][0]]
            if all(off <= o and o + cells[o][0] <= off + size for o in ov):
                for o in ov:
                    del cells[o]
                cells[off] = (size, v)
        return v

    def byte_at(self, st, base, off):
        """Value of one byte (bit mode), or None."""
        for o, (sz, v) in st.mem.get(base, {}).items():
            if isinstance(o, int) and o <= off < o + sz:
                if sz > 8:
                    return 0 if isinstance(v, int) and v == 0 else None
                if is_cond(v):
                    return None
                b = BV.bits_of(st, v, 8 * sz)
                if b is None:
                    return None
                return BV.make(b[8 * (off - o):8 * (off - o) + 8])
        return None

    def assemble(self, bs, ty):
        """Little endian value made of separate bytes."""
        if self.rule.bitmode:
            out = []
            for b in bs:
                x = BV.bits_of(State0, b, 8)
                if x is None:
                    break
                out += x
            else:
                return BV.make(out)
        if all(isinstance(b, int) for b in bs):
            return sum((b & 255) << (8 * k) for k, b in enumerate(bs))
        lo, hi = 0, (1 << (8 * len(bs))) - 1
        return av(atom(('op', 'le') + tuple(bs), 'int', lo, hi))

    def retype(self, v, ty):
        if ty == ('i', 1) and isinstance(v, int):
            return v & 1
        return v

    def unk(self, ty, tag, st=None, ins=None, unsigned=None):
        if ty == ('i', 1):
            lo, hi = 0, 1
        else:
            lo, hi = self.ty_range(ty, unsigned)
        kind = 'ptr' if ty == IR.PTR else 'int'
        if st is None or ins is None:
            return av(fresh(tag, kind, lo, hi))
        return av(self.pf(st, ins, tag, kind, lo, hi))

    def elem_unsigned(self, base, off):
        """Signedness of the array element a symbolic offset selects."""
        d = self.structs_of.get(base)
        if not d:
            return None
        c = off if isinstance(off, int) else off.c
        for s0, n in d.items():
            fl = self.m.struct_fields().get(n) or {}
            for o, es in fl.items():
                for nm, sz, t in es:
                    if o <= c - s0 < o + sz:
                        k, dd = self.m.mdnode(self.m.strip_type(t) or -1)
                        if k == 'DICompositeType' and dd.get('tag') == 'DW_TAG_array_type':
                            b = dd.get('baseType')
                            return self.m.di_unsigned(b[1]) if b else None
        return None

    def store(self, st, ptr, val, size, ins):
        self.deref(st, ptr, size, ins, True)
        base, off = self.base_off(st, ptr)
        if base is None:
            return
        self.rule.on_store(self, st, base, off, size, val, ins)
        self.raw_store(st, base, off, size, val, ins)

    def raw_store(self, st, base, off, size, val, ins=None):
        if is_cond(val):
            val = self.cond_to_val(val)
        cells = st.wcells(base)
        if isinstance(off, int):
            for o in list(cells):
                if o == off and cells[o][0] == size:
                    continue
                if not isinstance(o, int):
                    del cells[o]
                    continue
                if o < off + size and off < o + cells[o][0]:
                    sz, v = cells.pop(o)
                    if isinstance(v, int) and v == 0:
                        # keep the zero parts
                        if o < off:
                            cells[o] = (off - o, 0)
                        if o + sz > off + size:
                            cells[off + size] = (o + sz - off - size, 0)
            cells[off] = (size, val)
        else:
            # weak update of the array member, else of the whole object
            ext = self.member(base, st.f.res(off).c if isinstance(st.f.res(off), Lin) else st.f.res(off))
            if ext is not None and not (ext[0] == 0 and ext[1] == self.size_of(st, base)):
                self.clear_range(st, base, ext[0], ext[1] - ext[0], ins)
                st.wcells(base)[off] = (size, val)
                return
            keep = {}
            lo, hi = st.f.range(st.f.res(off))
            for o, c in cells.items():
                if isinstance(o, int) and (o + c[0] <= lo or o > hi + size):
                    keep[o] = c
                elif not isinstance(o, int):
                    d = st.f.res(sub(st.f.res(o), st.f.res(off)))
                    if isinstance(d, int) and (d >= size or d + c[0] <= 0):
                        keep[o] = c
            cells.clear()
            cells.update(keep)
            st.ver[base] = self.tok(st, ins, 'w')
            # untouched constant fields below/above keep their value only if in keep
            cells[off] = (size, val)

    def member(self, b, c):
        """Extent of the innermost array member that contains offset c."""
        best = None
        for s0, sn in (self.structs_of.get(b) or {}).items():
            for o, es in (self.m.struct_fields().get(sn) or {}).items():
                if s0 + o > c:
                    continue
                for nm, sz, t in es:
                    if c < s0 + o + sz and (best is None or sz < best[1] - best[0]):
                        k, dd = self.m.mdnode(self.m.strip_type(t) or -1)
                        if dd.get('tag') == 'DW_TAG_array_type':
                            best = (s0 + o, s0 + o + sz)
        return best

    def clobber(self, st, b, off, ins, tag):
        """A write of unknown extent: limited to the array member it starts in
        (the bounds rule proves that it stays there)."""
        ext = self.member(b, off if isinstance(off, int) else off.c)
        if ext is not None and not (ext[0] == 0 and ext[1] == self.size_of(st, b)):
            self.clear_range(st, b, ext[0], ext[1] - ext[0], ins)
            return
        cells = st.wcells(b)
        if isinstance(off, int):
            for o in list(cells):
                if not isinstance(o, int) or o + cells[o][0] > off:
                    del cells[o]
        else:
            lo = st.f.range(off)[0]
            for o in list(cells):
                if not isinstance(o, int) or o + cells[o][0] > lo:
                    del cells[o]
        st.ver[b] = self.tok(st, ins, tag)

    def havoc_obj(self, st, base, lo=None, hi=None, ins=None):
        if A_KIND[base] == 'fn':
            return
        cells = st.wcells(base)
        if lo is None:
            cells.clear()
        else:
            for o in list(cells):
                if not isinstance(o, int) or (o < hi and lo < o + cells[o][0]):
                    del cells[o]
            # cells outside stay; future loads in range need a new version,
            # but unmaterialised cells outside the range would change too:
            # acceptable (havoc more)
        st.ver[base] = self.tok(st, ins, 'hv') if ins is not None else fresh('hv')

    # ---- conditions --------------------------------------------------------
    def cond_to_val(self, c):
        if isinstance(c, int):
            return c
        return av(atom(('op', 'bool', c), 'int', 0, 1))

    def as_cond(self, v):
        """Value of type i1 -> cond."""
        if isinstance(v, int):
            return v & 1
        if is_cond(v):
            return v
        if isinstance(v, Lin):
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                k = A_KEY[v.t[0][0]]
                if k[0] == 'op' and k[1] == 'bool':
                    return k[2]
            return ('cmp', 'ne', v, 0, 1)
        raise AnalysisError('cond')

    def negate(self, c):
        if isinstance(c, int):
            return 1 - (c & 1)
        if c[0] == 'not':
            return c[1]
        if c[0] == 'cmp':
            inv = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult',
                   'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt',
                   'sle': 'sgt', 'sgt': 'sle'}
            return ('cmp', inv[c[1]], c[2], c[3], c[4])
        if c[0] == 'and':
            return ('or', self.negate(c[1]), self.negate(c[2]))
        if c[0] == 'or':
            return ('and', self.negate(c[1]), self.negate(c[2]))
        return ('not', c)

    def split(self, st, c):
        """Assume c on st: list of states in which c holds (st may be reused)."""
        if isinstance(c, int):
            return [st] if c & 1 else []
        if c[0] == 'and':
            out = []
            for s in self.split(st, c[1]):
                out += self.split(s, c[2])
            return out
        if c[0] == 'or':
            # c1 or (not c1 and c2)
            s2 = st.fork()
            out = self.split(st, c[1])
            for s in self.split(s2, self.negate(c[1])):
                out += self.split(s, c[2])
            return out
        if c[0] == 'not':
            return self.split(st, self.negate(c[1])) if c[1][0] != 'op1' else [st]
        if c[0] == 'cmp':
            try:
                return self.assume_cmp(st, c)
            except Infeasible:
                return []
        return [st]

    def unbool(self, v):
        if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
            k = A_KEY[v.t[0][0]]
            if k[0] == 'op' and k[1] == 'bool':
                return k[2]
        return None

    def assume_cmp(self, st, c):
        _, pred, a, b, w = c
        f = st.f
        a = f.res(a)
        b = f.res(b)
        # boolean-valued integers
        for x, y in ((a, b), (b, a)):
            ub = self.unbool(x)
            if ub is not None and isinstance(y, int):
                if pred == 'eq':
                    return self.split(st, ub if y == 1 else
                                      (self.negate(ub) if y == 0 else 0))
                if pred == 'ne':
                    return self.split(st, self.negate(ub) if y == 1 else
                                      (ub if y == 0 else 1))
        d = sub(a, b)
        if pred in ('eq', 'ne'):
            if isinstance(b, int) and b < 0 and isinstance(a, Lin) and w > 1:
                lo, hi = f.range(a)
                if lo >= 0 and hi >= (1 << (w - 1)):
                    d = sub(a, b + (1 << w))
            if isinstance(a, int) and isinstance(b, int) and w > 1:
                if (a - b) % (1 << w) == 0:
                    d = 0
            if pred == 'eq':
                f.assume_eq0(d)
            else:
                f.assume_ne0(d)
            self.op_facts(st, a, b, pred)
            return [st]
        if pred[0] == 'u':
            if pred in ('ugt', 'uge'):
                a, b = b, a
                pred = 'ult' if pred == 'ugt' else 'ule'
            strict = pred == 'ult'
            # a <u b
            if isinstance(a, int) and a < 0:
                a += 1 << w
            if isinstance(b, int) and b < 0:
                b += 1 << w
            if f.nonneg(b):
                # then a (as unsigned) is below 2^(w-1) only if b is; assume sizes are
                if not isinstance(a, int):
                    f.assume_le0(scale(a, -1))
                d = sub(a, b)
                f.assume_le0(add(d, 1) if strict else d)
            elif f.nonneg(a):
                # a <= ub; b maybe negative (huge): nothing known
                if isinstance(a, int) and isinstance(b, Lin) and a == 0 and strict:
                    f.assume_ne0(b)
            return [st]
        # signed
        if pred in ('sgt', 'sge'):
            a, b = b, a
            pred = 'slt' if pred == 'sgt' else 'sle'
        cases = [(st, a, b)]
        if 8 <= w <= 32:
            # an unsigned value compared as signed: its upper half is negative
            for k in (1, 2):
                nxt = []
                for t in cases:
                    s, x = t[0], t[k]
                    if isinstance(x, Lin):
                        lo, hi = s.f.range(x)
                        if hi >= 1 << (w - 1) and lo > -(1 << (w - 1)) and hi < 1 << w:
                            s2 = s.fork()
                            try:
                                s2.f.assume_le0(sub(1 << (w - 1), x))
                                y = sub(x, 1 << w)
                                nxt.append((s2, y, t[2]) if k == 1 else (s2, t[1], y))
                            except Infeasible:
                                pass
                            try:
                                s.f.assume_le0(sub(x, (1 << (w - 1)) - 1))
                            except Infeasible:
                                continue
                    nxt.append(t)
                cases = nxt
        out = []
        for s, a, b in cases:
            d = sub(a, b)
            try:
                s.f.assume_le0(add(d, 1) if pred == 'slt' else d)
                out.append(s)
            except Infeasible:
                pass
        return out

    def op_facts(self, st, a, b, pred):
        """Extra facts from comparisons with op atoms (x & m) == 0 etc."""
        return

    # ---- arithmetic --------------------------------------------------------
    def opatom(self, st, name, args, lo, hi):
        return av(atom(('op', name) + tuple(args), 'int', lo, hi))

    def fit(self, st, v, ty, lo=None, hi=None):
        return v

    def binop(self, st, op, ty, a, b):
        f = st.f
        w = ty[1] if ty[0] == 'i' else 64
        if ty[0] == 'f':
            if is_cond(a):
                a = self.cond_to_val(a)
            return av(atom(('op', op, a, b)))
        if w == 1:
            ca, cb = self.as_cond(a), self.as_cond(b)
            if op == 'and':
                if isinstance(ca, int):
                    return cb if ca else 0
                if isinstance(cb, int):
                    return ca if cb else 0
                return ('and', ca, cb)
            if op == 'or':
                if isinstance(ca, int):
                    return 1 if ca else cb
                if isinstance(cb, int):
                    return 1 if cb else ca
                return ('or', ca, cb)
            if op == 'xor':
                if isinstance(cb, int):
                    return self.negate(ca) if cb else ca
                if isinstance(ca, int):
                    return self.negate(cb) if ca else cb
            return self.unk(ty, op)
        if is_cond(a):
            a = self.cond_to_val(a)
        if is_cond(b):
            b = self.cond_to_val(b)
        a = f.res(a)
        b = f.res(b)
        both = isinstance(a, int) and isinstance(b, int)
        if self.rule.bitmode and not both and ty[0] == 'i':
            r = BV.binop(st, op, w, a, b)
            if r is not None:
                if op == 'and' and isinstance(b, int) and isinstance(a, Lin) and isinstance(r, Lin):
                    inv = ~b & ((1 << w) - 1)
                    lo, hi = f.range(a)
                    if inv & (inv + 1) == 0 and inv < (1 << (w - 1)) and lo >= 0 and hi < (1 << w):
                        f.add_lin(sub(r, a))
                        f.add_lin(sub(sub(a, inv), r))
                return r
        if op == 'add':
            r = add(a, b)
            return wrapc(r, w) if isinstance(r, int) else r
        if op == 'sub':
            r = sub(a, b)
            return wrapc(r, w) if isinstance(r, int) else r
        if op == 'mul':
            if isinstance(b, int):
                r = scale(a, b)
            elif isinstance(a, int):
                r = scale(b, a)
            else:
                return self.opatom(st, 'mul', (a, b), -INF, INF)
            return wrapc(r, w) if isinstance(r, int) else r
        if op == 'shl' and isinstance(b, int) and 0 <= b < w:
            r = scale(a, 1 << b)
            if isinstance(r, int):
                return wrapc(r, w)
            lo, hi = f.range(r)
            if hi < (1 << w):
                return r
            return self.opatom(st, 'shl', (a, b), 0, (1 << w) - 1)
        M = (1 << w) - 1
        if both:
            ua, ub = a & M, b & M
            try:
                if op == 'and':
                    return wrapc(ua & ub, w)
                if op == 'or':
                    return wrapc(ua | ub, w)
                if op == 'xor':
                    return wrapc(ua ^ ub, w)
                if op == 'lshr':
                    return wrapc(ua >> ub, w) if ub < w else 0
                if op == 'ashr':
                    return wrapc(a, w) >> ub if ub < w else 0
                if op == 'udiv':
                    return wrapc(ua // ub, w)
                if op == 'urem':
                    return wrapc(ua % ub, w)
                if op == 'sdiv':
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                if op == 'srem':
                    r = abs(a) % abs(b)
                    return r if a >= 0 else -r
            except ZeroDivisionError:
                return self.unk(ty, op)
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b == -1 or (b & M) == M:
                    return a
                lo, hi = f.range(a)
                ub = b & M
                # alignment mask: ~(2^k - 1) over the full width
                inv = (~ub) & M
                if lo >= 0 or f.nonneg(a):
                    if inv & (inv + 1) == 0 and inv < (1 << (w - 1)):
                        r = self.opatom(st, 'and', (a, ub), 0, INF)
                        ra = r
                        st.f.add_lin(sub(ra, a)); st.f.add_lin(sub(sub(a, inv), ra))
                        return r
                    if ub & (ub + 1) == 0 and hi <= ub:
                        return a
                    # at most a, at most the mask
                    if ub < (1 << (w - 1)):
                        r = self.opatom(st, 'and', (a, ub), 0, ub)
                    else:
                        r = self.opatom(st, 'and', (a, ub), 0, INF)
                    st.f.add_lin(sub(r, a))
                    return r
                return self.opatom(st, 'and', (a, ub), 0, ub if ub < (1 << (w - 1)) or True else INF)
            return self.opatom(st, 'and', tuple(sorted((a, b), key=lambda x: x.t)), -INF, INF)
        if op == 'or':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a
            lo, hi = f.range(a)
            lob, hib = f.range(b)
            if lo >= 0 and lob >= 0 and hi < INF and hib < INF:
                m = 1
                while m <= max(hi, hib):
                    m <<= 1
                return self.opatom(st, 'or', (a, b), max(lo, lob), m - 1)
            return self.opatom(st, 'or', (a, b), -INF, INF)
        if op in ('lshr', 'udiv') and isinstance(b, int) and b > 0:
            dv = (1 << b) if op == 'lshr' else b
            lo, hi = f.range(a)
            if hi >= M >> 1:
                lo, hi = 0, M
            if lo >= 0:
                r = self.opatom(st, op, (a, b), lo // dv, hi // dv if hi < INF else M // dv)
                if op == 'udiv' and isinstance(r, Lin) and isinstance(a, Lin) and hi < (1 << 62):
                    st.f.add_lin(sub(scale(r, dv), a))
                    st.f.add_lin(sub(a, add(scale(r, dv), dv - 1)))
                return r
            return self.opatom(st, op, (a, b), 0, M // dv)
        if op == 'urem' and isinstance(b, int) and b > 0:
            return self.opatom(st, op, (a, b), 0, b - 1)
        if op == 'ashr':
            return self.opatom(st, op, (a, b), -INF, INF)
        if op == 'shl':
            return self.opatom(st, op, (a, b), -(1 << (w - 1)), M)
        return self.opatom(st, op + str(w), (a, b), -(1 << (w - 1)) if w < 64 else -INF, M if w < 64 else INF)

    def cast(self, st, op, v, frm, to):
        if self.rule.bitmode and op in ('zext', 'sext', 'trunc') and frm[0] == 'i' and frm[1] > 1 and \
                to[1] > 1 and not is_cond(v) and not isinstance(st.f.res(v), int):
            x = st.f.res(v)
            if op == 'trunc' and A_KEY[x.t[0][0]][0] == 'bv' and st.f.prove_le(0, x) and \
                    st.f.prove_le(x, (1 << (to[1] - 1)) - 1):
                return x
            r = BV.cast(st, op, v, frm[1], to[1])
            if r is not None:
                return r
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return v
        if op in ('zext', 'sext'):
            if frm == ('i', 1):
                c = self.as_cond(v)
                r = self.cond_to_val(c)
                if op == 'sext':
                    return scale(r, -1)
                return r
            if isinstance(v, int):
                if op == 'zext':
                    return v & ((1 << frm[1]) - 1)
                return v
            if is_cond(v):
                v = self.cond_to_val(v)
            v = st.f.res(v)
            if isinstance(v, int):
                return v & ((1 << frm[1]) - 1) if op == 'zext' else v
            lo, hi = st.f.range(v)
            if op == 'zext':
                if lo >= 0 and hi < (1 << frm[1]):
                    return v
                if len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 and hi < (1 << frm[1]) \
                        and hi >= (1 << (frm[1] - 1)) and lo == -(1 << (frm[1] - 1)) \
                        and v.t[0][0] not in st.f.iv:
                    # atom of unknown signedness used as unsigned
                    st.f.iv[v.t[0][0]] = (0, hi)
                    return v
                if st.f.nonneg(v) and (hi < (1 << frm[1]) or st.f.prove_le(v, (1 << frm[1]) - 1)):
                    return v
                return self.opatom(st, 'zext%d' % frm[1], (v,), 0, (1 << frm[1]) - 1)
            if hi < (1 << (frm[1] - 1)) and lo >= -(1 << (frm[1] - 1)):
                return v
            if len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 and lo == -(1 << (frm[1] - 1)) \
                    and v.t[0][0] not in st.f.iv:
                st.f.iv[v.t[0][0]] = (lo, (1 << (frm[1] - 1)) - 1)
                return v
            return self.opatom(st, 'sext%d' % frm[1], (v,), -(1 << (frm[1] - 1)), (1 << (frm[1] - 1)) - 1)
        if op == 'trunc':
            w = to[1]
            if isinstance(v, int):
                if w == 1:
                    return v & 1
                return wrapc(v, w)
            if is_cond(v):
                v = self.cond_to_val(v)
            v = st.f.res(v)
            if isinstance(v, int):
                return wrapc(v, w) if w > 1 else v & 1
            lo, hi = st.f.range(v)
            if w == 1:
                if lo >= 0 and hi <= 1:
                    return self.as_cond(v)
                return self.cond_to_val(('cmp', 'ne', self.opatom(st, 'and', (v, 1), 0, 1), 0, 8))
            if (lo >= 0 and hi < (1 << w)) or (lo >= -(1 << (w - 1)) and hi < (1 << (w - 1))):
                return v
            if w == 32 and len(v.t) > 1 and st.f.nonneg(v) and st.f.prove_le(v, (1 << 31) - 1):
                return v
            if w == 32 and self.rule.bounds and st.f.nonneg(v) and st.f.prove_le(v, (1 << 32) - 1):
                return v
            # strip an inner zext/sext of same width
            r = self.opatom(st, 'trunc%d' % w, (v,), -(1 << (w - 1)), (1 << w) - 1)
            if lo >= 0:
                a = r.t[0][0]
                if a not in st.f.iv:
                    st.f.add_lin(sub(r, v))
            return r
        if is_cond(v):
            v = self.cond_to_val(v)
        return av(atom(('op', op, v)))

    # ---- execution ---------------------------------------------------------
    def run_function(self, fn, args, st):
        """Interpret fn; returns list of (state, ret)."""
        self.stats['calls'] += 1
        self.visited_fns.add(fn.name)
        self.stack.append(fn.name)
        try:
            env = {}
            for (t, nm), a in zip(fn.params, args):
                env[nm] = a
            self.tag_args(fn, args, st)
            if fn.vararg:
                env['...'] = tuple(args[len(fn.params):])
            self.rule.on_enter(self, st, fn, args)
            L = self.li(fn)
            exits, backs, rets = self.explore(fn, L, fn.blocks[0], None, [(None, env, st)],
                                              set(L.rpo), None)
            out = {}
            res = []
            for s, r in rets:
                self.kill_frame(s, fn)
                self.rule.on_leave(self, s, fn, args, r)
                if not self.rule.merge:
                    res.append((s, r))
                    continue
                key = (s.f.res(r) if r is not None and not is_cond(r) else r, s.sig())
                o = out.get(key)
                if o is None:
                    out[key] = [s, r]
                else:
                    self.stats['merged'] += 1
                    self.merge_into(o[0], s, ('ret', id(fn)))
            if self.rule.merge:
                res = [(s, r) for s, r in out.values()]
                if len(res) > self.rule.max_out:
                    res = [(s, e['ret']) for e, s in self.collapse(
                        [({'ret': r}, s) for s, r in res], ('ret', id(fn)))]
            return res
        finally:
            self.stack.pop()

    def merge_into(self, a, b, where):
        f0 = a.f
        a.f = f0.merge(b.f)
        for o in self.rule.inv_objects(self, a):
            if not self.rule.inv_ok(self, a, o):
                f1, a.f = a.f, f0
                ok = self.rule.inv_ok(self, a, o) and self.rule.inv_ok(self, b, o)
                a.f = f1
                if ok:
                    self.rule.inv_assume(self, a, o)
        if a.epoch < b.epoch:
            a.epoch = b.epoch
        ea = a.mem.get(ERRNO)
        eb = b.mem.get(ERRNO)
        if ea != eb:
            k = ('at', self.ctx, where, a.epoch, 'errno')
            x = self._ctxid.get(k)
            if x is None:
                x = fresh('errno', 'int', 0, 4095)
                self._ctxid[k] = x
            a.f.iv.pop(x, None)
            a.wcells(ERRNO)[0] = (4, av(x))

    # -- joining too many states (ESP style: partition by rule state, the value
    # returned and the owned pointers; everything else is joined cell by cell)
    def vclass(self, st, v):
        if v is None or is_cond(v):
            return v
        v = st.f.res(v)
        if isinstance(v, int):
            return v
        for a, k in v.t:
            if A_KIND[a] in ('obj', 'fn') or A_INFO[a].get('heap'):
                return v
            if A_KIND[a] == 'ptr':
                return ('p', st.f.range(v)[0] > 0)
        lo, hi = st.f.range(v)
        return ('i', 1 if lo > 0 else 2 if lo >= 0 else 3 if hi < 0 else 0)

    def collapse(self, items, where):
        parts = {}
        for e, s in items:
            own = []
            for b, cells in s.mem.items():
                if b == ERRNO:
                    continue
                for o, (sz, v) in cells.items():
                    if isinstance(v, Lin):
                        v = s.f.res(v)
                    if isinstance(v, Lin):
                        for a, k in v.t:
                            if A_INFO[a].get('heap') or A_KIND[a] == 'fn':
                                own.append((b, o, v))
                                break
            ek = tuple((n, self.vclass(s, e[n])) for n in sorted(e) if n != '...')
            key = (ek, frozenset(own), frozenset(s.heap.items()), s.rs,
                   self.rule.join_key(self, s))
            parts.setdefault(key, []).append((e, s))
        out = []
        for n, its in enumerate(parts.values()):
            if len(its) == 1:
                out.append(its[0])
                continue
            self.stats['merged'] += len(its) - 1
            out.append(self.join(its, where + (n,)))
        return out

    def jatom(self, where, ep, what, vals):
        """vals: list of (state, value)."""
        k = ('at', self.ctx, 'join', where, ep, what)
        a = self._ctxid.get(k)
        rs = [(s.f.res(v) if not is_cond(v) else self.cond_to_val(v)) for s, v in vals]
        lo = min(s.f.range(r)[0] for (s, _), r in zip(vals, rs))
        hi = max(s.f.range(r)[1] for (s, _), r in zip(vals, rs))
        for t in self.rule.bounds:
            if hi > t and all(s.f.prove_le(r, t) for (s, _), r in zip(vals, rs)):
                hi = t
        isptr = any(isinstance(r, Lin) and any(A_KIND[x] in ('ptr', 'obj', 'fn')
                                               for x, _ in r.t) for r in rs)
        if a is None:
            a = fresh('join', 'ptr' if isptr else 'int', 0 if isptr else -INF, INF)
            self._ctxid[k] = a
            for r in rs:
                if isinstance(r, Lin) and isptr:
                    for x, _ in r.t:
                        if A_KIND[x] in ('ptr', 'obj'):
                            for o, sn in self.structs_of.get(x, {}).items():
                                self.structs_of.setdefault(a, {}).setdefault(o, sn)
                            if 'pointee' in A_INFO[x]:
                                A_INFO[a].setdefault('pointee', A_INFO[x]['pointee'])
        return a, lo, hi

    def join(self, its, where):
        e0, s0 = its[0]
        ep = max(s.epoch for _, s in its)
        r = State()
        r.epoch = ep
        r.rs = s0.rs
        r.heap = dict(s0.heap)
        r.trace = s0.trace
        f = s0.f
        for _, s in its[1:]:
            f = f.merge(s.f)
        r.f = f.copy() if f is s0.f else f
        joined = []
        bases = set()
        for _, s in its:
            bases |= set(s.mem) | set(s.ver)
        for b in bases:
            have = [s for _, s in its if b in s.mem or b in s.ver]
            vers = set(s.ver.get(b, 0) for s in have)
            if len(vers) == 1:
                v = vers.pop()
                if v != 0:
                    r.ver[b] = v
            else:
                r.ver[b] = ('t', self.ctx, 'join', where, ep, b)
            offs = set()
            for s in have:
                offs |= set(s.mem.get(b, ()))
            cells = {}
            for o in offs:
                vs = []
                ok = True
                for s in have:
                    c = s.mem.get(b, {}).get(o)
                    if c is None:
                        if not isinstance(o, int):
                            ok = False
                            break
                        vs.append((s, None))
                    else:
                        vs.append((s, c))
                if not ok:
                    if len(set(s.ver.get(b, 0) for s in have)) == 1:
                        r.ver[b] = ('t', self.ctx, 'join', where, ep, b)
                    continue
                szs = set(c[0] for s, c in vs if c is not None)
                if len(szs) != 1:
                    cells[o] = (min(szs), av(fresh('jsz')))
                    continue
                sz = szs.pop()
                if sz == 0:
                    continue
                vv = []
                isp = any(c is not None and isinstance(c[1], Lin) and
                          any(A_KIND[x] == 'ptr' for x, _ in c[1].t) for s, c in vs)
                for s, c in vs:
                    if c is None:
                        vv.append((s, self.init_val(s, b, o, sz, IR.PTR if isp and sz == 8
                                                    else ('i', sz * 8))))
                    else:
                        vv.append((s, c[1]))
                v0 = vv[0][1]
                if all(v == v0 for _, v in vv):
                    cells[o] = (sz, v0)
                    continue
                if len(have) < len(its) and A_KEY[b][0] not in ('heap', 'alloca'):
                    vv += [(s, self.init_val(s, b, o, sz, ('i', sz * 8)))
                           for _, s in its if s not in have]
                a, lo, hi = self.jatom(where, ep, (b, o), vv)
                joined.append((a, vv, lo, hi, b))
                cells[o] = (sz, av(a))
            if b in set().union(*[set(s.mem) for s in have]):
                r.mem[b] = cells
                r.own.add(b)
        for b in set().union(*[set(s.sz) for _, s in its]):
            vs = [(s, s.sz[b]) for _, s in its if b in s.sz]
            if all(v == vs[0][1] for _, v in vs):
                r.sz[b] = vs[0][1]
            elif all(v is not None for _, v in vs):
                a, lo, hi = self.jatom(where, ep, ('sz', b), vs)
                joined.append((a, vs, lo, hi, b))
                r.sz[b] = av(a)
            else:
                r.sz[b] = None
        env = {}
        names = set(e0)
        for e, s in its:
            names &= set(e)
        for n in names:
            v0 = e0[n]
            if all(e[n] == v0 for e, s in its):
                env[n] = v0
                continue
            vv = [(s, e[n]) for e, s in its]
            a, lo, hi = self.jatom(where, ep, n, vv)
            joined.append((a, vv, lo, hi, None))
            env[n] = av(a)
        for a, vv, lo, hi, _ in joined:
            r.f.bind.pop(a, None)
            if hi <= lo:
                r.f.iv[a] = (lo, hi)
                r.f.bind[a] = lo
            else:
                r.f.iv[a] = (lo, hi)
        # drop stale facts about the joined atoms
        objs = self.rule.inv_objects(self, r)
        jb = set(a[4] for a in joined)
        ja = set(x[0] for x in joined)
        if ja:
            r.f.lin = tuple(c for c in r.f.lin if not any(x in ja for x, _ in c.t))
            r.f.ne = frozenset(c for c in r.f.ne if not any(x in ja for x, _ in c.t))
        for o in objs:
            if o[0] not in jb and self.rule.inv_ok(self, r, o):
                continue
            if all(self.rule.inv_ok(self, s, o) for _, s in its):
                self.rule.inv_assume(self, r, o)
        return env, r

    def tag_args(self, fn, args, st):
        dt = self.m.param_types(fn)
        for n, a in enumerate(args[:len(fn.params)]):
            if n + 1 < len(dt) and dt[n + 1] is not None and fn.params[n][0] == IR.PTR:
                sn = self.m.di_struct_name(dt[n + 1])
                if sn and isinstance(a, Lin):
                    b, off = self.base_off(st, a)
                    if b is not None and isinstance(off, int) and \
                            ('struct.' + sn) in self.m.types.structs and \
                            self.m.types.structs['struct.' + sn] is not None:
                        self.tag_struct(b, off, sn)

    def kill_frame(self, st, fn):
        """Drop allocas of a returning frame."""
        d = len(self.stack)
        dead = [b for b in st.mem if A_KEY[b][0] == 'alloca' and A_KEY[b][1] >= d]
        for b in dead:
            del st.mem[b]
        for b in [b for b in st.ver if A_KEY[b][0] == 'alloca' and A_KEY[b][1] >= d]:
            del st.ver[b]

    def explore(self, fn, L, entry, _unused, items, allowed, header):
        """Explore blocks of `allowed` starting at `entry` for the given items
        (pred block name, env, state).  Returns (exits, backs, rets):
        exits: list of (succ block, pred name, env, state) leaving `allowed`;
        backs: list of (pred name, env, state) reaching `header` again."""
        import heapq
        exits, backs, rets = [], [], []
        pending = {}   # block -> {sig: (env, st)}
        order = []
        inq = set()

        def push(blk, pred, env, st):
            """evaluate phis and enqueue/merge."""
            phis = [i for i in blk.ins if i.op == 'phi']
            if phis and pred is not None:
                new = {}
                for i in phis:
                    v = self.val(st, env, i.x[pred], i.ty)
                    new[i.dest] = v
                env = dict(env)
                env.update(new)
            q = pending.setdefault(blk, {})
            if self.rule.merge:
                lv = L.live[blk]

                def mksig(env, st):
                    return (tuple([(n, env[n]) for n in sorted(lv) if n in env]), st.sig())
                if not q:
                    # signed when another state comes
                    q[None] = (env, st)
                    if blk not in inq:
                        inq.add(blk)
                        heapq.heappush(order, (L.rpo[blk], blk.idx, blk))
                    return
                if None in q:
                    e0 = q.pop(None)
                    q[mksig(*e0)] = e0
                sig = mksig(env, st)
                o = q.get(sig)
                if o is not None:
                    self.stats['merged'] += 1
                    self.merge_into(o[1], st, ('blk', id(blk)))
                    return
            else:
                sig = len(q)
            q[sig] = (env, st)
            if blk not in inq:
                inq.add(blk)
                heapq.heappush(order, (L.rpo[blk], blk.idx, blk))

        for pred, env, st in items:
            push(entry, pred, env, st)
        while order:
            _, _, blk = heapq.heappop(order)
            inq.discard(blk)
            work = list(pending.pop(blk, {}).values())
            if len(work) > self.rule.max_join and self.rule.merge:
                lv = L.live[blk]
                work = self.collapse([({n: e[n] for n in e if n in lv}, s)
                                      for e, s in work], ('blk', id(blk)))
            if blk in L.loops and blk is not header:
                body = L.loops[blk]
                for env, st in work:
                    ex, rt = self.run_loop(fn, L, blk, env, st)
                    rets.extend(rt)
                    for succ, pred, e, s in ex:
                        if succ is header:
                            backs.append((pred, e, s))
                        elif succ in allowed:
                            push(succ, pred, e, s)
                        else:
                            exits.append((succ, pred, e, s))
                continue
            for env, st in work:
                for kind, data in self.exec_block(fn, blk, env, st):
                    if kind == 'ret':
                        rets.append(data)
                    else:
                        succ, e, s = data
                        if succ is header:
                            backs.append((blk.name, e, s))
                        elif succ in allowed:
                            push(succ, blk.name, e, s)
                        else:
                            exits.append((succ, blk.name, e, s))
        return exits, backs, rets

    # -- loops
    def leaf_loop(self, L, h):
        k = ('leaf', id(h))
        r = self._ctxid.get(k)
        if r is None:
            r = True
            for b in L.loops[h]:
                if b is not h and b in L.loops:
                    r = False
                for i in b.ins:
                    if i.op in ('call', 'invoke'):
                        c = i.x[0]
                        if c[0] != 'g' or c[1] in self.m.functions:
                            r = False
            self._ctxid[k] = r
        return r

    @staticmethod
    def cycle(edges, a, b):
        """Add the edge a -> b; is there a path from b to a?"""
        edges.setdefault(a, set()).add(b)
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x == a:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(edges.get(x, ()))
        return False

    def unroll(self, fn, L, h, env, st, limit=18, width=8):
        """Exact iteration of a small loop; None when it does not end."""
        body = L.loops[h]
        phis = [i for i in h.ins if i.op == 'phi']
        cur = [(env, st, None)]
        all_ex, all_rt = [], []
        edges = {}
        for n in range(limit):
            backs = []
            for e, s, src in cur:
                # case split of two-valued induction values
                for kind, data in self.exec_block(fn, h, e, s):
                    if kind == 'ret':
                        all_rt.append(data)
                        continue
                    succ, e2, s2 = data
                    if succ is h:
                        backs.append((h.name, e2, s2, src))
                    elif succ in body:
                        ex, bk, rt = self.explore(fn, L, succ, None,
                                                  [(h.name, e2, s2)], body - {h}, h)
                        all_ex.extend(ex)
                        all_rt.extend(rt)
                        backs.extend(b + (src,) for b in bk)
                    else:
                        all_ex.append((succ, h.name, e2, s2))
            if not backs:
                return all_ex, all_rt
            nxt = {}
            lv = L.live[h]
            for pn, e, s, src in backs:
                new = {}
                for i in phis:
                    new[i.dest] = self.val(s, e, i.x[pn], i.ty)
                e = {k: v for k, v in e.items() if k in lv}
                e.update(new)
                s.epoch += 1
                key = (tuple((k, e[k]) for k in sorted(e)), s.sig())
                if width > 8 and src is not None and self.cycle(edges, src, key):
                    raise NoProgress('the loop of %s (%s) can repeat without changing anything' % (
                        fn.name, self.m.where(h.ins[-1])))
                if key in nxt:
                    self.merge_into(nxt[key][1], s, ('unr', id(h), n))
                else:
                    nxt[key] = (e, s, key)
            cur = list(nxt.values())
            if len(cur) > width or len(all_ex) > 8 * width:
                return None
        return None

    def run_loop(self, fn, L, h, env, st):
        self.stats['loops'] += 1
        body = L.loops[h]
        phis = [i for i in h.ins if i.op == 'phi']
        lim = self.rule.exact(self, fn, h)
        if lim:
            r = self.unroll(fn, L, h, dict(env), st, lim, 4096)
            if r is None:
                raise Budget('loop of %s does not end in %d iterations' % (fn.name, lim))
            return r
        if self.leaf_loop(L, h):
            s2 = st.fork()
            self.probe += 1
            try:
                r = self.unroll(fn, L, h, dict(env), s2)
            finally:
                self.probe -= 1
            if r is not None:
                return r
        W = set()          # generalised keys
        cands = None
        dropped = set()
        pairs = None
        for attempt in range(40):
            start_env, start_st, smap = self.generalise(h, phis, env, st, W, dropped, pairs or ())
            gens = set(nv.t[0][0] for k, v0, nv in smap[0] if isinstance(nv, Lin) and nv.t)
            allbacks = []
            seen = set()
            all_ex, all_rt = [], []
            todo = [(start_env, start_st)]
            seen.add(self.rule.loop_key(start_st))
            grew = False
            niter = 0
            while todo and not grew:
                e0, s0 = todo.pop()
                niter += 1
                if niter > 64:
                    raise Budget('loop states in %s' % fn.name)
                ref_env, ref_st = dict(e0), s0.fork()
                amark = (len(A_KEY), gens)
                out = []
                for kind, data in self.exec_block(fn, h, e0, s0):
                    if kind == 'ret':
                        all_rt.append(data)
                    else:
                        succ, e, s = data
                        out.append((succ, h.name, e, s))
                inner = {}
                backs = []
                for succ, pn, e, s in out:
                    if succ is h:
                        backs.append((pn, e, s))
                    elif succ in body:
                        inner.setdefault(succ, []).append((pn, e, s))
                    else:
                        all_ex.append((succ, pn, e, s))
                for succ, its in inner.items():
                    ex, bk, rt = self.explore(fn, L, succ, None, its, body - {h}, h)
                    all_rt.extend(rt)
                    backs.extend(bk)
                    for x in ex:
                        all_ex.append(x)
                # compare
                for pn, e, s in backs:
                    ch = self.diff(h, phis, ref_env, ref_st, pn, e, s, W, amark)
                    if ch - W:
                        W |= ch
                        grew = True
                bad = self.check_cands(h, phis, smap, backs, st)
                if bad:
                    dropped |= bad
                    grew = True
                if grew:
                    break
                allbacks.extend(backs)
                for pn, e, s in backs:
                    try:
                        self.rule.on_backedge(self, s, ref_st, h.ins[-1])
                    except Infeasible:
                        continue
                    k = self.rule.loop_key(s)
                    k = (k, )
                    if k[0] in seen and ('it',) + k in seen:
                        continue
                    if k[0] not in seen or ('it',) + k not in seen:
                        seen.add(k[0])
                        seen.add(('it',) + k)
                        ns = ref_st.fork()
                        ns.rs = s.rs
                        ns.heap = dict(s.heap)
                        ns.trace = s.trace
                        ns.epoch = s.epoch + 1
                        for b, z in s.sz.items():
                            ns.sz.setdefault(b, z)
                        # keep objects created in the body visible
                        for b, c in s.mem.items():
                            if b not in ns.mem and A_KEY[b][0] in ('heap',):
                                ns.mem[b] = Cells(c)
                        todo.append((dict(ref_env), ns))
            if not grew and pairs is None and len(W) > 1:
                pairs = self.find_pairs(phis, smap[0], allbacks)
                if pairs:
                    continue
            if not grew:
                return all_ex, all_rt
        raise Budget('loop generalisation in %s' % fn.name)

    def cell_default(self, st, b, o, size):
        """Value an unmaterialised cell would have."""
        return None

    def diff(self, h, phis, e0, s0, pn, e1, s1, W, amark):
        ch = set()
        for i in phis:
            v0 = e0[i.dest]
            v1 = self.val(s1, e1, i.x[pn], i.ty)
            if v0 == v1:
                continue
            if not is_cond(v0) and not is_cond(v1) and s1.f.res(v0) == s1.f.res(v1):
                continue
            ch.add(('phi', i.dest))
        for b, cells in s1.mem.items():
            if b == ERRNO:
                if s0.mem.get(b) != cells:
                    ch.add(('mem', b, 0, 4))
                continue
            c0 = s0.mem.get(b)
            if A_KEY[b][0] in ('heap', 'alloca') and c0 is None and b not in s0.heap \
                    and b not in s0.mem:
                continue
            r = fresh_root(b)
            if r >= 0 and (r in amark[1] or (r >= amark[0] and b not in s0.mem)):
                continue       # only named during this iteration, or arbitrary
            for o, (sz, v) in cells.items():
                if not isinstance(o, int):
                    continue
                if c0 is not None and o in c0:
                    if c0[o][0] == sz:
                        v0 = c0[o][1]
                        if v0 == v or (not is_cond(v0) and not is_cond(v) and
                                       s1.f.res(v0) == s1.f.res(v)):
                            continue
                    ch.add(('mem', b, o, sz))
                    continue
                # not materialised in the header state: equal to its init value?
                if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
                    k = A_KEY[v.t[0][0]]
                    if k[0] == 'init' and k[1] == b and k[2] == o:
                        continue
                if isinstance(v, int) and v == 0 and (A_INFO[b].get('zero') or
                                                      s0.ver.get(b) == ('zero',)):
                    continue
                ch.add(('mem', b, o, sz))
            if s1.ver.get(b) != s0.ver.get(b):
                ch.add(('ver', b))
            if c0 is not None:
                for o in c0:
                    if isinstance(o, int) and o not in cells:
                        ch.add(('mem', b, o, c0[o][0]))
                    elif not isinstance(o, int) and o not in cells:
                        ch.add(('ver', b))
        return ch

    def generalise(self, h, phis, env, st, W, dropped, pairs=()):
        env = dict(env)
        s = st.fork()
        smap = []   # (key, entry value, new value)
        pd = {i.dest: i for i in phis}
        # version bumps first
        for k in sorted(W, key=repr):
            if k[0] == 'ver':
                b = k[1]
                cells = s.wcells(b)
                for o in list(cells):
                    if not isinstance(o, int):
                        del cells[o]
                s.ver[b] = ('lv', self.ctx, id(h), st.epoch, b)
        for k in sorted(W, key=repr):
            if k[0] == 'phi':
                i = pd[k[1]]
                v0 = env[k[1]]
                nv = self.gen_atom(i.ty, k, v0, st, None, h)
                env[k[1]] = nv
                smap.append((k, v0, nv))
            elif k[0] == 'mem':
                _, b, o, sz = k
                c0 = st.mem.get(b, {}).get(o)
                ty = ('i', sz * 8) if sz in (1, 2, 4, 8) else ('i', 64)
                v0 = None
                if c0 is not None and c0[0] == sz:
                    v0 = c0[1]
                elif c0 is None:
                    di = self.field_ditype(b, o, sz)
                    t2 = ty
                    if di is not None and self.m.mdnode(self.m.strip_type(di) or -1)[1].get('tag') == 'DW_TAG_pointer_type':
                        t2 = IR.PTR
                    if st.ver.get(b) is None or True:
                        v0 = self.init_val(st, b, o, sz, t2)
                kind_ptr = False
                if isinstance(v0, Lin) and any(A_KIND[a] in ('ptr', 'obj', 'fn') for a, _ in v0.t):
                    kind_ptr = True
                di = self.field_ditype(b, o, sz)
                if di is not None:
                    dk = self.m.mdnode(self.m.strip_type(di) or -1)
                    if dk[1].get('tag') == 'DW_TAG_pointer_type':
                        kind_ptr = True
                nv = self.gen_atom(IR.PTR if kind_ptr else ty, k, v0, st, di, h)
                cells = s.wcells(b)
                # remove overlapping
                for oo in list(cells):
                    if isinstance(oo, int) and oo < o + sz and o < oo + cells[oo][0]:
                        del cells[oo]
                cells[o] = (sz, nv)
                smap.append((k, v0, nv))
        # candidate facts
        cand = []
        for n, (k, v0, nv) in enumerate(smap):
            if v0 is None or is_cond(v0) or not isinstance(nv, Lin):
                continue
            v0 = st.f.res(v0)
            lo, hi = st.f.range(v0)
            a0 = nv.t[0][0]
            if A_KIND[a0] == 'ptr' and not (isinstance(v0, Lin) and any(
                    A_KIND[x] == 'obj' or A_KIND[x] == 'ptr' for x, _ in v0.t) and k[0] == 'phi'):
                if lo > 0:
                    cand.append((('pos', k), sub(1, nv)))
                continue
            cand.append((('ge', k), sub(v0, nv)))
            cand.append((('le', k), sub(nv, v0)))
            if lo >= 0:
                cand.append((('nn', k), scale(nv, -1)))
            if lo > 0:
                cand.append((('pos', k), sub(1, nv)))
            hi0 = hi
            for t in list(self.thresholds(h)) + list(self.rule.bounds):
                if hi0 <= t:
                    cand.append((('th', k, t), sub(nv, t)))
            # facts of the entry state that mention v0's atom
            if isinstance(v0, Lin) and len(v0.t) == 1 and v0.t[0][1] == 1:
                a = v0.t[0][0]
                for c in st.f.lin:
                    if any(x == a for x, _ in c.t):
                        kk = dict(c.t)[a]
                        e1 = add(sub(c, scale(v0, kk)), scale(nv, kk))
                        cand.append((('lin', k, c), e1))
        good = []
        for key, e in cand:
            if key in dropped:
                continue
            if not isinstance(e, Lin):
                continue
            good.append((key, e))
        for k, k2, sg, e in pairs:
            d = dict((x[0], x) for x in smap)
            if k in d and k2 in d:
                e1 = add(d[k][2], scale(d[k2][2], sg))
                e0 = add(st.f.res(d[k][1]), scale(st.f.res(d[k2][1]), sg))
                s.f.add_lin(sub(e1, e0))
                s.f.add_lin(sub(e0, e1))
        wb = set(k[1] for k in W if k[0] in ('mem', 'ver'))
        for o in self.rule.inv_objects(self, s):
            if o[0] in wb and ('inv', o) not in dropped:
                if self.rule.inv_ok(self, st, o):
                    self.rule.inv_assume(self, s, o)
                    good.append((('inv', o), None))
        for key, e in good:
            if e is None:
                continue
            if len(e.t) == 1:
                try:
                    s.f.assume_le0(e)
                except Infeasible:
                    pass
            else:
                s.f.add_lin(e)
        return env, s, (smap, good)

    def thresholds(self, h):
        """Constants a loop compares with (candidate upper bounds)."""
        k = ('thr', id(h))
        r = self._ctxid.get(k)
        if r is None:
            fn = h.ins[-1].fn
            L = self.li(fn)
            r = set()
            for b in L.loops.get(h, ()):
                for i in b.ins:
                    if i.op == 'icmp':
                        for v in i.a:
                            if v[0] == 'c' and 1 < v[1] < (1 << 40):
                                r |= {v[1], v[1] - 1}
            r = sorted(r)[:12]
            self._ctxid[k] = r
        return r

    def gen_atom(self, ty, key, v0, st, di=None, h=None):
        un = self.m.di_unsigned(di) if di is not None else None
        if di is None and key[0] == 'mem':
            un = self.elem_unsigned(key[1], key[2])
        lo, hi = self.ty_range(ty, un)
        nk = ('g', self.ctx, id(h), st.epoch, key)
        a = self._ctxid.get(nk)
        if a is None:
            a = fresh('g', 'ptr' if ty == IR.PTR else 'int', lo, hi, {'gen': True})
            self._ctxid[nk] = a
        if ty == IR.PTR and isinstance(v0, Lin):
            b, off = self.base_off(st, v0)
            if b is not None and isinstance(off, int):
                for s0, n in self.structs_of.get(b, {}).items():
                    if s0 - off == 0 or True:
                        self.structs_of.setdefault(a, {})[s0 - off] = n
                if b in st.f.bind or True:
                    A_INFO[a]['from'] = b
        if di is not None and ty == IR.PTR:
            sn = self.m.di_struct_name(di)
            if sn:
                self.tag_struct(a, 0, sn)
        return av(a)

    def back_vals(self, phis, smap, pn, e, s):
        pd = {i.dest: i for i in phis}
        out = []
        for k, v0, nv in smap:
            if k[0] == 'phi':
                v = self.val(s, e, pd[k[1]].x[pn], pd[k[1]].ty)
            else:
                c = s.mem.get(k[1], {}).get(k[2])
                v = c[1] if c is not None and c[0] == k[3] else None
            if v is not None and is_cond(v):
                v = self.cond_to_val(v)
            out.append(None if v is None else s.f.res(v))
        return out

    def find_pairs(self, phis, smap, backs):
        """Exact conservation laws x + s*y = const over every iteration."""
        rows = [(s, self.back_vals(phis, smap, pn, e, s)) for pn, e, s in backs]
        if not rows:
            return []
        def cls(n):
            k, v0, nv = smap[n]
            if not isinstance(nv, Lin) or v0 is None or is_cond(v0):
                return None
            a = nv.t[0][0]
            if A_KIND[a] == 'ptr':
                return None
            return 'i'
        # values that did not change on any iteration are not interesting
        ints = [n for n in range(len(smap)) if cls(n) and
                any(vals[n] is None or vals[n] != s.f.res(smap[n][2]) for s, vals in rows)]
        out = []
        for x in range(len(ints)):
            for y in range(x):
                i, j = ints[x], ints[y]
                for sg in (1, -1):
                    ok = True
                    for s, vals in rows:
                        if vals[i] is None or vals[j] is None:
                            ok = False
                            break
                        a = add(vals[i], scale(vals[j], sg))
                        b = add(s.f.res(smap[i][2]), scale(s.f.res(smap[j][2]), sg))
                        if a != b:
                            ok = False
                            break
                    if ok:
                        out.append((smap[i][0], smap[j][0], sg, None))
        return out[:12]

    def check_cands(self, h, phis, smapg, backs, st):
        smap, good = smapg
        bad = set()
        pd = {i.dest: i for i in phis}
        for pn, e, s in backs:
            # substitution nv -> value at the back edge
            subst = {}
            for k, v0, nv in smap:
                if not isinstance(nv, Lin):
                    continue
                a = nv.t[0][0]
                if k[0] == 'phi':
                    v = self.val(s, e, pd[k[1]].x[pn], pd[k[1]].ty)
                else:
                    c = s.mem.get(k[1], {}).get(k[2])
                    v = c[1] if c is not None and c[0] == k[3] else None
                if is_cond(v):
                    v = self.cond_to_val(v)
                subst[a] = v
            for key, ex in good:
                if key in bad:
                    continue
                if key[0] == 'inv':
                    if not self.rule.inv_ok(self, s, key[1]):
                        bad.add(key)
                    continue
                out = ex.c
                ok = True
                for a, kk in ex.t:
                    if a in subst:
                        if subst[a] is None:
                            ok = False
                            break
                        out = add(out, scale(subst[a], kk))
                    else:
                        out = add(out, Lin(0, ((a, kk),)))
                if not ok or not s.f.le0(out, 3):
                    bad.add(key)
        return bad

    # -- blocks
    def exec_block(self, fn, blk, env, st):
        """Yield ('succ', (block, env, st)) / ('ret', (st, val))."""
        results = []
        start = 0
        for i in blk.ins:
            if i.op == 'phi':
                start += 1
            else:
                break
        stack = [(start, dict(env), st)]
        while stack:
            idx, env, st = stack.pop()
            try:
                self.run_from(fn, blk, idx, env, st, stack, results)
            except Infeasible:
                self.stats['infeasible'] += 1
        return results

    def run_from(self, fn, blk, idx, env, st, stack, results):
        ins_list = blk.ins
        n = len(ins_list)
        while idx < n:
            i = ins_list[idx]
            self.stats['instrs'] += 1
            op = i.op
            if op == 'load':
                p = self.val(st, env, i.a[0], IR.PTR)
                env[i.dest] = self.load(st, p, i.ty, i)
            elif op == 'store':
                v = self.val(st, env, i.a[0], i.x)
                p = self.val(st, env, i.a[1], IR.PTR)
                if is_cond(v) and v[0] == 'AGG':
                    b, off = self.base_off(st, p)
                    if b is not None:
                        self.havoc_obj(st, b)
                else:
                    self.store(st, p, v, self.m.types.size(i.x), i)
            elif op == 'getelementptr':
                env[i.dest] = self.gep(st, env, i)
            elif op == 'icmp':
                a = self.val(st, env, i.a[0], i.x[1])
                b = self.val(st, env, i.a[1], i.x[1])
                if is_cond(a):
                    a = self.cond_to_val(a)
                if is_cond(b):
                    b = self.cond_to_val(b)
                w = i.x[1][1] if i.x[1][0] == 'i' else 64
                if i.x[1] == ('i', 1):
                    # i1 comparison
                    pass
                env[i.dest] = self.simp(st, ('cmp', i.x[0], a, b, w))
            elif op in IR._BIN:
                a = self.val(st, env, i.a[0], i.ty)
                b = self.val(st, env, i.a[1], i.ty)
                env[i.dest] = self.binop(st, op, i.ty, a, b)
            elif op in IR._CAST:
                v = self.val(st, env, i.a[0], i.x)
                env[i.dest] = self.cast(st, op, v, i.x, i.ty)
            elif op == 'br':
                if len(i.x) == 1:
                    results.append(('succ', (fn.bmap[i.x[0]], env, st)))
                    return
                if not self.rule.bitmode and 'vaarg.in_reg' in i.x[0] and 'vaarg.in_mem' in i.x[1]:
                    results.append(('succ', (fn.bmap[i.x[1]], env, st)))
                    return
                c = self.as_cond(self.val(st, env, i.a[0], ('i', 1)))
                s2 = st.fork()
                t = self.split(st, c)
                e = self.split(s2, self.negate(c))
                nstates = len(t) + len(e)
                for s in t:
                    self.rule.on_branch(self, s, i, True)
                    results.append(('succ', (fn.bmap[i.x[0]], dict(env), s)))
                for s in e:
                    self.rule.on_branch(self, s, i, False)
                    results.append(('succ', (fn.bmap[i.x[1]], dict(env), s)))
                if nstates == 0:
                    self.stats['infeasible'] += 1
                self.tick()
                return
            elif op == 'switch':
                v = self.val(st, env, i.a[0], i.x[0])
                if is_cond(v):
                    v = self.cond_to_val(v)
                w = i.x[0][1]
                bytarget = {}
                for cv, lbl in i.x[2]:
                    s2 = st.fork()
                    try:
                        for s in self.assume_cmp(s2, ('cmp', 'eq', v, cv, w)):
                            self.rule.on_branch(self, s, i, cv)
                            results.append(('succ', (fn.bmap[lbl], dict(env), s)))
                    except Infeasible:
                        pass
                try:
                    for cv, lbl in i.x[2]:
                        st = self.assume_cmp(st, ('cmp', 'ne', v, cv, w))[0]
                    self.rule.on_branch(self, st, i, None)
                    results.append(('succ', (fn.bmap[i.x[1]], env, st)))
                except Infeasible:
                    pass
                self.tick()
                return
            elif op == 'ret':
                r = None
                if i.a:
                    r = self.val(st, env, i.a[0], i.x)
                    if is_cond(r):
                        r = self.cond_to_val(r)
                self.stats['paths'] += 1
                results.append(('ret', (st, r)))
                return
            elif op == 'select':
                c = self.as_cond(self.val(st, env, i.a[0], ('i', 1)))
                a = self.val(st, env, i.a[1], i.ty)
                b = self.val(st, env, i.a[2], i.ty)
                if isinstance(c, int):
                    env[i.dest] = a if c else b
                elif i.ty == ('i', 1):
                    ca, cb = self.as_cond(a), self.as_cond(b)
                    if cb == 0 and isinstance(cb, int):
                        env[i.dest] = ('and', c, ca)
                    elif isinstance(ca, int) and ca == 1:
                        env[i.dest] = ('or', c, cb)
                    else:
                        env[i.dest] = ('or', ('and', c, ca), ('and', self.negate(c), cb))
                elif a == b:
                    env[i.dest] = a
                else:
                    s2 = st.fork()
                    t = self.split(st, c)
                    e = self.split(s2, self.negate(c))
                    for s in t:
                        ne = dict(env)
                        ne[i.dest] = a
                        stack.append((idx + 1, ne, s))
                    for s in e:
                        ne = dict(env)
                        ne[i.dest] = b
                        stack.append((idx + 1, ne, s))
                    return
            elif op == 'call' or op == 'invoke':
                outs = self.do_call(st, env, i)
                if op == 'invoke':
                    for s, r in outs:
                        ne = dict(env)
                        if i.dest:
                            ne[i.dest] = r if r is not None else 0
                        results.append(('succ', (fn.bmap[i.x[2]], ne, s)))
                    return
                if len(outs) == 1:
                    st, r = outs[0]
                    if i.dest:
                        env[i.dest] = r if r is not None else 0
                else:
                    for s, r in outs:
                        ne = dict(env)
                        if i.dest:
                            ne[i.dest] = r if r is not None else 0
                        stack.append((idx + 1, ne, s))
                    if len(outs) > 1:
                        self.tick(len(outs))
                    return
            elif op == 'alloca':
                a = atom(('alloca', len(self.stack), i.fn.name, i.dest,
                          self.ctx), 'obj',
                         info={'size': self.m.types.size(i.x), 'alloca': i.dest})
                t = i.x
                if t[0] == 'st' and t[1].startswith('struct.'):
                    self.tag_struct(a, 0, t[1][7:])
                st.mem.pop(a, None)
                st.ver[a] = self.tok(st, i, 'al')
                env[i.dest] = av(a)
            elif op == 'unreachable':
                return
            elif op == 'extractvalue':
                v = self.val(st, env, i.a[0], i.x[0])
                env[i.dest] = self.unk(i.ty, 'ev', st, i) if not is_cond(v) or v[0] != 'TUP' else v[1][i.x[1][0]]
            elif op == 'insertvalue':
                env[i.dest] = av(self.pf(st, i, 'iv'))
            elif op == 'atomicrmw':
                p = self.val(st, env, i.a[0], IR.PTR)
                v = self.val(st, env, i.a[1], i.ty)
                old = self.load(st, p, i.ty, i)
                if i.x in ('add', 'sub'):
                    nv = add(old, v) if i.x == 'add' else sub(old, v)
                elif i.x == 'xchg':
                    nv = v
                else:
                    nv = self.unk(i.ty, 'rmw', st, i)
                env[i.dest] = old
                self.store(st, p, nv, self.m.types.size(i.ty), i)
            elif op == 'cmpxchg':
                p = self.val(st, env, i.a[0], IR.PTR)
                b, off = self.base_off(st, p)
                env[i.dest] = av(self.pf(st, i, 'cx'))
                if b is not None:
                    self.havoc_obj(st, b)
            elif op == 'fcmp':
                env[i.dest] = av(self.pf(st, i, 'fcmp', 'int', 0, 1))
            elif op == 'freeze' or op == 'fneg':
                env[i.dest] = self.val(st, env, i.a[0], i.ty)
            elif op == 'asm':
                if i.dest:
                    env[i.dest] = self.unk(i.ty, 'asm', st, i)
            elif op == 'other':
                if i.dest:
                    env[i.dest] = av(self.pf(st, i, 'other'))
            else:
                raise AnalysisError('op ' + op)
            idx += 1

    def pf(self, st, ins, tag, kind='int', lo=-INF, hi=INF, info=None):
        """Unknown produced by instruction `ins` in the current context; the
        name is deterministic so that equal states can be recognised."""
        a = atom(('fresh', len(A_KEY), tag), kind, lo, hi, info) if ins is None else None
        if a is not None:
            return a
        key = ('at', self.ctx, id(ins), st.epoch, tag)
        a = self._ctxid.get(key)
        if a is None:
            a = fresh(tag, kind, lo, hi, info)
            self._ctxid[key] = a
        return a

    def tok(self, st, ins, tag):
        return ('t', self.ctx, id(ins), st.epoch, tag)

    def tick(self, n=1):
        self.nstates += n
        if self.nstates > self.rule.max_states:
            raise Budget('state budget')

    def simp(self, st, c):
        """Decide a comparison if known."""
        _, pred, a, b, w = c
        if self.rule.bitmode and not (isinstance(a, int) and isinstance(b, int)):
            r = BV.compare(st, pred, a, b, w)
            if r is not None:
                return r
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            ua, ub = a & M, b & M
            sa, sb = wrapc(a, w), wrapc(b, w)
            return int({'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub,
                        'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb,
                        'sge': sa >= sb}[pred])
        return c

    def gep(self, st, env, i):
        p = self.val(st, env, i.a[0], IR.PTR)
        t, idx = i.x
        off = 0
        tt = self.m.types
        if t[0] == 'st' and t[1].startswith('struct.') and isinstance(p, Lin):
            b, o = self.base_off(st, p)
            if b is not None and isinstance(o, int) and not (len(idx) == 1):
                self.tag_struct(b, o, t[1][7:].split('.')[0] if False else t[1][7:])
        for n, (it, iv) in enumerate(idx):
            x = self.val(st, env, iv, it)
            if is_cond(x):
                x = self.cond_to_val(x)
            if n == 0:
                off = add(off, scale(x, tt.size(t)))
            elif t[0] == 'arr':
                t = t[2]
                off = add(off, scale(x, tt.size(t)))
            else:
                fo, t = tt.field_offset(t, x)
                off = add(off, fo)
        return add(p, off) if not is_cond(p) else self.unk(IR.PTR, 'gep')

    # ---- calls -------------------------------------------------------------
    def do_call(self, st, env, ins):
        callee, atys = ins.x[0], ins.x[1]
        args = []
        for a, t in zip(ins.a, atys):
            v = self.val(st, env, a, t)
            if is_cond(v) and v[0] != 'AGG':
                v = self.cond_to_val(v)
            args.append(v)
        fv = self.val(st, env, callee, IR.PTR)
        fv = st.f.res(fv)
        name = None
        if isinstance(fv, Lin) and len(fv.t) == 1 and fv.c == 0 and A_KIND[fv.t[0][0]] == 'fn':
            name = A_KEY[fv.t[0][0]][1]
        if name is None:
            r = self.rule.on_indirect(self, st, fv, args, ins)
            if r is not None:
                return r
            self.unresolved.add(self.m.where(ins))
            return [(st, self.unk(ins.ty, 'icall', st, ins) if ins.ty != IR.VOID else None)]
        if (self.rule.bitmode or self.rule.vamodel) and name.startswith('llvm.va_start') and '...' in env:
            # every argument in the overflow area of an x86-64 va_list
            b, off = self.base_off(st, args[0])
            over = atom(('vaover', self.ctx), 'obj', info={'size': 4096})
            oc = st.wcells(over)
            oc.clear()
            for k, v in enumerate(env['...']):
                oc[8 * k] = (8, v)
            c = st.wcells(b)
            for o, (z, v) in ((0, (4, 48)), (4, (4, 176)), (8, (8, av(over)))):
                c[off + o] = (z, v)
            return [(st, None)]
        return self.call_named(st, name, args, ins)

    def call_named(self, st, name, args, ins):
        r = self.rule.call(self, st, name, args, ins)
        if r is not None:
            return r
        fn = self.m.functions.get(name)
        if fn is not None and name not in self.no_inline:
            if len(self.stack) >= self.rule.max_depth or self.stack.count(name) >= self.rule.max_rec:
                self.stats['truncated'] += 1
                return [(st, self.unk(fn.ret, name, st, ins) if fn.ret != IR.VOID else None)]
            old = self.ctx
            self.ctx = self._ctxid.setdefault(('ctx', old, id(ins)), ('c', len(self._ctxid)))
            try:
                return self.run_function(fn, args, st)
            finally:
                self.ctx = old
        return self.libc(st, name, args, ins)

    def alloc(self, st, name, ins, size=None, zero=False):
        a = self.pf(st, ins, '%s@%s' % (name, ins.fn.name), 'ptr', 0, INF,
                    {'heap': True, 'alloc': name, 'zero': zero,
                     'site': self.m.where(ins)})
        A_KEY[a] = ('heap', a, name)
        st.sz[a] = st.f.res(size) if size is not None and not is_cond(size) else None
        st.mem.pop(a, None)
        if zero:
            st.ver[a] = ('zero',)
        else:
            st.ver[a] = self.tok(st, ins, 'hp')
        return a

    def libc(self, st, name, args, ins):
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, ins)
        if name == '__errno_location':
            return [(st, av(self.errno_obj))]
        if name in HEAP:
            size = None
            zero = name == 'calloc'
            if name == 'calloc':
                size = self.binop(st, 'mul', ('i', 64), args[0], args[1])
            elif name == 'malloc':
                size = args[0]
            elif name == 'realloc':
                size = args[1]
            a = self.alloc(st, name, ins, size, zero)
            s2 = st.fork()
            # failure
            s2.f._bind(a, 0)
            self.set_errno(s2, ins)
            st.f.assume_ne0(av(a))
            if name == 'realloc':
                b, off = self.base_off(st, args[0])
                if b is not None and off == 0 and b in st.mem:
                    # contents move
                    st.mem[a] = Cells({o: c for o, c in st.mem[b].items() if isinstance(o, int)})
                    st.own.discard(a)
                    st.own.discard(b)
            return [(st, av(a)), (s2, 0)]
        lo, hi = RANGES.get(name, (None, None))
        if name not in NO_ERRNO:
            self.set_errno(st, ins)
        oa = OUTARG.get(name)
        if oa == 'va2':
            oa = list(range(2, len(args)))
        for k in oa or ():
            if k < len(args) and isinstance(args[k], Lin):
                b, off = self.base_off(st, args[k])
                if b is not None:
                    self.havoc_obj(st, b, ins=ins)
        if ins.ty == IR.VOID:
            return [(st, None)]
        if lo is None:
            if ins.ty == IR.PTR:
                r = av(self.pf(st, ins, name, 'ptr', 0, INF))
            else:
                un = None
                d = self.m.declares.get(name)
                l2, h2 = self.ty_range(ins.ty, False if name in SIGNED_RET else None)
                if name in SIGNED_RET:
                    l2 = -1
                    # never more than requested
                r = av(self.pf(st, ins, name, 'int', l2, h2))
                if name in ('read', 'write', 'recv', 'recvfrom', 'send', 'sendto') and len(args) > 2:
                    
                    st.f.nonneg(args[2]) and st.f.add_lin(sub(r, args[2]))
            return [(st, r)]
        r = av(self.pf(st, ins, name, 'int', lo, hi))
        return [(st, r)]

    def set_errno(self, st, ins):
        st.wcells(self.errno_obj)[0] = (4, av(self.pf(st, ins, 'errno', 'int', 1, 4095)))

    def intrinsic(self, st, name, args, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.rule.on_mem(self, st, 'w', args[0], args[2], ins)
            self.rule.on_mem(self, st, 'r', args[1], args[2], ins)
            n = st.f.res(args[2])
            b, off = self.base_off(st, args[0])
            b2, off2 = self.base_off(st, args[1])
            if b is not None:
                if isinstance(n, int) and isinstance(off, int):
                    src = {}
                    if b2 is not None and isinstance(off2, int):
                        for o, c in st.mem.get(b2, {}).items():
                            if isinstance(o, int) and off2 <= o and o + c[0] <= off2 + n:
                                src[o - off2 + off] = c
                        if st.ver.get(b2) == ('zero',) and n <= 256 and src and \
                                all(isinstance(o, int) for o in st.mem.get(b2, {})):
                            done = set()
                            for o, c in st.mem[b2].items():
                                done |= set(range(o - off2 + off, o - off2 + off + c[0]))
                            for k in range(off, off + n):
                                if k not in done:
                                    src[k] = (1, 0)
                        if self.rule.bitmode and n <= 64:
                            done = set()
                            for o, c in src.items():
                                done |= set(range(o, o + c[0]))
                            for k in range(n):
                                if off + k not in done:
                                    x = self.byte_at(st, b2, off2 + k)
                                    if x is not None:
                                        src[off + k] = (1, x)
                    self.clear_range(st, b, off, n, ins)
                    cells = st.wcells(b)
                    cells.update(src)
                    if n in (1, 2, 4, 8) and off not in src:
                        if b2 is not None and isinstance(off2, int):
                            v = self.init_val(st, b2, off2, n, ('i', n * 8))
                            cells[off] = (n, v)
                        elif b2 is not None:
                            c = st.mem.get(b2, {}).get(st.f.res(off2))
                            if c is not None and c[0] == n:
                                cells[off] = c
                elif n in (1, 2, 4, 8) and isinstance(n, int) and self.rule.bitmode and b2 is not None and \
                        isinstance(off2, int) and st.mem.get(b2, {}).get(off2, (0,))[0] == n:
                    self.raw_store(st, b, st.f.res(off), n, st.mem[b2][off2][1], ins)
                elif n != 0:
                    self.clobber(st, b, st.f.res(off), ins, 'mc')
            return [(st, None)]
        if name.startswith('llvm.memset'):
            self.rule.on_mem(self, st, 'w', args[0], args[2], ins)
            n = st.f.res(args[2])
            b, off = self.base_off(st, args[0])
            if b is not None:
                if isinstance(n, int) and isinstance(off, int):
                    self.clear_range(st, b, off, n, ins)
                    if args[1] == 0 and isinstance(args[1], int):
                        sz = self.size_of(st, b)
                        cells = st.wcells(b)
                        if off == 0 and (n == sz) and not cells:
                            st.ver[b] = ('zero',)
                        else:
                            cells[off] = (n, 0)
                    elif isinstance(args[1], int):
                        st.wcells(b)[off] = (n, av(self.pf(st, ins, 'ms')))
                else:
                    self.clobber(st, b, st.f.res(off), ins, 'ms')
            return [(st, None)]
        if 'bswap' in name:
            return [(st, av(atom(('op', name, args[0]))))]
        if name.startswith('llvm.umin') or name.startswith('llvm.smin') or \
                name.startswith('llvm.umax') or name.startswith('llvm.smax'):
            mx = 'max' in name
            p = ('u' if 'llvm.u' in name else 's') + 'le'
            s2 = st.fork()
            c = ('cmp', p, args[0], args[1], 64)
            out = []
            for s in self.split(st, c):
                out.append((s, args[1] if mx else args[0]))
            for s in self.split(s2, self.negate(c)):
                out.append((s, args[0] if mx else args[1]))
            return out
        if name.startswith('llvm.va_start') or name.startswith('llvm.va_copy'):
            b, off = self.base_off(st, args[0])
            if b is not None:
                self.havoc_obj(st, b)
            return [(st, None)]
        if ins.ty == IR.VOID:
            return [(st, None)]
        return [(st, self.unk(ins.ty, name, st, ins))]

    def clear_range(self, st, b, off, n, ins=None):
        cells = st.wcells(b)
        for o in list(cells):
            if not isinstance(o, int):
                del cells[o]
                continue
            sz, v = cells[o]
            if o < off + n and off < o + sz:
                del cells[o]
                if isinstance(v, int) and v == 0:
                    if o < off:
                        cells[o] = (off - o, 0)
                    if o + sz > off + n:
                        cells[off + n] = (o + sz - off - n, 0)
        # bytes without a cell in the range must not read as the initial value
        if not (off == 0 and n == self.size_of(st, b)):
            k = ('clr', off)
            if n in (1, 2, 4, 8):
                cells[off] = (n, av(self.pf(st, ins, 'clr')))
            else:
                cells[off] = (n, av(self.pf(st, ins, 'clr')))
        else:
            st.ver[b] = self.tok(st, ins, 'clr')

    def tag_pointee(self, a, di):
        t = self.m.strip_type(di)
        k, d = self.m.mdnode(t) if t is not None else (None, {})
        if k == 'DIDerivedType' and d.get('tag') == 'DW_TAG_pointer_type' and d.get('baseType'):
            A_INFO[a]['pdi'] = d['baseType'][1]

    # ---- entry -------------------------------------------------------------
    def entry(self, fname, setup=None):
        """Run an entry point with symbolic arguments."""
        fn = self.m.functions[fname]
        st = State()
        st.rs = self.rule.init_rs()
        args = []
        dt = self.m.param_types(fn)
        for n, (t, nm) in enumerate(fn.params):
            di = dt[n + 1] if n + 1 < len(dt) else None
            if t == IR.PTR:
                a = atom(('arg', fname, nm), 'ptr', 0, INF)
                sn = self.m.di_struct_name(di) if di is not None else None
                if sn and self.m.types.structs.get('struct.' + sn) is not None:
                    self.tag_struct(a, 0, sn)
                elif di is not None:
                    self.tag_pointee(a, di)
                args.append(av(a))
            elif t[0] == 'i':
                un = self.m.di_unsigned(di) if di is not None else None
                lo, hi = self.ty_range(t, un)
                args.append(av(atom(('arg', fname, nm), 'int', lo, hi)))
            else:
                args.append(av(atom(('arg', fname, nm))))
        if setup:
            setup(self, st, args)
        self.nstates = 0
        return args, self.run_function(fn, args, st)


    def step(self, st, fname, args, tag):
        """Call fname in state st as one step of a scenario."""
        fn = self.m.functions[fname]
        old = self.ctx
        self.ctx = self._ctxid.setdefault(('step', tag), ('s', len(self._ctxid)))
        try:
            return self.run_function(fn, args, st)
        finally:
            self.ctx = old


def wrapc(c, w):
    M = (1 << w) - 1
    c &= M
    if c >> (w - 1):
        c -= 1 << w
    return c
