"""Model of everything outside ctx/conn: system calls, the loop, timers, the
user's callbacks.  Each model lists the outcomes the call can have and keeps the
typestate of the resources (descriptors, heap blocks, registrations, timers,
pending idle calls, accepted sends) in st.rs, a frozenset of (key, value)."""
import run
import dom
import interp
import ir as IR
from dom import *

EINTR, EAGAIN, ENOMEM, EPIPE, EMFILE = 4, 11, 12, 32, 24
ENOTCONN, ECONNREFUSED, EINPROGRESS, EADDRNOTAVAIL, EADDRINUSE, EBUSY, EINVAL = 107, 111, 115, 99, 98, 16, 22
AF_UNIX, AF_INET = 1, 2
IN, PRI, OUT, ERR, HUP = 1, 2, 4, 8, 16


def get(st, k, d=None):
    for a, v in st.rs:
        if a == k:
            return v
    return d


def put(st, k, v):
    d = dict(st.rs)
    if v is None:
        d.pop(k, None)
    else:
        d[k] = v
    st.rs = frozenset(d.items())


def items(st, kind):
    return [(k[1:], v) for k, v in st.rs if isinstance(k, tuple) and k[0] == kind]


def atom_of(st, v):
    v = st.f.res(v)
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        return v.t[0][0]
    return None


class RT(interp.Rule):
    merge = True
    max_states = 4000000
    max_out = 1 << 30
    max_join = 1 << 30
    max_depth = 60
    max_rec = 3
    pun_bytes = True

    def __init__(self, family=AF_INET):
        self.viol = {}
        self.family = family
        self.mode = 'happy'
        self.force = {}
        self.menu = ()
        self.maxfail = 2
        self.maxact = 1
        self.maxread = 2
        self.nev = {}
        self.nleaf = 0
        self.models = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith('m_')}
        self.skip = set()
        self.chunks = None
        self.where = ''

    def init_rs(self):
        return frozenset()

    def exact(self, I, fn, h):
        return 80

    # ---- reporting
    def bad(self, cat, key, text, st=None):
        if self.I.probe:
            return
        k = (cat, key)
        if k not in self.viol:
            self.viol[k] = '%s [%s]' % (text, self.where)

    def ok(self, cat, n=1):
        if not self.I.probe:
            self.nev[cat] = self.nev.get(cat, 0) + n

    def at(self, I, ins):
        return '%s (%s)' % (I.m.where(ins), ' -> '.join(I.stack[-4:]))

    # ---- outcomes
    def err(self, I, st, code):
        st.wcells(I.errno_obj)[0] = (4, code)
        put(st, 'errno', code)

    def may_fail(self, st, n=1):
        return self.mode == 'all' and get(st, 'nfail', 0) + n <= self.maxfail

    def failed(self, st):
        put(st, 'nfail', get(st, 'nfail', 0) + 1)

    def outcomes(self, I, st, name, okfn, errs, free=()):
        """success (okfn on a fork gives the value) and failures with errno."""
        out = []
        f = self.force.get(name)
        if f is None or f == 0:
            s = st.fork()
            put(s, 'errno', None)
            out.append((s, okfn(s)))
        if f:
            errs, free = (), (f,)
        for e in free if self.mode == 'all' or f else ():
            s = st.fork()
            self.err(I, s, e)
            out.append((s, -1))
        if self.may_fail(st) and name not in self.nofail:
            for e in errs:
                s = st.fork()
                self.failed(s)
                self.err(I, s, e)
                out.append((s, -1))
        return out
    nofail = ()

    # ---- heap
    def call(self, I, st, name, args, ins):
        if name in self.skip:
            return [(st, 0 if ins.ty != IR.VOID else None)]
        m = self.models.get(name)
        if m is not None:
            self.nev[name] = self.nev.get(name, 0) + (not I.probe)
            return m(I, st, args, ins)
        if name in ('calloc', 'malloc', 'realloc', 'strdup'):
            return self.alloc(I, st, name, args, ins)
        return None

    def alloc(self, I, st, name, args, ins):
        if name == 'realloc':
            b = st.f.res(args[0])
            if b != 0 and not self.live(I, st, b, ins, 'realloc'):
                return []
        outs = I.libc(st, name, args, ins)
        r = []
        for s, v in outs:
            if isinstance(v, int) and v == 0:
                if not self.may_fail(s) or self.nofail_alloc:
                    continue
                self.failed(s)
                put(s, 'oom', 1)
                self.err(I, s, ENOMEM)
            else:
                a = atom_of(s, v)
                put(s, ('h', a), I.m.where(ins))
                if name == 'realloc':
                    ob = atom_of(s, args[0])
                    if ob is not None:
                        put(s, ('h', ob), 'freed')
            r.append((s, v))
        return r
    nofail_alloc = False
    israw = False

    def live(self, I, st, p, ins, what):
        p = st.f.res(p)
        b, off = I.base_off(st, p)
        s = get(st, ('h', b)) if b is not None else None
        if s is None:
            self.bad('mem', '%s of foreign memory in %s' % (what, ins.fn.name),
                     '%s: %s of a pointer the library does not own' % (self.at(I, ins), what))
            return False
        if s == 'freed':
            self.bad('mem', 'double %s in %s' % (what, ins.fn.name), '%s: %s of a block already freed' % (
                self.at(I, ins), what))
            return False
        if off != 0:
            self.bad('mem', '%s inside block in %s' % (what, ins.fn.name), '%s: %s of an inner pointer' % (
                self.at(I, ins), what))
        return True

    def m_free(self, I, st, args, ins):
        p = st.f.res(args[0])
        if isinstance(p, int) and p == 0:
            return [(st, None)]
        if not self.live(I, st, p, ins, 'free'):
            return []
        b, _ = I.base_off(st, p)
        self.torn(I, st, ins, 'memory is freed')
        if get(st, ('conn', b)) and get(st, ('reg', get(st, ('conn', b)))) is not None:
            self.bad('mem', 'connection freed while registered in %s' % ins.fn.name,
                     '%s: the connection is freed while the loop still calls it back' % self.at(I, ins))
        put(st, ('h', b), 'freed')
        for (k, v) in items(st, 'reg'):
            if atom_of(st, v[2]) == b:
                self.bad('mem', 'owner of a registration freed in %s' % ins.fn.name,
                         '%s: freed while still registered in the loop' % self.at(I, ins))
        for cb, ud, ck in get(st, 'idle', ()):
            if atom_of(st, ud) == b:
                self.bad('mem', 'owner of an idle call freed in %s' % ins.fn.name,
                         '%s: freed while an idle call with it is pending' % self.at(I, ins))
        self.ok('mem')
        return [(st, None)]

    def on_deref(self, I, st, ptr, size, ins, write):
        p = st.f.res(ptr)
        if isinstance(p, int):
            if 0 <= p < 4096:
                self.bad('mem', 'NULL dereference in %s' % ins.fn.name, '%s: NULL pointer %s' % (
                    self.at(I, ins), 'written' if write else 'read'))
            return
        b, off = I.base_off(st, p)
        if b is None:
            return
        s = get(st, ('h', b))
        if s == 'freed':
            self.bad('mem', 'use after free in %s' % ins.fn.name, '%s: %s after free' % (
                self.at(I, ins), 'written' if write else 'read'))
            raise Infeasible()
        elif s is not None:
            self.ok('mem')

    def on_mem(self, I, st, kind, ptr, n, ins):
        if st.f.res(n) == 0:
            return
        self.on_deref(I, st, ptr, 0, ins, kind == 'w')

    # ---- descriptors
    def newfd(self, I, st, ins, kind, nb=0, ce=0, tag=''):
        a = I.pf(st, ins, 'fd' + kind + tag, 'int', 0, 1 << 20, {'fd': kind})
        if get(st, ('fd', a)) is not None:
            raise interp.AnalysisError('descriptor name reused')
        for (b,), v in items(st, 'fd'):
            if v != 'closed':
                st.f.assume_ne0(sub(av(a), av(b)))
        put(st, ('fd', a), (kind, nb, ce))
        return av(a)

    def fdstate(self, I, st, fd, ins, what):
        a = atom_of(st, fd)
        s = get(st, ('fd', a)) if a is not None else None
        if s is None:
            self.bad('fd', '%s on foreign descriptor in %s' % (what, ins.fn.name),
                     '%s: %s(%s): not an open descriptor of the library' % (self.at(I, ins), what,
                                                                           show(st.f.res(fd))))
        elif s == 'closed':
            self.bad('fd', '%s on closed descriptor in %s' % (what, ins.fn.name),
                     '%s: %s on a descriptor that was closed' % (self.at(I, ins), what))
            return a, None
        else:
            self.ok('fd')
        return a, s

    def m_close(self, I, st, args, ins):
        a, s = self.fdstate(I, st, args[0], ins, 'close')
        if s is None:
            self.err(I, st, 9)
            return [(st, -1)]
        if get(st, ('reg', a)) is not None:
            self.bad('fd', 'close while registered in %s' % ins.fn.name,
                     '%s: descriptor closed while still in the loop' % self.at(I, ins))
        self.torn(I, st, ins, 'a descriptor is closed')
        put(st, ('fd', a), 'closed')
        put(st, ('shut', a), None)
        return [(st, 0)]

    def m_socket(self, I, st, args, ins):
        t = st.f.res(args[1])
        nb = 1 if isinstance(t, int) and t & 0x800 else 0
        ce = 1 if isinstance(t, int) and t & 0x80000 else 0
        k = {1: 'stream', 2: 'dgram'}.get(t & 0xf if isinstance(t, int) else 0, 'sock')
        return self.outcomes(I, st, 'socket', lambda s: self.newfd(I, s, ins, k, nb, ce), [EMFILE])

    def m_accept(self, I, st, args, ins, fl=0):
        self.fdstate(I, st, args[0], ins, 'accept')
        return self.outcomes(I, st, 'accept', lambda s: self.newfd(
            I, s, ins, 'peer', int(bool(fl & 0x800)), int(bool(fl & 0x80000))), [EAGAIN])

    def m_accept4(self, I, st, args, ins):
        return self.m_accept(I, st, args, ins, st.f.res(args[3]))

    def m_dup(self, I, st, args, ins):
        return self.outcomes(I, st, 'dup', lambda s: self.newfd(I, s, ins, 'dup', 0, 0), [EMFILE])

    def m_fcntl(self, I, st, args, ins):
        a, s = self.fdstate(I, st, args[0], ins, 'fcntl')
        cmd = st.f.res(args[1])
        if s is None:
            self.err(I, st, 9)
            return [(st, -1)]
        if cmd == 1030:
            return self.outcomes(I, st, 'dup', lambda s: self.newfd(I, s, ins, 'dup', 0, 1), [EMFILE])

        def done(x):
            k, nb, ce = get(x, ('fd', a))
            if cmd == 1:
                return ce
            if cmd == 3:
                return 2 | (0x800 if nb else 0)
            v = x.f.res(args[2]) if len(args) > 2 else 0
            if not isinstance(v, int):
                return 0
            if cmd == 2:
                ce = v & 1
            elif cmd == 4:
                nb = 1 if v & 0x800 else 0
            put(x, ('fd', a), (k, nb, ce))
            return 0
        return self.outcomes(I, st, 'fcntl', done, [EINVAL])

    def addr_out(self, I, st, p, lp, ins):
        b, off = I.base_off(st, p)
        if b is not None and isinstance(off, int):
            n = {AF_UNIX: 110, AF_INET: 16}[self.family]
            # the address is unknown, except for its family
            I.clear_range(st, b, off, n, ins)
            c = st.wcells(b)
            c.pop(off, None)
            c[off] = (2, self.family)
            c[off + 2] = (n - 2, av(I.pf(st, ins, 'addr')))
            lb, lo = I.base_off(st, lp)
            st.wcells(lb)[lo] = (4, n)
        return 0

    def m_getsockname(self, I, st, args, ins):
        self.fdstate(I, st, args[0], ins, 'getsockname')
        return self.outcomes(I, st, 'getsockname', lambda s: self.addr_out(I, s, args[1], args[2], ins), [EINVAL])

    def m_getpeername(self, I, st, args, ins):
        self.fdstate(I, st, args[0], ins, 'getpeername')
        return self.outcomes(I, st, 'getpeername', lambda s: self.addr_out(I, s, args[1], args[2], ins),
                             [ENOTCONN, EINVAL])

    def m_setsockopt(self, I, st, args, ins):
        self.fdstate(I, st, args[0], ins, 'setsockopt')
        return self.outcomes(I, st, 'setsockopt', lambda s: 0, [EINVAL])

    def m_getsockopt(self, I, st, args, ins):
        self.fdstate(I, st, args[0], ins, 'getsockopt')
        opt = st.f.res(args[2])
        b, off = I.base_off(st, args[3])

        def val(v):
            def f(s):
                n = 12 if opt == 17 else 4
                c = s.wcells(b)
                if opt == 17:
                    for k in (0, 4, 8):
                        c[off + k] = (4, av(I.pf(s, ins, 'cred%d' % k, 'int', 0, 1 << 31)))
                else:
                    c[off] = (4, v)
                lb, lo = I.base_off(s, args[4])
                s.wcells(lb)[lo] = (4, n)
                return 0
            return f
        v = self.force.get('so_error', 0)
        out = self.outcomes(I, st, 'getsockopt', val(v), [EINVAL])
        if opt == 4 and self.mode == 'all':
            s = st.fork()
            out.append((s, val(ECONNREFUSED)(s)))
            s = st.fork()
            out.append((s, val(EPIPE)(s)))
        return out

    def m_bind(self, I, st, args, ins):
        self.fdstate(I, st, args[0], ins, 'bind')
        return self.outcomes(I, st, 'bind', lambda s: 0, [EADDRINUSE], [EADDRNOTAVAIL])

    def m_listen(self, I, st, args, ins):
        self.fdstate(I, st, args[0], ins, 'listen')
        return self.outcomes(I, st, 'listen', lambda s: 0, [EADDRINUSE])

    def m_chmod(self, I, st, args, ins):
        return self.outcomes(I, st, 'chmod', lambda s: 0, [EINVAL])

    def m_unlink(self, I, st, args, ins):
        return [(st, 0)]

    def nonblock(self, I, st, a, s, ins, what):
        if s and not s[1]:
            self.bad('nonblock', '%s on a blocking descriptor in %s' % (what, ins.fn.name),
                     '%s: %s on a descriptor that was not made non-blocking' % (self.at(I, ins), what))
        elif s:
            self.ok('nonblock')

    def m_connect(self, I, st, args, ins):
        a, s = self.fdstate(I, st, args[0], ins, 'connect')
        self.nonblock(I, st, a, s, ins, 'connect')
        return self.outcomes(I, st, 'connect', lambda s: 0, [], [EINPROGRESS, ECONNREFUSED, EPIPE])

    def m_shutdown(self, I, st, args, ins):
        a, s = self.fdstate(I, st, args[0], ins, 'shutdown')
        if s is not None and st.f.res(args[1]) in (1, 2):
            put(st, ('shut', a), 1)
        return self.outcomes(I, st, 'shutdown', lambda s: 0, [], [ENOTCONN])

    # ---- loop
    def m_pomp_loop_add(self, I, st, args, ins):
        a, s = self.fdstate(I, st, args[1], ins, 'pomp_loop_add')
        if s is None:
            return [(st, -EINVAL)]
        if get(st, ('reg', a)) is not None:
            return [(st, -17)]
        ev = st.f.res(args[2])
        if s and not s[1]:
            self.bad('nonblock', 'blocking descriptor monitored by %s' % ins.fn.name,
                     '%s: descriptor put in the loop without having been made non-blocking' % self.at(I, ins))
        elif s and not s[2]:
            self.bad('nonblock', 'inheritable descriptor monitored by %s' % ins.fn.name,
                     '%s: descriptor put in the loop without close-on-exec' % self.at(I, ins))
        else:
            self.ok('nonblock')
        out = []
        x = st.fork()
        fn = x.f.res(args[3])
        put(x, ('reg', a), (ev, dom.A_KEY[fn.t[0][0]][1], x.f.res(args[4])))
        cb = atom_of(x, args[4])
        out.append((x, 0))
        if self.may_fail(st):
            x = st.fork()
            self.failed(x)
            put(x, 'oom', 1)
            out.append((x, -ENOMEM))
        return out

    def m_pomp_loop_remove(self, I, st, args, ins):
        a = atom_of(st, args[1])
        r = get(st, ('reg', a)) if a is not None else None
        if r is None:
            return [(st, -EINVAL if st.f.res(args[1]) == -1 else -2)]
        self.torn(I, st, ins, 'a descriptor is removed from the loop')
        put(st, ('reg', a), None)
        return [(st, 0)]

    def m_pomp_loop_has_fd(self, I, st, args, ins):
        a = atom_of(st, args[1])
        return [(st, 1 if a is not None and get(st, ('reg', a)) is not None else 0)]

    def m_pomp_loop_update(self, I, st, args, ins):
        return self.update(I, st, args[1], lambda e: st.f.res(args[2]), ins)

    def m_pomp_loop_update2(self, I, st, args, ins):
        return self.update(I, st, args[1], lambda e: (e | st.f.res(args[2])) & ~st.f.res(args[3]), ins)

    def update(self, I, st, fd, f, ins):
        a = atom_of(st, fd)
        r = get(st, ('reg', a)) if a is not None else None
        if r is None:
            return [(st, -2)]
        put(st, ('reg', a), (f(r[0]),) + r[1:])
        return [(st, 0)]

    def m_pomp_loop_idle_add(self, I, st, args, ins, ck=0):
        out = []
        if self.may_fail(st) and not self.nofail_alloc:
            x = st.fork()
            self.failed(x)
            put(x, 'oom', 1)
            out.append((x, -ENOMEM))
        fn = st.f.res(args[1])
        put(st, 'idle', get(st, 'idle', ()) + ((dom.A_KEY[fn.t[0][0]][1], st.f.res(args[2]), ck),))
        out.append((st, 0))
        return out

    def m_pomp_loop_idle_add_with_cookie(self, I, st, args, ins):
        return self.m_pomp_loop_idle_add(I, st, args, ins, st.f.res(args[3]))

    def m_pomp_loop_idle_remove(self, I, st, args, ins):
        fn = dom.A_KEY[st.f.res(args[1]).t[0][0]][1]
        ud = st.f.res(args[2])
        put(st, 'idle', tuple(x for x in get(st, 'idle', ()) if not (x[0] == fn and x[1] == ud)) or None)
        return [(st, 0)]

    def m_pomp_loop_new(self, I, st, args, ins):
        a = av(I.pf(st, ins, 'loop', 'ptr', 4096, INF))
        out = []
        if self.may_fail(st):
            x = st.fork()
            self.failed(x)
            out.append((x, 0))
        put(st, ('loop', a), 1)
        out.append((st, a))
        return out

    def m_pomp_loop_destroy(self, I, st, args, ins):
        a = st.f.res(args[0])
        if not get(st, ('loop', a)):
            self.bad('mem', 'destruction of a foreign loop in %s' % ins.fn.name,
                     '%s: a loop is destroyed that is not (any more) the library\'s' % self.at(I, ins))
        if items(st, 'reg') or get(st, 'idle') or items(st, 'timer'):
            self.bad('mem', 'loop destroyed while in use by %s' % ins.fn.name,
                     '%s: the loop is destroyed while descriptors, timers or idle calls are left in it' %
                     self.at(I, ins))
        put(st, ('loop', a), None)
        return [(st, 0)]

    # ---- timers
    def m_pomp_timer_new(self, I, st, args, ins):
        out = []
        if self.may_fail(st):
            x = st.fork()
            self.failed(x)
            out.append((x, 0))
        a = I.pf(st, ins, 'timer', 'ptr', 4096, INF)
        fn = st.f.res(args[1])
        put(st, ('timer', a), ('clear', dom.A_KEY[fn.t[0][0]][1], st.f.res(args[2])))
        out.append((st, av(a)))
        return out

    def timer(self, I, st, t, ins, what):
        a = atom_of(st, t)
        s = get(st, ('timer', a)) if a is not None else None
        if s is None:
            self.bad('mem', '%s of a dead timer in %s' % (what, ins.fn.name), '%s: %s on a timer that does not '
                     'exist' % (self.at(I, ins), what))
        return a, s

    def m_pomp_timer_set(self, I, st, args, ins):
        a, s = self.timer(I, st, args[0], ins, 'pomp_timer_set')
        if s:
            d = st.f.res(args[1])
            put(st, ('timer', a), ('armed' if d != 0 else 'clear',) + s[1:])
        return [(st, 0)]

    def m_pomp_timer_set_periodic(self, I, st, args, ins):
        return self.m_pomp_timer_set(I, st, args, ins)

    def m_pomp_timer_clear(self, I, st, args, ins):
        a, s = self.timer(I, st, args[0], ins, 'pomp_timer_clear')
        if s:
            self.torn(I, st, ins, 'the timer is cleared')
            put(st, ('timer', a), ('clear',) + s[1:])
        return [(st, 0)]

    def m_pomp_timer_destroy(self, I, st, args, ins):
        a, s = self.timer(I, st, args[0], ins, 'pomp_timer_destroy')
        if s:
            put(st, ('timer', a), None)
        return [(st, 0)]

    # ---- reading and writing
    def rd(self, I, st, args, ins, base, n, ctl=None):
        """Outcomes of reading at most n bytes to base."""
        a, s = self.fdstate(I, st, args[0], ins, 'read')
        if s is None:
            self.err(I, st, 9)
            return [(st, -1)]
        self.nonblock(I, st, a, s, ins, 'read')
        out = []
        k = get(st, 'reads', 0)
        alts = self.reads(I, st, a, k, n, ins)
        for x, r, data in alts:
            put(x, 'reads', k + 1)
            put(x, 'errno', None)
            b, off = I.base_off(x, base)
            I.clobber(x, b, x.f.res(off), ins, 'rd')
            if data is not None and isinstance(off, int):
                c = x.wcells(b)
                c.clear()
                for i, v in enumerate(data):
                    c[off + i] = (1, v)
            if self.israw:
                put(x, 'rx', (b, x.f.res(off), r))
            out.append((x, r))
        if self.mode == 'all':
            x = st.fork()
            put(x, 'eof', 1)
            out.append((x, 0))
        for e in (EAGAIN, ) + ((EINTR, 104) if self.mode == 'all' else ()):
            if e == EINTR and (get(st, 'eintr') or self.may_fail(st) is False):
                continue
            x = st.fork()
            if e == EINTR:
                put(x, 'eintr', 1)
            self.err(I, x, e)
            if e != EAGAIN:
                self.failed(x)
            out.append((x, -1))
        if self.mode != 'all':
            if alts:
                out = out[:1]
        return out

    def reads(self, I, st, a, k, n, ins):
        if self.chunks is not None:
            # received bytes: the stream continues where it was left
            opts = self.chunks(st, k)
            out = []
            for data in opts:
                x = st.fork()
                put(x, 'rxpos', get(x, 'rxpos', 0) + len(data))
                out.append((x, len(data), data))
            return out
        if k >= self.maxread or (self.mode != 'all' and not self.force.get('read')):
            return []
        x = st.fork()
        r = I.pf(x, ins, 'nread%d' % k, 'int', 1, 1 << 30)
        x.f.assume_le0(sub(av(r), n))
        return [(x, av(r), None)]

    def m_read(self, I, st, args, ins):
        return self.rd(I, st, args, ins, args[1], args[2])

    def m_recv(self, I, st, args, ins):
        return self.rd(I, st, args, ins, args[1], args[2])

    def m_recvfrom(self, I, st, args, ins):
        return self.rd(I, st, args, ins, args[1], args[2])

    rxctl = ((),)

    def iov(self, I, st, args, ins):
        b, off = I.base_off(st, args[1])
        iov = st.mem[b][off + 16][1]
        ib, io = I.base_off(st, iov)
        return self.rd(I, st, args, ins, st.mem[ib][io][1], st.mem[ib][io + 8][1])

    def m_recvmsg(self, I, st, args, ins):
        res = []
        for s, r in self.iov(I, st, args, ins):
            if r == -1:
                res.append((s, r))
                continue
            opts = self.rxctl if r != 0 else ((),)
            if get(s, 'ctl', 0) >= 2:
                opts = ((),)
            for o in opts:
                x = s.fork()
                if o:
                    put(x, 'ctl', get(x, 'ctl', 0) + 1)
                self.setctl(I, x, args, o, ins)
                res.append((x, r))
        return res

    def setctl(self, I, x, args, o, ins):
        """Control messages and source address of a received message."""
        b, off = I.base_off(x, args[1])
        ctl = x.mem[b][off + 32][1]
        name = x.mem[b].get(off)
        nlen = x.mem[b].get(off + 8)
        cb, co = I.base_off(x, ctl)
        pos = co
        hdrs = []
        fds = ()
        room = x.f.res(x.mem[b][off + 40][1])
        for kind, k in o:
            cells = x.wcells(cb)
            if kind == 'fds':
                if isinstance(room, int):
                    k = min(k, (room - (pos - co) - 16) // 4)
                ln = 16 + 4 * k
                vals = [(pos, 8, ln), (pos + 8, 4, 1), (pos + 12, 4, 1)]
                for i in range(k):
                    fd = self.newfd(I, x, ins, 'rx', 1, 1, tag='%d.%d.%d' % (get(x, 'reads', 0), len(hdrs), i))
                    fds += (atom_of(x, fd),)
                    vals.append((pos + 16 + 4 * i, 4, fd))
            elif kind == 'pkt':
                ln = 16 + 12
                vals = [(pos, 8, ln), (pos + 8, 4, 0), (pos + 12, 4, 8)]
            else:
                ln = 16 + 12
                vals = [(pos, 8, ln), (pos + 8, 4, 1), (pos + 12, 4, 2)]
            for p, z, v in vals:
                for q in [q for q in cells if isinstance(q, int) and p < q + cells[q][0] and q < p + z]:
                    del cells[q]
                cells[p] = (z, v)
            hdrs.append(pos)
            pos += (ln + 7) & ~7
        x.wcells(b)[off + 40] = (8, pos - co)
        x.wcells(b)[off + 48] = (4, 0)
        put(x, 'cmsg', (cb, tuple(hdrs)))
        if name is not None and nlen is not None and isinstance(name[1], Lin):
            nb, no = I.base_off(x, name[1])
            I.clear_range(x, nb, no, 128, ins)
            cn = x.wcells(nb)
            cn[no] = (2, self.family)
            n = {AF_UNIX: 110, AF_INET: 16}[self.family]
            pa = av(I.pf(x, ins, 'peer'))
            cn[no + 2] = (n - 2, pa)
            x.wcells(b)[off + 8] = (4, n)
            put(x, 'peer', (self.family, pa, n))
        return fds

    def m___cmsg_nxthdr(self, I, st, args, ins):
        cb, hdrs = get(st, 'cmsg', (None, ()))
        b, off = I.base_off(st, args[1])
        if b == cb and off in hdrs:
            k = hdrs.index(off) + 1
            return [(st, add(av(cb), hdrs[k]) if k < len(hdrs) else 0)]
        return [(st, 0)]

    # sends: ('q', fd) -> tuple of [data block, len, progress, state]
    def wr(self, I, st, fd, ptr, n, ins, fds=None, what='write', dest=None):
        a, s = self.fdstate(I, st, fd, ins, what)
        if s is None:
            self.err(I, st, 9)
            return [(st, -1)]
        self.nonblock(I, st, a, s, ins, what)
        b, off = I.base_off(st, ptr)
        n = st.f.res(n)
        q = get(st, ('q', a), ())
        cur = None
        for i, e in enumerate(q):
            if e[3] in ('try', 'acc'):
                cur = i
                break
        if get(st, ('shut', a)):
            self.bad('bytes', 'write after shutdown in %s' % ins.fn.name, '%s: data is written after the '
                     'connection was shut down for writing' % self.at(I, ins), st=st)
        if cur is None:
            self.bad('bytes', 'unexpected write in %s' % ins.fn.name, '%s: bytes are written that belong to no '
                     'accepted send' % self.at(I, ins), st=st)
        else:
            data, ln, prog, stt, bfds, dg = q[cur]
            if data is None:
                # a formatted message: the buffer is known once written
                data, ln = b, n
                q = q[:cur] + ((b, n) + q[cur][2:],) + q[cur + 1:]
                put(st, ('q', a), q)
            if dg and dest is None or dest is not None and not dg:
                self.bad('bytes', 'sent without destination in %s' % ins.fn.name, '%s: a datagram is sent without its '
                         'destination' % self.at(I, ins), st=st)
            elif dg and dest != dg[1:]:
                self.bad('bytes', 'wrong destination in %s' % ins.fn.name, '%s: a datagram is sent to another address '
                         'than the one it was sent or the one it replies to (%s, %s)' % (
                             self.at(I, ins), dest, dg[1:]), st=st)
            if b != data or st.f.res(sub(off, prog)) != 0:
                self.bad('bytes', 'wrong bytes written in %s' % ins.fn.name, '%s: the bytes written do not continue '
                         'the oldest unfinished send (offset %s instead of %s)' % (
                             self.at(I, ins), show(st.f.res(off)) if b == data else 'in another buffer',
                             show(st.f.res(prog))), st=st)
            elif st.f.res(sub(add(n, prog), ln)) != 0:
                self.bad('bytes', 'wrong length written in %s' % ins.fn.name, '%s: %s bytes written instead of the '
                         '%s left' % (self.at(I, ins), show(n), show(st.f.res(sub(ln, prog)))), st=st)
            else:
                self.ok('bytes')
                st.f.assume_le0(sub(1, n))
            first = st.f.res(prog) == 0
            if bfds and not dg:
                if first and tuple(fds or ()) != bfds:
                    self.bad('txfd', 'descriptors not sent in %s' % ins.fn.name, '%s: the first bytes of a message '
                             'are written without exactly its descriptors' % self.at(I, ins), st=st)
                elif not first and fds:
                    self.bad('txfd', 'descriptors sent twice in %s' % ins.fn.name, '%s: the descriptors of a message '
                             'are sent again with a later part of it' % self.at(I, ins), st=st)
                else:
                    self.ok('txfd')
            elif fds:
                self.bad('txfd', 'descriptors sent in %s' % ins.fn.name, '%s: descriptors are sent that the message '
                         'does not hold' % self.at(I, ins), st=st)
        out = []

        def prog_by(x, r):
            if cur is not None:
                data, ln, prog, stt, bf, dg = q[cur]
                put(x, ('q', a), q[:cur] + ((data, ln, x.f.res(add(prog, r)), stt, bf, dg),) + q[cur + 1:])
            put(x, 'errno', None)
        f = self.force.get('write')
        if f in (None, 'full') or self.mode == 'all':
            x = st.fork()
            prog_by(x, n)
            if cur is not None:
                self.completed(x, a, cur)
            out.append((x, n))
        dg = cur is not None and q[cur][5]
        if (f == 'part' or self.mode == 'all' and get(st, 'nwr', 0) < 3) and not dg:
            x = st.fork()
            put(x, 'nwr', get(x, 'nwr', 0) + 1)
            p0 = x.f.res(q[cur][2]) if cur is not None else 0
            end = x.f.res(add(p0, n))
            lo, hi = x.f.range(end)
            to = av(I.pf(x, ins, 'progress%d.%d.%d' % (a, get(x, 'nwr', 0), self.stepno), 'int', 1,
                         max(1, min(1 << 30, hi))))
            try:
                x.f.assume_le0(add(sub(to, end), 1))
                x.f.assume_le0(add(sub(p0, to), 1))
                r = x.f.res(sub(to, p0))
                prog_by(x, r)
                out.append((x, r))
            except Infeasible:
                pass
        for e in (EAGAIN, EPIPE, EINTR):
            if e == EAGAIN and (self.mode == 'all' or f == 'again'):
                x = st.fork()
                self.err(I, x, e)
                out.append((x, -1))
            elif e == EPIPE and self.mode == 'all':
                x = st.fork()
                self.err(I, x, e)
                put(x, ('werr', a), 1)
                out.append((x, -1))
            elif e == EINTR and self.may_fail(st) and not get(st, 'eintr'):
                x = st.fork()
                self.err(I, x, e)
                put(x, 'eintr', 1)
                self.failed(x)
                out.append((x, -1))
        return out
    stepno = 0

    def completed(self, st, a, i):
        """the bytes of entry i of fd a are all written"""
        q = get(st, ('q', a), ())
        e = q[i]
        last = all(x[3] not in ('try', 'acc') for x in q[i + 1:])
        put(st, ('q', a), q[:i] + (e[:3] + ('done-empty' if last else 'done',) + e[4:],) + q[i + 1:])

    def m_write(self, I, st, args, ins):
        return self.wr(I, st, args[0], args[1], args[2], ins)

    def m_send(self, I, st, args, ins):
        return self.wr(I, st, args[0], args[1], args[2], ins)

    def addr_in(self, I, st, p, ln):
        """(family, rest, length) of an address"""
        b, off = I.base_off(st, p)
        c = st.mem.get(b, {})
        if not isinstance(off, int):
            return None
        f, x = c.get(off), c.get(off + 2)
        return (f and st.f.res(f[1]), x and st.f.res(x[1]), st.f.res(ln))

    def m_sendto(self, I, st, args, ins):
        d = self.addr_in(I, st, args[4], args[5])
        return self.wr(I, st, args[0], args[1], args[2], ins, what='sendto', dest=d)

    def m_sendmsg(self, I, st, args, ins):
        b, off = I.base_off(st, args[1])
        c = st.mem[b]
        ib, io = I.base_off(st, c[off + 16][1])
        base, n = st.mem[ib][io][1], st.mem[ib][io + 8][1]
        fds = []
        p = c.get(off + 32, (0, 0))[1]
        if p != 0:
            cb, co = I.base_off(st, p)
            cc = st.mem.get(cb, {})
            ln = cc.get(co, (8, 16))[1]
            ctlen = c.get(off + 40, (8, 0))[1]
            ln = st.f.res(ln)
            if isinstance(ln, int) and isinstance(ctlen, int) and ln <= ctlen:
                for k in range((ln - 16) // 4):
                    v = cc.get(co + 16 + 4 * k)
                    fds.append(st.f.res(v[1]) if v else None)
        return self.wr(I, st, args[0], base, n, ins, fds=fds, what='sendmsg')

    # ---- user callbacks
    def torn(self, I, st, ins, what):
        if get(st, 'instop'):
            self.bad('stop', 'synchronous stop in %s' % ins.fn.name, '%s: pomp_ctx_stop called from a callback '
                     'tears down at once: %s' % (self.at(I, ins), what))

    def on_indirect(self, I, st, fv, args, ins):
        a = atom_of(st, fv)
        k = dom.A_KEY[a] if a is not None else None
        if k is None or k[0] != 'user':
            if isinstance(fv, int):
                self.bad('mem', 'call through NULL in %s' % ins.fn.name, '%s: call through a NULL function pointer' %
                         self.at(I, ins))
                return []
            return None
        name = k[1]
        self.nev['callbacks'] = self.nev.get('callbacks', 0) + 1
        return self.user(I, st, name, args, ins)

    def user(self, I, st, name, args, ins):
        return [(st, None)]

    def invoke(self, I, st, fname, args, tag, ins):
        """The user calls fname from within a callback."""
        fn = I.m.functions[fname]
        old = I.ctx
        I.ctx = I._ctxid.setdefault(('uctx', old, id(ins), tag), ('u', len(I._ctxid)))
        try:
            return I.run_function(fn, args, st)
        finally:
            I.ctx = old
