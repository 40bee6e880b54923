"""Model of the kernel and of the user for the loop, events and timers: the real
code of pomp_loop*.c, pomp_evt*.c and pomp_timer*.c is analysed over what epoll,
poll, eventfd, pipe, timerfd and POSIX timers can do and over what the user (and
another thread) can call."""
import run
import rt
import interp
import canon
import dom
import ir as IR
from dom import *
from rt import get, put, items, atom_of, IN, PRI, OUT, ERR, HUP, EINTR, EAGAIN, ENOMEM, EINVAL, EMFILE

EEXIST, ENOENT, EBUSY, ETIMEDOUT, EPERM, ENOSYS, EBADF = 17, 2, 16, 110, 1, 38, 9
ALL = IN | PRI | OUT | ERR | HUP


UPTR = {}


def uptr(key):
    """some address of the user's program: another one for each name"""
    if key not in UPTR:
        lo = 0x40000000 + 256 * len(UPTR)
        UPTR[key] = atom(key, 'ptr', lo, lo + 255)
    return av(UPTR[key])


def ufn(name):
    return uptr(('user', name))


def ud(name):
    return uptr(('user', 'ud', name))


def bucket(fd):
    x = (fd * 0xefec2401) & ((1 << 64) - 1)
    x ^= x >> 4
    return x % 128


def colliding(first, n):
    r = [first]
    f = first
    while len(r) < n:
        f += 1
        if bucket(f) == bucket(first):
            r.append(f)
    return r


def tag_of(v):
    """name of a user's pointer"""
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
        k = A_KEY[v.t[0][0]]
        if k[:2] == ('user', 'ud'):
            return k[2]
    return None


class LR(rt.RT):
    pun_bytes = True

    def __init__(self):
        rt.RT.__init__(self)
        for n in list(self.models):
            if n.startswith('pomp_'):
                del self.models[n]
        self.skip = {'pomp_log', 'pomp_logi'}
        self.react = {}
        self.inj = ()
        self.role = 'L'
        self.stepno = 0
        self.stream = ()
        self.rdy = 'some'
        self.maxinj = 1
        self.maxidle = 1
        self.pipecap = 3         # from so many bytes on, the number is not known
        self.sigs = ()
        self.race = False

    def period(self, st):
        pass
    cur = None

    def bad(self, cat, key, text, st=None):
        s = st or self.cur
        if s is not None and s.steps():
            text += ', after ' + ', '.join(x.lstrip('!') for x in s.steps()[-6:])
        rt.RT.bad(self, cat, key, text)

    def truth(self, I, st, r):
        r = st.f.res(r)
        c = I.unbool(r)
        if c is not None:
            y, n = I.split(st.fork(), c), I.split(st.fork(), I.negate(c))
            if bool(y) != bool(n):
                return 1 if y else 0
        return r

    def exact(self, I, fn, h):
        return 400

    # ---- descriptors are small numbers
    def newfd(self, I, st, ins, kind, nb=0, ce=0, tag='', extra=0):
        n = 3
        while get(st, ('k', n)) is not None:
            n += 1
        put(st, ('k', n), (kind, nb, ce, extra))
        return n

    def kfd(self, I, st, fd, ins, what):
        v = st.f.res(fd)
        s = get(st, ('k', v)) if isinstance(v, int) else None
        if s is None:
            self.bad('fd', '%s on a dead descriptor in %s' % (what, ins.fn.name), '%s: %s(%s): not an open '
                     'descriptor' % (self.at(I, ins), what, show(v)))
            self.err(I, st, EBADF)
        elif s[0] == 'user' and what != 'epoll_ctl':
            self.bad('fd', '%s on the user\'s descriptor in %s' % (what, ins.fn.name), '%s: %s on a descriptor of the '
                     'user' % (self.at(I, ins), what))
        else:
            self.ok('fd')
        return v, s

    def m_close(self, I, st, args, ins):
        v, s = self.kfd(I, st, args[0], ins, 'close')
        if s is None:
            return [(st, -1)]
        self.kclose(st, v)
        return [(st, 0)]

    def kclose(self, st, v):
        k = get(st, ('k', v))
        put(st, ('k', v), None)
        if k and k[0] in ('pr', 'pw') and not any(o[0] in ('pr', 'pw') and o[3] == k[3] for _, o in items(st, 'k')):
            put(st, ('pipe', k[3]), None)
        put(st, ('ep', v), None)
        for (e,), l in items(st, 'ep'):
            put(st, ('ep', e), tuple(x for x in l if x[0] != v))

    def m_fcntl(self, I, st, args, ins):
        v, s = self.kfd(I, st, args[0], ins, 'fcntl')
        cmd = st.f.res(args[1])
        if s is None:
            return [(st, -1)]

        def done(x):
            k, nb, ce, e = get(x, ('k', v))
            if cmd == 1:
                return ce
            if cmd == 3:
                return 2 | (0x800 if nb else 0)
            a = x.f.res(args[2]) if len(args) > 2 else 0
            if cmd == 2:
                ce = a & 1
            elif cmd == 4:
                nb = 1 if a & 0x800 else 0
            put(x, ('k', v), (k, nb, ce, e))
            return 0
        return self.outcomes(I, st, 'fcntl', done, [EINVAL])

    def m_eventfd(self, I, st, args, ins):
        fl = st.f.res(args[1])
        iv = st.f.res(args[0])
        return self.outcomes(I, st, 'eventfd', lambda s: self.newfd(
            I, s, ins, 'evfd', int(bool(fl & 0x800)), int(bool(fl & 0x80000)), extra=1 if iv else 0), [EMFILE])

    def pipes(self, I, st, args, ins, fl=0):
        b, off = I.base_off(st, args[0])

        def mkp(s):
            i = 3
            while get(s, ('k', i)) is not None:
                i += 1
            while get(s, ('pipe', i)) is not None:
                i += 64
            put(s, ('pipe', i), 0)
            nb, ce = int(bool(fl & 0x800)), int(bool(fl & 0x80000))
            r = self.newfd(I, s, ins, 'pr', nb, ce, extra=i)
            w = self.newfd(I, s, ins, 'pw', nb, ce, extra=i)
            c = s.wcells(b)
            for q in [q for q in c if isinstance(q, int) and off < q + c[q][0] and q < off + 8]:
                z, v = c.pop(q)
                if isinstance(v, int) and v == 0:
                    if q < off:
                        c[q] = (off - q, 0)
                    if q + z > off + 8:
                        c[off + 8] = (q + z - off - 8, 0)
            c[off] = (4, r)
            c[off + 4] = (4, w)
            return 0
        return self.outcomes(I, st, 'pipe', mkp, [EMFILE])

    def m_pipe(self, I, st, args, ins):
        return self.pipes(I, st, args, ins)

    def m_pipe2(self, I, st, args, ins):
        return self.pipes(I, st, args, ins, st.f.res(args[1]))

    def ready(self, st, fd):
        """IN/HUP of a descriptor of the library."""
        k = get(st, ('k', fd))
        if k[0] == 'evfd':
            return IN if k[3] else 0
        if k[0] == 'pr':
            return IN if get(st, ('pipe', k[3])) else 0
        if k[0] == 'tfd':
            return IN if k[3] else 0
        return 0

    def m_read(self, I, st, args, ins):
        out = []
        for s in self.yields(I, st, ins, 'read'):
            out += self.read1(I, s, args, ins)
        return out

    def read1(self, I, st, args, ins):
        v, s = self.kfd(I, st, args[0], ins, 'read')
        if s is None:
            return [(st, -1)]
        k, nb, ce, e = s
        n = st.f.res(args[2])
        b, off = I.base_off(st, args[1])
        out = []
        if self.may_fail(st) and not get(st, 'eintr'):
            x = st.fork()
            self.failed(x)
            put(x, 'eintr', 1)
            self.err(I, x, EINTR)
            out.append((x, -1))
        cnt = get(st, ('pipe', e)) if k == 'pr' else e
        if k in ('evfd', 'tfd') and isinstance(n, int) and n < 8:
            self.bad('dispatch', 'short read in %s' % ins.fn.name, '%s: fewer than 8 bytes are read from a counter: the '
                     'read fails, the descriptor stays readable' % self.at(I, ins))
            self.err(I, st, EINVAL)
            return out + [(st, -1)]
        if not cnt:
            if not nb:
                self.bad('block', 'blocking read in %s' % ins.fn.name, '%s: the read blocks for ever: nothing to read '
                         'on a blocking descriptor' % self.at(I, ins))
                return out
            self.err(I, st, EAGAIN)
            return out + [(st, -1)]
        self.ok('block')
        put(st, 'errno', None)
        if k in ('evfd', 'tfd'):
            put(st, ('k', v), (k, nb, ce, 0))
            I.clear_range(st, b, off, 8, ins)
            st.wcells(b)[off] = (8, av(I.pf(st, ins, 'count', 'int', 1, 1 << 62)) if cnt > 1 else 1)
            return out + [(st, 8)]
        # bytes of a pipe: 1, 2, or more than any buffer of the library
        I.clear_range(st, b, off, n, ins)
        if cnt <= 2:
            r = min(n, cnt)
            put(st, ('pipe', e), cnt - r)
            return out + [(st, r)]
        if n == 1:
            for c in (self.pipecap - 1, 3):
                x = st.fork()
                put(x, ('pipe', e), c)
                out.append((x, 1))
            return out
        for r, c in ((n, 3), (n, 1), (n, 0), (n - 1, 0)):
            if get(st, 'longpipe', 0) >= 2 and c == 3:
                continue
            x = st.fork()
            put(x, 'longpipe', get(x, 'longpipe', 0) + 1)
            put(x, ('pipe', e), c)
            out.append((x, r))
        return out

    def m_write(self, I, st, args, ins):
        out = []
        for s in self.yields(I, st, ins, 'write'):
            for x, r in self.write1(I, s, args, ins):
                out += [(y, r) for y in self.yields(I, x, ins, 'written')]
        return out

    def m_eventfd_write(self, I, st, args, ins):
        o = atom(('ext', 'eventfd_write'), 'obj', info={'size': 8})
        c = st.wcells(o)
        c.clear()
        c[0] = (8, st.f.res(args[1]))
        out = self.m_write(I, st, [args[0], av(o), 8], ins)
        for s, r in out:
            s.wcells(o).clear()
        return [(s, 0 if r == 8 else r) for s, r in out]

    def m_eventfd_read(self, I, st, args, ins):
        return [(s, 0 if r == 8 else r) for s, r in self.m_read(I, st, [args[0], args[1], 8], ins)]

    def write1(self, I, st, args, ins):
        v, s = self.kfd(I, st, args[0], ins, 'write')
        if s is None:
            return [(st, -1)]
        k, nb, ce, e = s
        n = st.f.res(args[2])
        out = []
        if self.may_fail(st) and not get(st, 'eintr'):
            x = st.fork()
            self.failed(x)
            put(x, 'eintr', 1)
            self.err(I, x, EINTR)
            out.append((x, -1))
        cnt = get(st, ('pipe', e)) if k == 'pw' else e
        if cnt and k == 'pw' and self.mode == 'all':
            # the pipe is full
            if not nb:
                self.bad('block', 'blocking write in %s' % ins.fn.name, '%s: the write blocks when the pipe is full' %
                         self.at(I, ins))
            else:
                x = st.fork()
                self.err(I, x, EAGAIN)
                put(x, 'full', 1)
                put(x, ('pipe', e), 3)
                put(x, 'wc', 3)
                out.append((x, -1))
        self.ok('block')
        put(st, 'errno', None)
        if k == 'evfd':
            b, off = I.base_off(st, args[1])
            c = st.mem.get(b, {}).get(off)
            val = st.f.res(c[1]) if c and c[0] == 8 else None
            if n != 8:
                self.bad('dispatch', 'short write in %s' % ins.fn.name, '%s: fewer than 8 bytes are written to an '
                         'eventfd' % self.at(I, ins))
                self.err(I, st, EINVAL)
                return out + [(st, -1)]
            if val != 0:
                put(st, ('k', v), (k, nb, ce, min(2, e + 1)))
            return out + [(st, 8)]
        if k == 'pw':
            c = cnt + (n if isinstance(n, int) else 3)
            put(st, ('pipe', e), 3 if c >= self.pipecap else c)
            return out + [(st, n)]
        return out + [(st, n)]

    # ---- epoll
    def m_epoll_create(self, I, st, args, ins):
        def f(s):
            n = self.newfd(I, s, ins, 'ep')
            put(s, ('ep', n), ())
            return n
        return self.outcomes(I, st, 'epoll_create', f, [EMFILE])

    def m_epoll_create1(self, I, st, args, ins):
        fl = st.f.res(args[0])

        def f(s):
            n = self.newfd(I, s, ins, 'ep', 0, int(bool(fl & 0x80000)))
            put(s, ('ep', n), ())
            return n
        return self.outcomes(I, st, 'epoll_create', f, [EMFILE])

    def m_epoll_ctl(self, I, st, args, ins):
        e, s = self.kfd(I, st, args[0], ins, 'epoll_ctl')
        op, fd = st.f.res(args[1]), st.f.res(args[2])
        if s is None or not isinstance(fd, int):
            self.err(I, st, EBADF)
            return [(st, -1)]
        tab = get(st, ('ep', e))
        cur = [x for x in tab if x[0] == fd]
        k = get(st, ('k', fd))
        code = 0
        if k is None:
            code = EBADF
        elif op == 1 and cur:
            code = EEXIST
        elif op != 1 and not cur:
            code = ENOENT
        if code:
            self.err(I, st, code)
            return [(st, -1)]
        ent = None
        if op in (1, 3):
            b, off = I.base_off(st, args[3])
            ev = I.load(st, args[3], ('i', 32), ins)
            ev = st.f.res(ev) if not isinstance(ev, list) else None
            data = tuple(sorted((q - off - 4, z, v) for q, (z, v) in st.mem[b].items()
                                if isinstance(q, int) and off + 4 <= q and q + z <= off + 12))
            if not isinstance(ev, int):
                raise interp.AnalysisError('events given to epoll_ctl are not known')
            ent = (fd, ev & 0xffffffff, data)

        def done(s):
            t = get(s, ('ep', e))
            put(s, ('ep', e), tuple(x for x in t if x[0] != fd) + ((ent,) if ent else ()))
            return 0
        return self.outcomes(I, st, 'epoll_ctl', done, [ENOMEM] if op != 2 else [])

    def m_epoll_wait(self, I, st, args, ins):
        out = []
        for s in self.yields(I, st, ins, 'wait'):
            out += self.epoll1(I, s, args, ins)
        return out

    def m_epoll_pwait(self, I, st, args, ins):
        return self.m_epoll_wait(I, st, args, ins)

    def epoll1(self, I, st, args, ins):
        e, s = self.kfd(I, st, args[0], ins, 'epoll_wait')
        if s is None:
            return [(st, -1)]
        mx = st.f.res(args[2])
        if not isinstance(mx, int) or mx <= 0:
            self.err(I, st, EINVAL)
            return [(st, -1)]
        tab = get(st, ('ep', e))
        b, off = I.base_off(st, args[1])

        def give(x, rd):
            I.clear_range(x, b, off, 12 * max(1, len(rd)), ins)
            c = x.wcells(b)
            for q in [q for q in c if isinstance(q, int) and off <= q < off + 12 * len(rd)]:
                del c[q]
            d = {f: dt for f, _, dt in get(x, ('ep', e))}
            for i, (f, r) in enumerate(rd):
                c[off + 12 * i] = (4, r)
                for q, z, v in d[f]:
                    c[off + 12 * i + 4 + q] = (z, v)
        return self.wait(I, st, [(f, ev) for f, ev, _ in tab], st.f.res(args[3]), give, mx, ins, True)

    def m_poll(self, I, st, args, ins):
        out = []
        for s in self.yields(I, st, ins, 'wait'):
            out += self.poll1(I, s, args, ins)
        return out

    def poll1(self, I, st, args, ins):
        n = st.f.res(args[1])
        b, off = I.base_off(st, args[0])
        if not isinstance(n, int) or not isinstance(off, int):
            raise interp.AnalysisError('poll of an unknown number of descriptors')
        tab = []
        for i in range(n):
            p = add(av(b), off + 8 * i)
            f = st.f.res(I.load(st, p, ('i', 32), ins))
            ev = st.f.res(I.load(st, add(p, 4), ('i', 16), ins))
            rv = I.load(st, add(p, 6), ('i', 16), ins)
            if not isinstance(f, int) or not isinstance(ev, int):
                raise interp.AnalysisError('descriptor given to poll is not known')
            tab.append((f, ev & 0xffff))
        self.interest(st, tab, 'in the array given to poll by %s' % ins.fn.name)

        if not self.keeppoll:
            put(st, ('pollarr', b), 1)

        def give(x, rd):
            d = dict(rd)
            for i in range(n):
                I.clear_range(x, b, off + 8 * i + 6, 2, ins)
                x.wcells(b)[off + 8 * i + 6] = (2, d.get(tab[i][0], 0))
        return self.wait(I, st, tab, st.f.res(args[2]), give, n, ins, False)

    def interest(self, st, tab, where):
        """What the kernel monitors is what the user registered."""
        want = {fd[0]: v[0] for fd, v in items(st, 'ur') if (get(st, ('k', fd[0])) or ('',))[0] == 'user'}
        have = {}
        for f, ev in tab:
            k = get(st, ('k', f))
            if k is not None and k[0] == 'user':
                if f in have:
                    self.bad('table', 'monitored twice', 'descriptor %d is monitored twice %s' % (f, where))
                have[f] = ev
        dead = [f for f, ev in tab if get(st, ('k', f)) is None and get(st, ('ur', f)) is None]
        if dead:
            self.bad('table', 'dead descriptor monitored', 'descriptor %d is monitored %s although it was removed' % (
                dead[0], where))
        for f in sorted(set(want) | set(have)):
            if f not in have:
                self.bad('table', 'registered descriptor not monitored', 'descriptor %d is registered but not monitored '
                         '%s' % (f, where))
            elif f not in want:
                self.bad('table', 'unregistered descriptor monitored', 'descriptor %d is monitored %s although it is '
                         'not registered' % (f, where))
            elif want[f] & ALL != have[f] & ALL:
                self.bad('table', 'wrong events monitored', 'descriptor %d is registered for events %#x but monitored '
                         'for %#x %s' % (f, want[f], have[f], where))
            else:
                self.ok('table')

    def pending(self, st):
        """Something the loop has to do without any event of the user's fds."""
        if any(not e[4] for e in get(st, 'il', ())):
            return 'idle functions are registered'
        if get(st, 'wk'):
            return 'the loop was woken up'
        for (i,), e in items(st, 'ue'):
            if e[1] and e[2]:
                return 'an event is signaled'
        for (i,), e in items(st, 'ut'):
            if e[3]:
                return 'a timer expired'
        return None

    def wait(self, I, st, tab, timeout, give, mx, ins, anyorder):
        want = get(st, 'timeout')
        if timeout != want and not (want != -1 and isinstance(timeout, int) and 0 <= timeout < want and
                                    get(st, 'kwaits')):
            self.bad('dispatch', 'wrong timeout in %s' % ins.fn.name, '%s: waits for %s ms instead of %s' % (
                self.at(I, ins), show(timeout), want))
        put(st, 'batch', None)
        for (i,), e in items(st, 'ue'):
            if e[5]:
                self.evt(st, i, fresh=0)
        put(st, 'kwaits', min(3, get(st, 'kwaits', 0) + 1))
        opts = [()]
        for f, ev in tab:
            k = get(st, ('k', f))
            if k is None:
                ch = [0x20] if not anyorder else [0]
            elif k[0] == 'user':
                ch = self.uready(st, f, ev)
            else:
                ch = [self.ready(st, f) & (ev | ERR | HUP)]
            opts = [o + (((f, r),) if r else ()) for o in opts for r in ch]
        why = self.pending(st)
        out = []
        if self.mode == 'all' and self.may_fail(st) and not get(st, 'eintr'):
            x = st.fork()
            self.failed(x)
            put(x, 'eintr', 1)
            self.err(I, x, EINTR)
            out.append((x, -1))
        if self.may_fail(st):
            x = st.fork()
            self.failed(x)
            self.err(I, x, EBADF)
            put(x, 'kret', -EBADF)
            out.append((x, -1))
        for o in opts:
            if not o:
                if why:
                    self.bad('lost', 'wait with pending work', '%s: the wait %s although %s (%s)' % (
                        self.at(I, ins), 'blocks' if timeout != 0 else 'sees nothing', why, self.where))
                else:
                    self.ok('lost')
                if timeout != -1:
                    x = st.fork()
                    give(x, ())
                    put(x, 'kret', 0)
                    self.batch(x, ())
                    put(x, 'errno', None)
                    out.append((x, 0))
                continue
            orders = [o]
            if anyorder and len(o) > 1 and self.mode == 'all':
                orders.append(o[::-1])
            for o2 in orders:
                if len(o2) > mx:
                    o2 = o2[:mx]
                x = st.fork()
                give(x, o2)
                put(x, 'kret', len(o2))
                put(x, 'errno', None)
                if not why and not any((get(x, ('k', f)) or ('user',))[0] == 'user' for f, r in o2) and not get(x, 'conc'):
                    c = get(x, 'wc', 0)
                    if not c:
                        self.bad('lost', 'spurious wakeup', '%s: the wait is woken up although nothing happened' %
                                 self.at(I, ins))
                    elif c < 3:
                        put(x, 'wc', c - 1 or None)
                self.batch(x, o2)
                out.append((x, len(o2)))
        return out

    def uready(self, st, fd, ev):
        if self.mode != 'all':
            return [0]
        if self.rdy == 'always':
            return [ev & ALL]
        if self.rdy == 'many':
            return [0] + [b for b in (IN, PRI, OUT) if ev & b] + [HUP, ERR, ev & (IN | PRI | OUT) | HUP | ERR]
        return [0, ev & (IN | PRI | OUT) | HUP]

    def batch(self, st, o):
        """What has to be dispatched."""
        l = []
        for f, r in o:
            k = get(st, ('k', f))
            if k is not None and k[0] == 'user' and r & ALL:
                l.append(('fd', f, r & ALL))
        for (f,), v in items(st, 'ur'):
            put(st, ('ur', f), v[:2] + ('old',) + v[3:])
        for (i,), e in items(st, 'ue'):
            if e[1] and e[2]:
                l.append(('evt', i))
        for (i,), e in items(st, 'ut'):
            if e[3]:
                l.append(('timer', i))
        put(st, 'batch', tuple(sorted(l)))
        put(st, 'wil', 1 if any(not e[4] for e in get(st, 'il', ())) else None)

    # ---- timers of the kernel
    def m_timerfd_create(self, I, st, args, ins):
        fl = st.f.res(args[1])
        if st.f.res(args[0]) != 1:
            self.bad('timer', 'clock of the timer', '%s: the timer does not follow the monotonic clock' % self.at(I, ins))
        return self.outcomes(I, st, 'timerfd_create', lambda s: self.newfd(
            I, s, ins, 'tfd', int(bool(fl & 0x800)), int(bool(fl & 0x80000))), [EMFILE])

    def spec(self, I, st, p, ins):
        v = [st.f.res(I.load(st, add(p, k), ('i', 64), ins)) for k in (0, 8, 16, 24)]
        return tuple(v)

    def settime(self, I, st, args, ins, fire):
        """itimerspec against what the user asked"""
        sp = self.spec(I, st, args[2], ins)
        put(st, 'spec', (tuple(show(x) for x in sp), st.f.res(args[1]), ins.fn.name, self.at(I, ins)))
        for x, lim in zip(sp, (INF, 999999999) * 2):
            if not isinstance(x, int) or x < 0 or x > lim:
                self.bad('timer', 'invalid time in %s' % ins.fn.name, '%s: %s is not a valid time' % (
                    self.at(I, ins), [show(y) for y in sp]))
        return sp

    def m_timerfd_settime(self, I, st, args, ins):
        v, s = self.kfd(I, st, args[0], ins, 'timerfd_settime')
        if s is None:
            return [(st, -1)]
        sp = self.settime(I, st, args, ins, None)

        def done(x):
            k = get(x, ('k', v))
            put(x, ('k', v), k[:3] + (0,))
            put(x, ('arm', v), 1 if sp[2:] != (0, 0) else None)
            return 0
        return self.outcomes(I, st, 'timerfd_settime', done, [])

    def m_timer_create(self, I, st, args, ins):
        b, off = I.base_off(st, args[1])
        val = st.f.res(I.load(st, args[1], IR.PTR, ins))
        no = st.f.res(I.load(st, add(args[1], 8), ('i', 32), ins))
        if st.f.res(args[0]) != 1:
            self.bad('timer', 'clock of the timer', '%s: the timer does not follow the monotonic clock' % self.at(I, ins))
        ob, oo = I.base_off(st, args[2])

        def f(s):
            i = 0
            while get(s, ('pt', i)) is not None:
                i += 1
            put(s, ('pt', i), (val, no, 0))
            c = s.wcells(ob)
            I.clear_range(s, ob, oo, 8, ins)
            s.wcells(ob)[oo] = (8, i)
            return 0
        return self.outcomes(I, st, 'timer_create', f, [EAGAIN])

    def m_timer_delete(self, I, st, args, ins):
        i = st.f.res(args[0])
        if get(st, ('pt', i)) is None:
            self.bad('timer', 'deletion of a dead timer in %s' % ins.fn.name, '%s: timer_delete of a timer that does not '
                     'exist' % self.at(I, ins))
            self.err(I, st, EINVAL)
            return [(st, -1)]
        put(st, ('pt', i), None)
        return [(st, 0)]

    def m_timer_settime(self, I, st, args, ins):
        i = st.f.res(args[0])
        p = get(st, ('pt', i))
        if p is None:
            self.bad('timer', 'use of a dead timer in %s' % ins.fn.name, '%s: timer_settime of a timer that does not '
                     'exist' % self.at(I, ins))
            self.err(I, st, EINVAL)
            return [(st, -1)]
        sp = self.settime(I, st, args, ins, None)

        def done(x):
            put(x, ('pt', i), p[:2] + (1 if sp[2:] != (0, 0) else 0,))
            return 0
        return self.outcomes(I, st, 'timer_settime', done, [])

    def m_sigaction(self, I, st, args, ins):
        no = st.f.res(args[0])
        fn = st.f.res(I.load(st, args[1], IR.PTR, ins))

        def f(s):
            put(s, ('sig', no), fn)
            return 0
        return self.outcomes(I, st, 'sigaction', f, [EINVAL])

    def m___libc_current_sigrtmin(self, I, st, args, ins):
        return [(st, 34)]

    def m_sigemptyset(self, I, st, args, ins):
        return [(st, 0)]

    # ---- threads
    def tid(self, st):
        return get(st, 'tid', 'A')

    def m_pthread_mutex_init(self, I, st, args, ins):
        return [(st, 0)]

    def m_pthread_mutexattr_init(self, I, st, args, ins):
        return [(st, 0)]
    m_pthread_mutexattr_settype = m_pthread_mutexattr_destroy = m_pthread_mutexattr_init

    def m_pthread_mutex_destroy(self, I, st, args, ins):
        p = st.f.res(args[0])
        if any(l[0] == p for l in get(st, 'locks', ())):
            self.bad('lock', 'mutex destroyed while locked in %s' % ins.fn.name, '%s: the mutex is destroyed while '
                     'locked' % self.at(I, ins))
        return [(st, 0)]

    def m_pthread_mutex_lock(self, I, st, args, ins):
        out = []
        for s in self.yields(I, st, ins, 'lock'):
            p = s.f.res(args[0])
            hold = [l for l in get(s, 'locks', ()) if l[0] == p]
            if hold:
                if hold[0][1] == self.tid(s):
                    self.bad('lock', 'deadlock in %s' % ins.fn.name, '%s: the mutex is locked again by the thread that '
                             'holds it' % self.at(I, ins))
                continue          # the other thread holds it: blocks
            self.ok('lock')
            put(s, 'locks', get(s, 'locks', ()) + ((p, self.tid(s)),))
            out.append((s, 0))
        return out

    def m_pthread_mutex_unlock(self, I, st, args, ins):
        p = st.f.res(args[0])
        l = get(st, 'locks', ())
        if (p, self.tid(st)) not in l:
            self.bad('lock', 'unlock of a free mutex in %s' % ins.fn.name, '%s: the mutex is unlocked by a thread that '
                     'does not hold it' % self.at(I, ins))
        put(st, 'locks', tuple(x for x in l if x != (p, self.tid(st))) or None)
        return [(s, 0) for s in self.yields(I, st, ins, 'unlocked')]

    def yields(self, I, st, ins, what):
        """Another thread may run here, a signal may arrive here."""
        out = [st]
        if self.mode != 'all' or get(st, 'ninj', 0) >= self.maxinj or self.tid(st) != 'A' or self.I.probe:
            return out
        for o in self.inj:
            if o[0] in ('idle', 'idlec') and len(get(st, 'il', ())) > self.maxidle:
                continue
            x = st.fork()
            put(x, 'ninj', get(x, 'ninj', 0) + 1)
            put(x, 'tid', 'B')
            put(x, 'conc', 1)
            x.trace = (x.trace, '!%s by another thread at %s in %s' % (oname(o), what, ins.fn.name))
            old = self.role
            self.role = 'T' if o[0] in THREADSAFE else 'L'
            saved = x.mem.get(I.errno_obj)
            for s in self.do(I, x, o, 'inj', ins):
                put(s, 'tid', None)
                # errno is per thread
                if saved is not None:
                    s.wcells(I.errno_obj)[0] = saved[0] if 0 in saved else (4, 0)
                out.append(s)
            self.role = old
        return out

    def on_deref(self, I, st, ptr, size, ins, write):
        rt.RT.on_deref(self, I, st, ptr, size, ins, write)
        if not self.race or self.role is None:
            return
        b, off = I.base_off(st, st.f.res(ptr))
        if b is None or not isinstance(off, int):
            return
        lp = get(st, 'lp')
        cls = None
        if lp is not None and b == atom_of(st, lp):
            cls = 'loop'
        else:
            for (i,), e in items(st, 'ue'):
                if atom_of(st, e[0]) == b:
                    cls = 'event'
        if cls:
            held = any(l[1] == self.tid(st) for l in get(st, 'locks', ()))
            k = ('race', cls, off, self.role, bool(write), held, ins.fn.name)
            self.nev[k] = self.nev.get(k, 0) + 1

    # ---- the user
    def user(self, I, st, name, args, ins):
        self.cur = st
        a = [st.f.res(x) for x in args]
        lk = [l for l in get(st, 'locks', ()) if l[1] == self.tid(st)]
        if lk:
            self.bad('lock', 'callback called with a lock held by %s' % ins.fn.name, '%s: the user\'s function is called '
                     'while a mutex of the library is held' % self.at(I, ins))
        else:
            self.ok('lock')
        if name == 'fdcb':
            return self.fdcb(I, st, a, ins)
        if name.startswith('idle'):
            return self.idlecb(I, st, name, a, ins)
        if name == 'evtcb':
            return self.evtcb(I, st, a, ins)
        if name == 'timercb':
            return self.timercb(I, st, a, ins)
        raise run.Broken('callback ' + name)

    def take(self, st, e):
        b = get(st, 'batch')
        if b and e in b:
            b = list(b)
            b.remove(e)
            put(st, 'batch', tuple(b) or None)
            return True
        return False

    def fdcb(self, I, st, a, ins):
        fd, rev, u = a
        where = self.at(I, ins)
        reg = get(st, ('ur', fd)) if isinstance(fd, int) else None
        ent = [e for e in get(st, 'batch', None) or () if e[0] == 'fd' and e[1] == fd]
        if get(st, 'timeout') is None:
            self.bad('dispatch', 'callback outside of a wait', '%s: the callback of a descriptor is called outside of a '
                     'wait' % where)
        if reg is None:
            self.bad('dispatch', 'callback of a removed descriptor', '%s: the callback of descriptor %s is called '
                     'although it is not registered' % (where, show(fd)))
            return [(st, None)]
        if tag_of(u) != ('fd', fd, reg[1]):
            self.bad('dispatch', 'wrong userdata', '%s: the callback of descriptor %s gets the userdata %s' % (
                where, fd, tag_of(u)))
        if not ent:
            self.bad('dispatch', 'event dispatched twice', '%s: the callback of descriptor %d is called again or without '
                     'an event' % (where, fd))
        elif reg[2] == 'new':
            self.bad('dispatch', 'stale event', '%s: an event that occurred on a removed descriptor %d is given to the '
                     'registration made since with the same number' % (where, fd))
            self.take(st, ent[0])
        else:
            if rev != ent[0][2]:
                self.bad('dispatch', 'wrong events', '%s: the callback of descriptor %d gets events %s instead of %#x' % (
                    where, fd, show(rev), ent[0][2]))
            self.ok('dispatch')
            self.take(st, ent[0])
        return self.reactions(I, st, 'fd', fd, ins)

    def idlecb(self, I, st, name, a, ins):
        where = self.at(I, ins)
        il = get(st, 'il', ())
        key = (name, tag_of(a[0]))
        fl = get(st, 'flushing')
        ad = get(st, 'adding')
        if not isinstance(ad, tuple):
            ad = None
        # candidates: the oldest entry (of the cookie when flushing by cookie)
        cand = [e for e in il if fl in (None, 1) or e[2] == fl]
        group = []
        for e in cand:
            group.append(e)
            if not e[3] and not e[4]:
                break
        # entries added concurrently have no order; entries that may have been removed may be skipped
        ok = [e for e in group if e[:2] == key]
        if ok:
            e = ok[0]
            i = il.index(e)
            rest = [x for j, x in enumerate(il) if j != i and not (x[4] and j < i and x in cand)]
            if e[4]:
                # this one, or the next that is the same
                for j, x in enumerate(rest):
                    if x[:2] == key and not x[4]:
                        rest[j] = x[:4] + (1,)
                        break
            put(st, 'il', tuple(rest) or None)
            self.ok('idle')
        elif ad is not None and ad[:2] == key and fl in (None, 1, ad[2]):
            put(st, 'adding', 'ran')
            self.ok('idle')
        elif key in get(st, 'gone', ()):
            g = list(get(st, 'gone'))
            g.remove(key)
            put(st, 'gone', tuple(g) or None)
        elif any(e[:2] == key for e in il):
            self.bad('idle', 'idle functions out of order', '%s: an idle function is called that is not the oldest one' %
                     where)
            e = [e for e in il if e[:2] == key][0]
            put(st, 'il', tuple(x for x in il if x != e) or None)
        else:
            self.bad('idle', 'idle function not registered', '%s: an idle function is called that was removed, was called '
                     'already, or was never registered' % where)
        put(st, 'nidle', 1)
        return self.reactions(I, st, 'idle', name, ins)

    def evt(self, st, i, **kw):
        e = list(get(st, ('ue', i)))
        for k, v in kw.items():
            e[('p', 'att', 'sig', 'may', 'infl', 'fresh', 'clr').index(k)] = v
        put(st, ('ue', i), tuple(e))

    def evtcb(self, I, st, a, ins):
        where = self.at(I, ins)
        for (i,), e in items(st, 'ue'):
            if e[0] == a[0]:
                break
        else:
            self.bad('evt', 'callback of a dead event', '%s: the callback is called with an event that does not exist' % where)
            return [(st, None)]
        if tag_of(a[1]) != ('evt', i):
            self.bad('evt', 'wrong userdata', '%s: the callback of an event gets the wrong userdata' % where)
        if not e[1]:
            self.bad('evt', 'callback of a detached event', '%s: the callback of a detached event is called' % where)
        elif not e[2] and not e[3] and not e[4]:
            self.bad('evt', 'callback of a quiet event', '%s: the callback of an event is called although it was not '
                     'signaled since' % where)
        else:
            self.ok('evt')
        self.take(st, ('evt', i))
        # a signal sent since the events were seen may be notified by this call, or by another one
        self.evt(st, i, sig=0, may=e[5], infl=tuple((t, 1) for t, _ in e[4]), fresh=0)
        return self.reactions(I, st, 'evt', i, ins)

    def timercb(self, I, st, a, ins):
        where = self.at(I, ins)
        for (i,), e in items(st, 'ut'):
            if e[0] == a[0]:
                break
        else:
            self.bad('timer', 'callback of a dead timer', '%s: the callback is called with a timer that does not exist' % where)
            return [(st, None)]
        if tag_of(a[1]) != ('timer', i):
            self.bad('timer', 'wrong userdata', '%s: the callback of a timer gets the wrong userdata' % where)
        if not e[3]:
            self.bad('timer', 'callback of a timer that did not expire', '%s: the callback of a timer is called although '
                     'it did not expire since it was last set, cleared or notified' % where)
        else:
            self.ok('timer')
        self.take(st, ('timer', i))
        put(st, ('ut', i), e[:3] + (max(0, e[3] - 1) if self.posix else 0,))
        return self.reactions(I, st, 'timer', i, ins)
    posix = False
    keeppoll = False

    def settle(self, st):
        """between two calls"""
        for (b,), _ in items(st, 'pollarr'):
            # the library is expected to fill its array again for every poll
            if get(st, ('h', b)) not in (None, 'freed') and get(st, 'timeout') is None:
                st.wcells(b).clear()
                st.ver[b] = ('pollarr',)
        for (f,), g in items(st, 'gen'):
            if get(st, ('ur', f)) is None:
                put(st, ('gen', f), None)

    def reactions(self, I, st, what, obj, ins):
        opts = self.react.get(what, ())
        out = [(st.fork(), None)] if opts else [(st, None)]
        if get(st, 'nact', 0) >= self.maxact:
            return out
        for o in opts:
            o = tuple(obj if x == 'self' else x for x in o)
            s = st.fork()
            put(s, 'nact', get(s, 'nact', 0) + 1)
            s.trace = (s.trace, '!%s in the %s callback' % (oname(o), what))
            tid = self.tid(st)
            for s2 in self.do(I, s, o, 'in', ins):
                out.append((s2, None))
        return out

    def do(self, I, st, o, tag, ins):
        """The user (or another thread) does o; the states after."""
        def call(fn, args, t=''):
            if ins is not None:
                return self.invoke(I, st, fn, args, tag + str(o) + t, ins)
            return I.step(st, fn, args, (self.stepno, tag, str(o), t))

        def call2(s, fn, args, t=''):
            if ins is not None:
                return self.invoke(I, s, fn, args, tag + str(o) + t, ins)
            return I.step(s, fn, args, (self.stepno, tag, str(o), t))
        oldrole = self.role
        if self.tid(st) == 'A':
            self.role = 'T' if o[0] in THREADSAFE else 'L'
        try:
            return self.do1(I, st, o, call, call2)
        finally:
            self.role = oldrole

    def expect(self, st, r, want, what, base):
        """The result of a call; failures are allowed if something failed in it."""
        if isinstance(r, int) and r == want:
            self.ok('api')
            return True
        if r == -EINTR:
            self.bad('api', '%s interrupted' % what.split('(')[0], '%s fails when a signal is handled meanwhile' % what)
            return False
        if isinstance(r, int) and r < 0 and want == 0 and get(st, 'nfail', 0) > base:
            self.ok('api')
            return False
        self.bad('api', '%s' % what.split('(')[0], '%s returns %s instead of %s' % (what, show(r), want))
        return isinstance(r, int) and r == 0

    def do1(self, I, st, o, call, call2):
        self.cur = st
        k = o[0]
        lp = get(st, 'lp')
        base = get(st, 'nfail', 0)
        out = []
        if k == 'add':
            fd, ev = o[1], o[2]
            cur = get(st, ('ur', fd))
            gen = 1 - get(st, ('gen', fd), 0)
            for s, r in call('pomp_loop_add', [lp, fd, ev, ufn('fdcb'), ud(('fd', fd, gen))]):
                r = s.f.res(r)
                if self.expect(s, r, -EEXIST if cur is not None else 0, 'pomp_loop_add(%d)' % fd, base) and cur is None:
                    put(s, ('ur', fd), (ev, gen, 'new' if get(s, 'timeout') is not None else 'old'))
                    put(s, ('gen', fd), gen or None)
                out.append(s)
            return out
        if k in ('update', 'update2'):
            fd = o[1]
            cur = get(st, ('ur', fd))
            if k == 'update':
                outs = call('pomp_loop_update', [lp, fd, o[2]])
            else:
                outs = call('pomp_loop_update2', [lp, fd, o[2], o[3]])
            for s, r in outs:
                if self.expect(s, s.f.res(r), 0 if cur is not None else -ENOENT, 'pomp_loop_%s(%d)' % (k, fd), base) \
                        and cur is not None:
                    e = o[2] if k == 'update' else (cur[0] | o[2]) & ~o[3]
                    put(s, ('ur', fd), (e,) + cur[1:])
                    b = get(s, 'batch')
                    if b:
                        # what is monitored changed: not judged
                        put(s, 'upd', tuple(sorted(set(get(s, 'upd', ()) + (fd,)))))
                out.append(s)
            return out
        if k == 'remove':
            fd = o[1]
            cur = get(st, ('ur', fd))
            for s, r in call('pomp_loop_remove', [lp, fd]):
                self.expect(s, s.f.res(r), 0 if cur is not None else -ENOENT, 'pomp_loop_remove(%d)' % fd, base)
                put(s, ('ur', fd), None)
                out.append(s)
            return out
        if k == 'readd':
            # the descriptor is removed and closed, another one gets its number
            fd = o[1]
            if get(st, ('ur', fd)) is None:
                return [st]
            for s, r in call('pomp_loop_remove', [lp, fd]):
                put(s, ('ur', fd), None)
                self.kclose(s, fd)
                put(s, ('k', fd), ('user', 1, 1, 0))
                gen = 1 - get(s, ('gen', fd), 0)
                for s2, r2 in call2(s, 'pomp_loop_add', [lp, fd, o[2], ufn('fdcb'), ud(('fd', fd, gen))], 'add'):
                    if self.expect(s2, s2.f.res(r2), 0, 'pomp_loop_add(%d)' % fd, base):
                        put(s2, ('ur', fd), (o[2], gen, 'new'))
                        put(s2, ('gen', fd), gen or None)
                    out.append(s2)
            return out
        if k == 'close':
            # closed without having been removed
            if get(st, ('ur', o[1])) is not None:
                self.kclose(st, o[1])
                put(st, ('ucl', o[1]), 1)
            return [st]
        if k == 'open':
            if get(st, ('k', o[1])) is None and get(st, ('ur', o[1])) is None:
                put(st, ('k', o[1]), ('user', 1, 1, 0))
                put(st, ('ucl', o[1]), None)
            return [st]
        if k == 'has':
            for s, r in call('pomp_loop_has_fd', [lp, o[1]]):
                self.expect(s, s.f.res(r), 1 if get(s, ('ur', o[1])) is not None else 0, 'pomp_loop_has_fd(%d)' % o[1], 99)
                out.append(s)
            return out
        if k == 'badargs':
            ss = [st]
            for i, (fn, a) in enumerate((('pomp_loop_add', [0, 10, 1, ufn('fdcb'), 0]), ('pomp_loop_add', [lp, -1, 1, ufn('fdcb'), 0]),
                                         ('pomp_loop_add', [lp, 10, 0, ufn('fdcb'), 0]), ('pomp_loop_add', [lp, 10, 1, 0, 0]),
                                         ('pomp_loop_update', [lp, -1, 1]), ('pomp_loop_update', [0, 10, 1]),
                                         ('pomp_loop_update2', [lp, -1, 1, 0]), ('pomp_loop_update2', [0, 10, 1, 0]),
                                         ('pomp_loop_remove', [lp, -1]), ('pomp_loop_remove', [0, 10]),
                                         ('pomp_loop_wait_and_process', [0, 0]), ('pomp_loop_wakeup', [0]),
                                         ('pomp_loop_destroy', [0]),
                                         ('pomp_loop_idle_add', [0, ufn('idlex'), 0]),
                                         ('pomp_loop_idle_add', [lp, 0, 0]), ('pomp_loop_idle_add_with_cookie', [lp, ufn('idlex'), 0, 0]))):
                nx = []
                for s in ss:
                    for s2, r in call2(s, fn, a, str(i)):
                        self.expect(s2, s2.f.res(r), -EINVAL, '%s(%s)' % (fn, ', '.join(show(x) for x in a)), 99)
                        nx.append(s2)
                ss = nx
            return ss
        if k == 'wait':
            return self.dowait(I, st, o[1], call, base)
        if k == 'wakeup':
            for s, r in call('pomp_loop_wakeup', [lp]):
                self.expect(s, s.f.res(r), 0, 'pomp_loop_wakeup', base)
                if s.f.res(r) == 0:
                    put(s, 'wk', None if get(s, 'wkran') else 1)
                    put(s, 'wc', min(3, get(s, 'wc', 0) + 1))
                put(s, 'wkran', None)
                out.append(s)
            return out
        if k == 'getfd':
            for s, r in call('pomp_loop_get_fd', [lp]):
                r = s.f.res(r)
                eps = [e for (e,), t in items(s, 'ep')]
                if eps and r not in eps or not eps and r != -ENOSYS:
                    self.bad('api', 'pomp_loop_get_fd', 'pomp_loop_get_fd returns %s' % show(r))
                out.append(s)
            return out
        if k in ('idle', 'idlec'):
            e = (o[1], o[2], o[3] if k == 'idlec' else None, 0, 0)
            other = get(st, 'adding')
            inj = self.tid(st) == 'B'
            if not inj:
                put(st, 'adding', e)
            if k == 'idle':
                outs = call('pomp_loop_idle_add', [lp, ufn(o[1]), ud(o[2])])
            else:
                outs = call('pomp_loop_idle_add_with_cookie', [lp, ufn(o[1]), ud(o[2]), ud(o[3])])
            for s, r in outs:
                a = get(s, 'adding')
                ok = self.expect(s, s.f.res(r), 0, 'pomp_loop_idle_add', base)
                if not inj:
                    put(s, 'adding', None)
                if not ok:
                    if a == 'ran' and not inj:
                        self.bad('idle', 'refused idle function called', 'an idle function is called although adding it '
                                 'failed')
                elif a == 'ran' and not inj:
                    pass
                else:
                    conc = 1 if inj and isinstance(a, tuple) else 0
                    il = get(s, 'il', ())
                    rm = get(s, 'removing')
                    if inj and rm and (e[:2] == rm[1:3] if rm[0] == 'idlerm' else e[2] == rm[1]):
                        # added while such functions are being removed: removed as well, or not
                        put(s, 'il', il + (e[:3] + (2, 1),))
                        out.append(s)
                        continue
                    if not inj and isinstance(a, tuple):
                        e = a
                    if not inj and il and il[-1][3]:
                        # registered while this call was running: no order between them
                        e = e[:3] + (1, e[4])
                    put(s, 'il', il + ((e[:3] + (conc, 0)) if conc else e,))
                    put(s, 'mayrm', None)
                out.append(s)
            return out
        if k in ('idlerm', 'idlermc'):
            m = (lambda e: e[:2] == o[1:3]) if k == 'idlerm' else (lambda e: e[2] == o[1])
            inj = self.tid(st) == 'B'
            if not inj:
                put(st, 'removing', o)
            if k == 'idlerm':
                outs = call('pomp_loop_idle_remove', [lp, ufn(o[1]), ud(o[2])])
            else:
                outs = call('pomp_loop_idle_remove_by_cookie', [lp, ud(o[1])])
            for s, r in outs:
                self.expect(s, s.f.res(r), 0, 'pomp_loop_idle_remove', base)
                if not inj:
                    put(s, 'removing', None)
                il = get(s, 'il', ())
                new = []
                for e in il:
                    if not m(e):
                        new.append(e)
                    elif e[3] == 2 and not inj:
                        # registered by another thread meanwhile
                        new.append(e[:3] + (1, 1))
                put(s, 'il', tuple(new) or None)
                if inj:
                    # what is being called meanwhile
                    put(s, 'gone', get(s, 'gone', ()) + tuple(e[:2] for e in il if m(e)))
                if inj and isinstance(get(s, 'adding'), tuple) and m(get(s, 'adding')):
                    # may have been removed already: order of the two calls not known
                    put(s, 'adding', get(s, 'adding')[:4] + (1,))
                out.append(s)
            return out
        if k in ('flush', 'flushc'):
            old = get(st, 'flushing')
            put(st, 'flushing', 1 if k == 'flush' else o[1])
            outs = call('pomp_loop_idle_flush', [lp]) if k == 'flush' else \
                call('pomp_loop_idle_flush_by_cookie', [lp, ud(o[1])])
            for s, r in outs:
                put(s, 'flushing', old)
                self.expect(s, s.f.res(r), 0, 'pomp_loop_idle_%s' % k, base)
                il = [e for e in get(s, 'il', ()) if k == 'flush' or e[2] == o[1]]
                if any(not e[4] for e in il) and not get(s, 'ninj'):
                    self.bad('idle', 'not flushed', 'idle functions are left after they were flushed')
                out.append(s)
            return out
        if k == 'evtnew':
            i = o[1]
            if get(st, ('ue', i)) is not None:
                return [st]
            for s, r in call('pomp_evt_new', []):
                r = s.f.res(r)
                if r == 0:
                    if get(s, 'nfail', 0) <= base:
                        self.bad('api', 'pomp_evt_new', 'pomp_evt_new fails')
                else:
                    put(s, ('ue', i), (r, 0, 0, 0, (), 0, 0))
                out.append(s)
            return out
        if k in ('attach', 'detach', 'signal', 'clear', 'evtdestroy', 'isatt'):
            i = o[1]
            e = get(st, ('ue', i))
            if e is None:
                return [st]
            p, att = e[:2]
            if k == 'attach':
                for s, r in call('pomp_evt_attach_to_loop', [p, lp, ufn('evtcb'), ud(('evt', i))]):
                    if self.expect(s, s.f.res(r), -EEXIST if att else 0, 'pomp_evt_attach_to_loop', base) and not att:
                        self.evt(s, i, att=1)
                    out.append(s)
            elif k == 'detach':
                for s, r in call('pomp_evt_detach_from_loop', [p, lp]):
                    self.expect(s, s.f.res(r), 0 if att else -ENOENT, 'pomp_evt_detach_from_loop', base)
                    self.evt(s, i, att=0, may=0)
                    self.take(s, ('evt', i))
                    out.append(s)
            elif k == 'signal':
                tid = self.tid(st)
                self.evt(st, i, infl=e[4] + ((tid, 1 if e[6] else 0),))
                for s, r in call('pomp_evt_signal', [p]):
                    e2 = get(s, ('ue', i))
                    late = [t for t in e2[4] if t[0] == tid][-1]
                    l = list(e2[4])
                    l.remove(late)
                    self.evt(s, i, infl=tuple(l))
                    if self.expect(s, s.f.res(r), 0, 'pomp_evt_signal', base):
                        # notified or cleared meanwhile: perhaps for this signal, perhaps not
                        if late[1]:
                            self.evt(s, i, may=1)
                        else:
                            self.evt(s, i, sig=1, fresh=1 if get(s, 'timeout') is not None else 0)
                    out.append(s)
            elif k == 'clear':
                old = e[2]
                self.evt(st, i, sig=0, may=1 if ('evt', i) in (get(st, 'batch') or ()) else 0,
                         infl=tuple((t, 1) for t, _ in e[4]), fresh=0, clr=1)
                for s, r in call('pomp_evt_clear', [p]):
                    self.evt(s, i, clr=0)
                    if not self.expect(s, s.f.res(r), 0, 'pomp_evt_clear', base) and old:
                        self.evt(s, i, may=1)
                    self.take(s, ('evt', i))
                    out.append(s)
            elif k == 'isatt':
                for s, r in call('pomp_evt_is_attached', [p, lp]):
                    self.expect(s, self.truth(I, s, r), att, 'pomp_evt_is_attached', 99)
                    out.append(s)
            else:
                for s, r in call('pomp_evt_destroy', [p]):
                    if self.expect(s, s.f.res(r), -EBUSY if att else 0, 'pomp_evt_destroy', base) and not att:
                        put(s, ('ue', i), None)
                    out.append(s)
            return out
        if k == 'timernew':
            i = o[1]
            if get(st, ('ut', i)) is not None:
                return [st]
            kb = set(x for x, v in items(st, 'k')), set(x for x, v in items(st, 'pt'))
            for s, r in call('pomp_timer_new', [lp, ufn('timercb'), ud(('timer', i))]):
                r = s.f.res(r)
                if r == 0:
                    if get(s, 'nfail', 0) <= base:
                        self.bad('api', 'pomp_timer_new', 'pomp_timer_new fails')
                else:
                    t = [('tfd', x[0]) for x, v in items(s, 'k') if x not in kb[0] and v[0] == 'tfd'] + \
                        [('pt', x[0]) for x, v in items(s, 'pt') if x not in kb[1]]
                    if len(t) != 1:
                        raise interp.AnalysisError('%d timers of the kernel for a new timer' % len(t))
                    put(s, ('ut', i), (r, 0, 0, 0))
                    put(s, ('tk', i), t[0])
                out.append(s)
            return out
        if k in ('tset', 'tclear', 'tdestroy'):
            i = o[1]
            e = get(st, ('ut', i))
            if e is None:
                return [st]
            if k == 'tdestroy':
                self.take(st, ('timer', i))
                for s, r in call('pomp_timer_destroy', [e[0]]):
                    self.expect(s, s.f.res(r), 0, 'pomp_timer_destroy', base)
                    put(s, ('ut', i), None)
                    put(s, ('tk', i), None)
                    out.append(s)
                return out
            d, p = (o[2], o[3]) if k == 'tset' else (0, 0)
            put(st, 'spec', None)
            if k == 'tclear':
                outs = call('pomp_timer_clear', [e[0]])
            elif p:
                outs = call('pomp_timer_set_periodic', [e[0], d, p])
            else:
                outs = call('pomp_timer_set', [e[0], d])
            for s, r in outs:
                sp = get(s, 'spec')
                put(s, 'spec', None)
                w = (p // 1000, p % 1000 * 1000000, d // 1000, d % 1000 * 1000000)
                if sp is not None and (sp[0] != tuple(show(x) for x in w) and (d or sp[0][2:] != ('0', '0')) or sp[1] != 0):
                    self.bad('timer', 'wrong time set in %s' % sp[2], '%s: a delay of %d ms and a period of %d ms are set '
                             'as (%s)%s' % (sp[3], d, p, ', '.join(sp[0]), ' (absolute)' if sp[1] else ''))
                else:
                    self.ok('timer')
                if self.expect(s, s.f.res(r), 0, 'pomp_timer_%s' % ('clear' if k == 'tclear' else 'set'), base):
                    kt = get(s, ('tk', i))
                    arm = get(s, ('arm', kt[1])) if kt[0] == 'tfd' else (get(s, kt) or (0, 0, 0))[2]
                    if bool(arm) != bool(d):
                        self.bad('timer', 'timer not set', 'pomp_timer_%s(%d, %d) leaves the timer %s' % (
                            'clear' if k == 'tclear' else 'set', d, p, 'armed' if arm else 'disarmed'))
                    put(s, ('ut', i), (e[0], 1 if d else 0, 1 if p and d else 0, 0))
                    self.take(s, ('timer', i))
                elif get(s, 'batch') is None:
                    # failed: what was armed stays armed, an expiration may be dropped or not
                    pass
                out.append(s)
            return out
        raise run.Broken('operation %s' % (o,))

    def dowait(self, I, st, timeout, call, base):
        lp = get(st, 'lp')
        out = []
        put(st, 'timeout', timeout)
        put(st, 'nidle', None)
        put(st, 'kret', None)
        put(st, 'kwaits', None)
        put(st, 'wil', None)
        put(st, 'upd', None)
        for s, r in call('pomp_loop_wait_and_process', [lp, timeout]):
            r = s.f.res(r)
            kr = get(s, 'kret')
            what = 'pomp_loop_wait_and_process(%d)' % timeout
            if kr is None:
                self.expect(s, r, 0, what, base)
            elif kr < 0:
                self.expect(s, r, kr, what + ' after a failed wait', 99)
            elif kr == 0:
                self.expect(s, r, -ETIMEDOUT, what + ' without event', 99)
            else:
                self.expect(s, r, 0, what + ' after an event', 99)
            if kr is not None and kr >= 0:
                up = get(s, 'upd', ())
                for e in get(s, 'batch', None) or ():
                    if e[0] == 'fd':
                        reg = get(s, ('ur', e[1]))
                        if reg is not None and reg[2] == 'old' and e[1] not in up:
                            self.bad('dispatch', 'event not dispatched', '%s: the events of descriptor %d are not given '
                                     'to its callback' % (what, e[1]))
                    elif e[0] == 'evt' and not get(s, 'ninj'):
                        self.bad('evt', 'event not notified', '%s: a signaled event is not notified' % what)
                    elif e[0] == 'timer':
                        self.bad('timer', 'timer not notified', '%s: an expired timer is not notified' % what)
                if get(s, 'wil') and not get(s, 'nidle') and any(not e[4] for e in get(s, 'il', ())) and not get(s, 'ninj'):
                    self.bad('idle', 'idle function not called', '%s: no idle function is called although some are '
                             'registered' % what)
            # whoever called pomp_loop_wakeup saw a wait return
            put(s, 'wk', None)
            for (i,), e in items(s, 'ue'):
                if e[5]:
                    self.evt(s, i, fresh=0)
            if self.tid(s) == 'B':
                put(s, 'wkran', 1)
            for k in ('timeout', 'batch', 'nidle', 'kret', 'kwaits', 'wil', 'upd'):
                put(s, k, None)
            for (f,), v in items(s, 'ur'):
                put(s, ('ur', f), v[:2] + ('old',) + v[3:])
            out.append(s)
        return out


THREADSAFE = {'idle', 'idlec', 'idlerm', 'idlermc', 'wakeup', 'signal'}


def oname(o):
    return '%s(%s)' % (o[0], ', '.join(str(x) for x in o[1:]))


class LW:
    """A session on one loop: what is there, what can happen, what is called."""

    def __init__(self, title, cfg, acts, react=None, inj=(), fds=(), evts=0, timers=0, rdy='some', maxact=1, fails=1,
                 race=False, opts=None, guard=None, posix=False):
        self.title = title
        self.cfg = cfg
        self.r = r = LR()
        self.I = interp.Interp(run.M, r)
        self.I.gvals = run.gvals(cfg, self.I)
        r.I = self.I
        r.where = title
        r.rdy = rdy
        r.race = race
        r.posix = cfg == 'posix'
        self.react, self.inj, self.maxact, self.fails = react or {}, tuple(inj), maxact, fails
        self.fdl = tuple(fds)
        self.opts = opts or {}
        r.pipecap = self.opts.get('pipecap', 3)
        self.n = 0
        self.nquiet = self.nend = 0
        self.label = 'creation'
        self.final = False
        st = interp.State()
        st.rs = frozenset()
        self.sts = [st]
        self.start(evts, timers)
        self.acts = [(oname(a) if isinstance(a, tuple) else a, self.act(a)) for a in acts] + \
            [('expiry of timer %d' % i, self.expire(i)) for i in range(timers)] + [('destroy', self.destroy)]

    def mode(self, m, fails=None, inj=True, react=True):
        r = self.r
        r.mode = m
        r.maxfail = self.fails if fails is None else fails
        r.react = self.react if react and m == 'all' else {}
        r.inj = self.inj if inj and m == 'all' else ()
        r.maxact = self.maxact
        for s in self.sts:
            put(s, 'nfail', None)
            put(s, 'nact', None)
            put(s, 'ninj', None)
            put(s, 'gone', None)
            put(s, 'eintr', None)

    def each(self, f):
        self.n += 1
        self.r.stepno = self.n
        out = {}
        for s in self.sts:
            for x in f(s.fork()):
                self.check(x)
                tr = x.trace
                self.r.settle(x)
                x = canon.canon(self.I, x, self.n)
                x.trace = tr
                k = x.sig()
                if k in out:
                    self.I.merge_into(out[k], x, ('each', self.n))
                else:
                    out[k] = x
        self.sts = list(out.values())
        return self

    def start(self, evts, timers):
        r = self.r

        def new(st):
            r.role = None
            out = []
            for f in self.fdl:
                put(st, ('k', f), ('user', 1, 1, 0))
            for s, v in self.I.step(st, 'pomp_loop_new', [], (self.n, 'new')):
                v = s.f.res(v)
                if v == 0:
                    if not get(s, 'nfail'):
                        r.bad('api', 'pomp_loop_new', 'pomp_loop_new fails')
                    self.leaks(s, 'failed creation of a loop')
                    continue
                put(s, 'lp', v)
                out.append(s)
            r.role = 'L'
            return out
        if self.opts.get('new'):
            save = [s.fork() for s in self.sts]
            self.mode('all', 2, inj=False)
            self.each(new)
            self.sts = save
        self.mode('happy')
        self.each(new)
        for i in range(evts):
            self.each(lambda s: r.do(self.I, s, ('evtnew', i), 'set', None))
        for i in range(timers):
            if not self.opts.get('latetimer'):
                self.each(lambda s: r.do(self.I, s, ('timernew', i), 'set', None))
        self.dead = not self.sts

    def act(self, a):
        def f(w):
            st = w.sts[0]
            if a[0] in ('idle', 'idlec') and len(get(st, 'il', ())) >= self.opts.get('maxidle', 2):
                return False
            if a[0] == 'wakeup' and get(st, 'wk') and not self.opts.get('wakeups'):
                return False
            if a[0] in ('add', 'update', 'update2') and get(st, ('k', a[1])) is None:
                return False
            if a[0] in ('attach', 'signal', 'clear', 'evtdestroy', 'detach') and get(st, ('ue', a[1])) is None:
                return False
            if a[0] in ('tset', 'tclear', 'tdestroy') and get(st, ('ut', a[1])) is None:
                return False
            w.mode('all')
            w.each(lambda s: w.r.do(w.I, s, a, 'out', None))
        return f

    def expire(self, i):
        def f(w):
            st = w.sts[0]
            e = get(st, ('ut', i))
            if e is None or not e[1] or e[3] >= 2:
                return False
            w.mode('happy')
            w.each(lambda s: w.fire(s, i))
        return f

    def fire(self, st, i):
        e = get(st, ('ut', i))
        put(st, ('ut', i), (e[0], e[2], e[2], e[3] + 1))
        kt = get(st, ('tk', i))
        if kt[0] == 'tfd':
            k = get(st, ('k', kt[1]))
            put(st, ('k', kt[1]), k[:3] + (min(2, k[3] + 1),))
            put(st, ('arm', kt[1]), e[2] or None)
            return [st]
        p = get(st, kt)
        put(st, kt, p[:2] + (e[2],))
        h = get(st, ('sig', p[1]))
        if h is None:
            self.r.bad('timer', 'no handler', 'the signal of a timer has no handler: it kills the process')
            return [st]
        si = atom(('ext', 'siginfo', i), 'obj', info={'size': 128})
        c = st.wcells(si)
        c.clear()
        c[0], c[8], c[24] = (4, p[1]), (4, -2), (8, p[0])
        fn = dom.A_KEY[h.t[0][0]][1]
        err = st.wcells(self.I.errno_obj)
        err[0] = (4, 777)
        out = []
        for s, _ in self.I.step(st, fn, [p[1], av(si), 0], (self.n, 'signal')):
            v = s.mem.get(self.I.errno_obj, {}).get(0)
            if v is None or s.f.res(v[1]) != 777:
                self.r.bad('timer', 'errno changed by the signal handler', '%s changes errno: what was interrupted sees '
                           'the wrong error' % fn)
            else:
                self.r.ok('timer')
            out.append(s)
        return out

    def check(self, st):
        """what holds after every call"""
        r = self.r
        if get(st, 'locks'):
            r.bad('lock', 'lock left held', '%s: a mutex is still locked at the end of the call' % self.label)
        for (e,), t in items(st, 'ep'):
            r.interest(st, [(f, ev) for f, ev, _ in t], 'by epoll after %s' % self.label)
        for (n,), k in items(st, 'k'):
            if k[0] in ('evfd', 'pr', 'pw', 'tfd', 'ep') and not k[2]:
                r.bad('cloexec', 'descriptor without close-on-exec', '%s: a descriptor of the library (%s) is inherited '
                      'by the programs executed' % (self.label, k[0]))
            else:
                r.ok('cloexec')

    def quiet(self):
        for s in self.sts:
            self.check(s)
            self.nquiet += 1

    def leaks(self, st, why):
        r = self.r
        self.nend += 1
        for (b,), v in items(st, 'h'):
            if v != 'freed':
                r.bad('leak', 'block of %s' % v, 'after %s: the block allocated at %s is never freed' % (why, v))
        for (n,), k in items(st, 'k'):
            if k[0] != 'user':
                r.bad('leak', 'descriptor of kind %s' % k[0], 'after %s: a descriptor (%s) is never closed' % (why, k[0]))
        for (i,), p in items(st, 'pt'):
            r.bad('leak', 'posix timer', 'after %s: a POSIX timer is never deleted' % why)
        r.ok('leak')

    def destroy(self, w):
        st = w.sts[0]
        busy = items(st, 'ur') or get(st, 'il') or any(e[1] for k, e in items(st, 'ue')) or items(st, 'ut')
        w.mode('happy')
        if get(st, 'il') and all(e[4] for e in get(st, 'il')):
            return False
        if busy:
            if self.opts.get('busy') and not get(st, 'refused'):
                w.each(lambda s: w.finish(s, True))
                w.final = True
            return False if not w.final else None
        w.final = True
        w.each(lambda s: w.finish(s, False))

    def finish(self, st, busy):
        r, I = self.r, self.I
        out = []
        r.role = None
        for s, v in I.step(st, 'pomp_loop_destroy', [get(st, 'lp')], (self.n, 'destroy')):
            v = s.f.res(v)
            if busy:
                if v != -EBUSY:
                    r.bad('api', 'pomp_loop_destroy', 'pomp_loop_destroy returns %s instead of EBUSY' % show(v))
                    continue
                # what was refused can be cleaned up and done again
                ss = [s]
                k = 0
                todo = [('remove', f[0]) for f, _ in items(s, 'ur')] + [('detach', i[0]) for i, e in items(s, 'ue') if e[1]] + \
                    [('tdestroy', i[0]) for i, e in items(s, 'ut')] + ([('flush',)] if get(s, 'il') else [])
                for o in todo:
                    ss = [y for x in ss for y in r.do(I, x, o, 'clean', None)]
                for x in ss:
                    out += self.finish(x, False)
                continue
            if v != 0:
                r.bad('api', 'pomp_loop_destroy', 'pomp_loop_destroy returns %s' % show(v))
                continue
            ss = [s]
            for (i,), e in items(s, 'ue'):
                ss = [y for x in ss for y in r.do(I, x, ('evtdestroy', i), 'end', None)]
            for x in ss:
                self.leaks(x, 'destruction')
                out.append(x)
        r.role = 'L'
        return out

    def teardown(self):
        pass
