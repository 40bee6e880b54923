"""C24: the watchdog of a loop, two threads at the granularity of lock operations.

The thread of the loop is interpreted abstractly through the public API; the
watchdog thread is what the library gives to pthread_create.  Wherever the
thread of the loop takes or releases a lock, joins, or lets time pass in a
callback, the watchdog thread may run up to its next wait.  It is interpreted
again from its start with what it saw after each of its waits, so that its local
variables need not be kept."""
import os
import run
import explore
import interp
import dom
import rt
import ir as IR
from rt import get, put, items, IN, EAGAIN, EINVAL
from loops import LR, ufn, ud, tag_of
from interp import add, av, Lin

ETIMEDOUT = 110
MS = 1000000
REAL = 10 ** 18 + 123456789
DEL = {1: 1500, 2: 500, 3: 5500, 4: 4294967295}


class WD(LR):
    maxspur = 1

    def __init__(self):
        LR.__init__(self)
        self.parked = None
        self.log = None
        self.idx = 0
        self.seen = {}

    def expect_int(self, v):
        if not isinstance(v, int):
            raise interp.AnalysisError('a time of the watchdog is not known')
        return v

    # ---- the kernel, for one or two descriptors that are ready when the script says so
    def uready(self, st, fd, ev):
        return [IN] if fd in get(st, 'ready', ()) else [0]

    def epoll1(self, I, st, args, ins):
        out = []
        for s in self.slept(I, st):
            out += LR.epoll1(self, I, s, args, ins)
        return out

    def poll1(self, I, st, args, ins):
        out = []
        for s in self.slept(I, st):
            out += LR.poll1(self, I, s, args, ins)
        return out

    def slept(self, I, st):
        """the wait itself takes long"""
        if self.tid(st) != 'A' or get(st, 'slept'):
            return [st]
        put(st, 'slept', 1)
        return self.passes(I, st, 5000 * MS)

    def yields(self, I, st, ins, what):
        if self.tid(st) != 'A' or get(st, 'B') is None or I.probe or what in ('read', 'write', 'wait'):
            return [st]
        return [st] + [x for x in self.runs(I, st)]

    # ---- time
    def m_clock_gettime(self, I, st, args, ins):
        c = st.f.res(args[0])
        b, off = I.base_off(st, args[1])
        now = get(st, 'now')
        if self.tid(st) == 'B' and self.log is not None and self.idx < len(self.log):
            now = self.log[self.idx][2] if self.idx else now
        if c not in (0, 1):
            raise interp.AnalysisError('clock %s' % (c,))
        if c == 0:
            now += REAL
        I.clear_range(st, b, off, 16, ins)
        m = st.wcells(b)
        for q in [q for q in m if isinstance(q, int) and off <= q < off + 16]:
            del m[q]
        m[off], m[off + 8] = (8, now // 10 ** 9), (8, now % 10 ** 9)
        return [(st, 0)]

    # ---- threads
    def m_pthread_create(self, I, st, args, ins):
        fn, arg = st.f.res(args[2]), st.f.res(args[3])

        def go(s):
            if get(s, 'B') is not None:
                self.bad('thread', 'second thread', '%s: a thread is created while another one runs' % self.at(I, ins))
            put(s, 'B', (fn, arg, (), ('new',)))
            b, off = I.base_off(s, s.f.res(args[0]))
            I.clear_range(s, b, off, 8, ins)
            s.wcells(b)[off] = (8, 4242)
            return 0
        out = []
        s = st.fork()
        out.append((s, go(s)))
        if self.mode == 'all' and not get(st, 'nfail'):
            s = st.fork()
            self.failed(s)
            out.append((s, EAGAIN))
        return [(y, r) for x, r in out for y in (self.yields(I, x, ins, 'create') if r == 0 else [x])]

    def m_pthread_join(self, I, st, args, ins):
        if get(st, 'B') is None:
            self.bad('thread', 'join of no thread', '%s: no thread to join' % self.at(I, ins))
            return []
        if get(st, 'locks'):
            self.bad('thread', 'join with a lock held', '%s: the thread is joined while holding a lock it needs' %
                     self.at(I, ins))
            return []
        out = []
        for s in self.settle_b(I, st):
            if get(s, 'B')[3][0] != 'dead':
                self.bad('thread', 'join never returns', '%s: the watchdog thread does not end: it was not told, or not '
                         'woken up' % self.at(I, ins))
                continue
            self.ok('thread')
            put(s, 'B', None)
            out.append((s, 0))
        return out

    def m_pthread_detach(self, I, st, args, ins):
        return [(st, 0)]

    def m_pthread_condattr_init(self, I, st, args, ins):
        put(st, 'attr', 0)
        return [(st, 0)]

    def m_pthread_condattr_setclock(self, I, st, args, ins):
        put(st, 'attr', st.f.res(args[1]))
        return [(st, 0)]

    def m_pthread_condattr_destroy(self, I, st, args, ins):
        return [(st, 0)]

    def m_pthread_cond_init(self, I, st, args, ins):
        put(st, 'clk', get(st, 'attr', 0) if st.f.res(args[1]) != 0 else 0)
        return [(st, 0)]

    def m_pthread_cond_destroy(self, I, st, args, ins):
        if get(st, 'B') is not None and get(st, 'B')[3][0] != 'dead':
            self.bad('thread', 'condition destroyed in use', '%s: the condition is destroyed while the watchdog thread '
                     'uses it' % self.at(I, ins))
        return [(st, 0)]

    def m_pthread_mutex_destroy(self, I, st, args, ins):
        return [(st, 0)]

    def m_pthread_cond_signal(self, I, st, args, ins):
        b = get(st, 'B')
        if self.tid(st) == 'A' and b is not None and b[3][0] == 'wait':
            put(st, 'B', b[:3] + (b[3][:2] + (1,),))
        return [(st, 0)]
    m_pthread_cond_broadcast = m_pthread_cond_signal

    def m_pthread_mutex_lock(self, I, st, args, ins):
        if self.tid(st) == 'B' and self.idx < len(self.log):
            return [(st, 0)]
        return LR.m_pthread_mutex_lock(self, I, st, args, ins)

    def m_pthread_mutex_unlock(self, I, st, args, ins):
        if self.tid(st) == 'B' and self.idx < len(self.log):
            return [(st, 0)]
        return LR.m_pthread_mutex_unlock(self, I, st, args, ins)

    def m_pthread_cond_wait(self, I, st, args, ins):
        return self.bwait(I, st, args, None, ins)

    def m_pthread_cond_timedwait(self, I, st, args, ins):
        p = st.f.res(args[2])
        s, n = (self.expect_int(st.f.res(I.load(st, add(p, k), ('i', 64), ins))) for k in (0, 8))
        if n < 0 or n >= 10 ** 9 or s < 0:
            self.bad('time', 'invalid time', '%s: waits until an invalid time (%d s, %d ns): the wait fails at once, again '
                     'and again' % (self.at(I, ins), s, n))
            return []
        self.ok('time')
        t = s * 10 ** 9 + n
        return self.bwait(I, st, args, t - (REAL if get(st, 'clk') == 0 else 0), ins)

    def bwait(self, I, st, args, until, ins):
        if self.tid(st) != 'B':
            self.bad('thread', 'wait by the thread of the loop', '%s: the thread of the loop waits' % self.at(I, ins))
            return []
        m = st.f.res(args[1])
        if self.idx < len(self.log):
            cells, res, now = self.log[self.idx]
            # what the thread sees after this wait
            self.restore(st, cells)
            st2 = st
            i = self.idx
            self.idx += 1
            if self.idx == len(self.log):
                put(st2, 'locks', get(st2, 'locks', ()) + ((m, 'B'),))
            return [(st2, res)]
        if (m, 'B') not in get(st, 'locks', ()):
            self.bad('lock', 'wait without the lock', '%s: waits with a lock that is not held' % self.at(I, ins))
            return []
        put(st, 'locks', tuple(l for l in get(st, 'locks') if l != (m, 'B')) or None)
        put(st, 'B', get(st, 'B')[:3] + (('wait', until, 0),))
        self.parked.append(st.fork())
        return []

    def obj(self, I, st):
        return I.base_off(st, get(st, 'B')[1])[0]

    def snap(self, I, st):
        return frozenset((k, v) for k, v in st.mem[self.obj(I, st)].items())

    def restore(self, st, cells):
        c = st.wcells(self.bobj)
        c.clear()
        c.update(dict(cells))

    def wakes(self, st):
        """results with which the watchdog thread may go on"""
        b = get(st, 'B')
        if b is None or get(st, 'locks'):
            return []
        w = b[3]
        if w[0] == 'new':
            return ['new']
        if w[0] == 'dead':
            return []
        r = []
        if w[2]:
            r.append(0)
        if w[1] is not None and get(st, 'now') >= w[1]:
            r.append(ETIMEDOUT)
        return r

    def runs(self, I, st, spurious=True):
        out = []
        ws = self.wakes(st)
        if spurious and not ws and get(st, 'B') and get(st, 'B')[3][0] == 'wait' and not get(st, 'locks') and \
                get(st, 'nspur', 0) < self.maxspur:
            ws = ['spur']
        for w in ws:
            x = st.fork()
            if w == 'spur':
                put(x, 'nspur', get(x, 'nspur', 0) + 1)
                w = 0
            out += self.runb(I, x, w)
        return out

    def runb(self, I, st, w):
        b = get(st, 'B')
        log = b[2] if w == 'new' else b[2] + ((self.snap(I, st), w, get(st, 'now')),)
        if len(log) > 60:
            raise interp.AnalysisError('the watchdog thread wakes up too often')
        put(st, 'B', b[:2] + (log, ('run',)))
        x = st.fork()
        put(x, 'tid', 'B')
        old = (self.parked, self.log, self.idx, getattr(self, 'bobj', None), self.role)
        self.parked, self.log, self.idx, self.bobj, self.role = [], log, 0, self.obj(I, st), None
        ends = []
        try:
            fn = dom.A_KEY[b[0].t[0][0]][1]
            for s, _ in I.step(x, fn, [b[1]], ('wdog', fn)):
                if any(l[1] == 'B' for l in get(s, 'locks', ())):
                    self.bad('lock', 'lock left held by the thread', 'the watchdog thread ends with the lock held')
                    continue
                put(s, 'B', b[:2] + ((), ('dead',)))
                ends.append(s)
            ends += self.parked
            bo = self.bobj
        finally:
            self.parked, self.log, self.idx, self.bobj, self.role = old
        out = []
        for s in ends:
            y = st.fork()
            c = y.wcells(bo)
            c.clear()
            c.update(s.mem[bo])
            y.rs = s.rs
            put(y, 'tid', None)
            out.append(y)
        return out

    def settle_b(self, I, st):
        """The watchdog thread has all the time it needs."""
        todo, done, seen = [(st, frozenset())], [], set()
        n = 0
        while todo:
            s, path = todo.pop()
            n += 1
            if n > 2000:
                self.bad('stuck', 'busy watchdog thread', 'the watchdog thread keeps waking up')
                return done
            if not self.wakes(s):
                done.append(s)
                continue
            k = s.sig()[0], frozenset(x for x in s.rs if x[0] != 'B'), get(s, 'B')[3]
            if k in path:
                # woken up by a time that already passed, nothing changed
                self.bad('stuck', 'busy watchdog thread', 'the watchdog thread wakes up again and again')
                continue
            k2 = k + (get(s, 'B')[2][-1:],)
            if k2 in seen:
                continue
            seen.add(k2)
            todo += [(x, path | {k}) for x in self.runs(I, s, False)]
        return done

    def passes(self, I, st, ns):
        s = st.fork()
        put(s, 'now', get(s, 'now') + ns)
        out = self.settle_b(I, s.fork())
        for x in out:
            self.due(x)
        if get(st, 'B') is not None and get(st, 'nlag', 0) < 1:
            # the watchdog thread is not scheduled meanwhile
            put(s, 'nlag', 1)
            out.append(s)
        return out

    def due(self, st):
        d = get(st, 'disp')
        if d is None:
            return
        if get(st, 'now') >= d[1] and not get(st, 'fired'):
            self.bad('watchdog', 'not notified', 'the dispatch of events took too long and the watchdog did not notify it')
        else:
            self.ok('watchdog')

    # ---- the user
    def user(self, I, st, name, args, ins):
        self.cur = st
        a = [st.f.res(x) for x in args]
        if name.startswith('wdcb'):
            return self.wdcb(I, st, name, a, ins)
        if name == 'wdfd':
            en = get(st, 'en')
            if en is not None and get(st, 'disp') is None and not get(st, 'off'):
                t = get(st, 'now') + DEL[en[0]] * MS
                put(st, 'disp', (t, t))
            plan = get(st, 'plan', ())
            act, rest = (plan[0], plan[1:]) if plan else ((), ())
            put(st, 'plan', rest or None)
            sts = [st]
            for o in act:
                sts = [y for s in sts for y in self.op(I, s, o, ins)]
            return [(s, None) for s in sts]
        return [(st, None)]

    def wdcb(self, I, st, name, a, ins):
        if self.tid(st) == 'B' and self.idx < len(self.log):
            return [(st, None)]
        where = self.at(I, ins)
        if self.tid(st) != 'B':
            self.bad('watchdog', 'callback by the thread of the loop', '%s: the callback of the watchdog is called by the '
                     'thread it monitors' % where)
        d = get(st, 'disp')
        en = get(st, 'en')
        if d is None or en is None:
            self.bad('watchdog', 'spurious notification', '%s: the watchdog notifies although %s' % (
                where, 'it was disabled' if en is None else 'no monitored dispatch is in progress'))
        elif get(st, 'now') < d[0]:
            self.bad('watchdog', 'early notification', '%s: the watchdog notifies %d ms before the delay' % (
                where, (d[0] - get(st, 'now')) // MS))
        elif get(st, 'fired'):
            self.bad('watchdog', 'second notification', '%s: the watchdog notifies the same dispatch twice' % where)
        elif name != 'wdcb%d' % en[1] or a[0] != get(st, 'lp') or tag_of(a[1]) != 'w%d' % en[1]:
            self.bad('watchdog', 'wrong callback', '%s: the watchdog does not call the last function given with its '
                     'loop and userdata' % where)
        else:
            self.ok('watchdog')
        put(st, 'fired', 1)
        return [(st, None)]

    def op(self, I, st, o, ins=None):
        lp = get(st, 'lp')
        st = st.fork()
        st.trace = (st.trace, o if isinstance(o, str) else '%s(%s)' % (o[0], ', '.join(str(x) for x in o[1:])))
        self.cur = st

        def call(fn, args):
            if ins is not None:
                return self.invoke(I, st, fn, args, 'wd' + str(o), ins)
            return I.step(st, fn, args, ('wd', str(o)))
        k = o[0]
        out = []
        if k == 'pass':
            return self.passes(I, st, o[1] * MS)
        if k == 'enable':
            d, c = o[1], o[2]
            base = get(st, 'nfail', 0)
            for s, r in call('pomp_loop_watchdog_enable', [lp, DEL[d], ufn('wdcb%d' % c), ud('w%d' % c)]):
                r = s.f.res(r)
                if r == 0:
                    if get(s, 'disp') and get(s, 'en'):
                        e = get(s, 'disp')
                        t = e[2] + DEL[d] * MS if len(e) > 2 else e[0] + (DEL[d] - DEL[get(s, 'en')[0]]) * MS
                        put(s, 'disp', (min(e[0], t), max(e[1], t)))
                    put(s, 'en', (d, c))
                    self.ok('api')
                elif not (r == -EAGAIN and get(s, 'nfail', 0) > base):
                    self.bad('api', 'pomp_loop_watchdog_enable', 'pomp_loop_watchdog_enable returns %s' % (r,))
                    continue
                out.append(s)
            return out
        if k == 'disable':
            for s, r in call('pomp_loop_watchdog_disable', [lp]):
                if s.f.res(r) != 0:
                    self.bad('api', 'pomp_loop_watchdog_disable', 'pomp_loop_watchdog_disable fails')
                    continue
                if get(s, 'B') is not None:
                    self.bad('thread', 'thread not joined', 'the watchdog thread is still there after it was disabled')
                put(s, 'en', None)
                put(s, 'disp', None)
                out.append(s)
            return out
        if k == 'wait':
            put(st, 'plan', o[1:] or None)
            put(st, 'ready', (10, 11)[:len(o) - 1] or None)
            put(st, 'slept', None)
            put(st, 'timeout', 1000)
            put(st, 'fired', None)
            put(st, 'disp', None)
            for s, r in call('pomp_loop_wait_and_process', [lp, 1000]):
                if s.f.res(r) != (0 if len(o) > 1 else -ETIMEDOUT):
                    self.bad('api', 'pomp_loop_wait_and_process', 'pomp_loop_wait_and_process returns %s' % (s.f.res(r),))
                    continue
                if get(s, 'plan'):
                    self.bad('api', 'callback not called', 'the callback of a descriptor is not called')
                for q in ('disp', 'fired', 'plan', 'ready', 'slept', 'batch', 'kret', 'timeout'):
                    put(s, q, None)
                out.append(s)
            return out
        if k == 'destroy':
            sts = [st]
            for fd in (10, 11):
                sts = [y for s in sts for y, r in I.step(s, 'pomp_loop_remove', [lp, fd], ('wd', 'rm', fd))]
            for s0 in sts:
                for s, r in I.step(s0, 'pomp_loop_destroy', [lp], ('wd', 'destroy')):
                    if s.f.res(r) != 0:
                        self.bad('api', 'pomp_loop_destroy', 'pomp_loop_destroy returns %s' % (s.f.res(r),))
                        continue
                    if get(s, 'B') is not None:
                        self.bad('thread', 'thread left', 'the watchdog thread is left after the destruction of the loop')
                    for (b,), v in items(s, 'h'):
                        if v != 'freed':
                            self.bad('leak', 'block of %s' % v, 'after destruction the block allocated at %s is left' % v)
                    self.ok('leak')
            return []
        raise run.Broken('operation %s' % (o,))


LONG = ('pass', 1500)
SHORT = ('pass', 400)
SCRIPTS = [
    [('enable', 1, 1), ('wait', (LONG,)), ('pass', 5000), ('wait', (SHORT,)), ('wait', (LONG, ('pass', 3000)))],
    [('wait', (LONG,)), ('enable', 2, 1), ('wait', (SHORT,)), ('wait', (('pass', 499),)), ('wait', (LONG,)), ('disable',),
     ('wait', (LONG,)), ('enable', 1, 2), ('wait', (LONG,))],
    [('enable', 2, 1), ('wait', (('disable',), LONG)), ('pass', 3000), ('enable', 1, 2), ('pass', 3000), ('wait', (LONG,))],
    [('enable', 2, 1), ('wait', (SHORT,)), ('enable', 1, 2), ('wait', (('pass', 600),)), ('wait', (LONG,)), ('wait',)],
    [('enable', 1, 1), ('wait', (('pass', 800),), (('pass', 800),)), ('wait', (SHORT,), (SHORT,)), ('wait',)],
    [('enable', 1, 1), ('disable',), ('disable',), ('enable', 2, 2), ('wait', (SHORT, ('pass', 100)))],
    [('enable', 1, 1), ('wait', (('enable', 2, 2), ('pass', 2000))), ('wait', (('pass', 600),)), ('pass', 3000)],
    [('enable', 2, 1), ('wait', (LONG, ('disable',))), ('enable', 2, 1), ('pass', 3000), ('wait', (SHORT,)),
     ('wait', (('pass', 500),))],
    [('enable', 3, 1), ('wait', (('pass', 5300),)), ('wait', (('pass', 5501),)), ('enable', 4, 2),
     ('wait', (('pass', 4294960000), ('pass', 8000)))],
]
STARTS = (7 * 10 ** 9, 7 * 10 ** 9 + 500 * MS, 7 * 10 ** 9 + 999999999)


def key(st):
    """States in which the same is stored, and the watchdog thread last saw the same, are explored once."""
    b = get(st, 'B')
    sg = st.sig()
    return sg[:3], frozenset(x for x in st.rs if not isinstance(x[0], tuple) or x[0][0] != 'B') - {('B', b)}, sg[4], \
        (b[2][-1:], b[3]) if b else None


def one(spec):
    cfg, si, t0, fail = spec
    r = WD()
    I = interp.Interp(run.M, r)
    I.gvals = run.gvals(cfg, I)
    r.I = I
    r.rdy = 'always'
    r.mode = 'happy'
    r.maxfail = 0
    r.where = '%s, script %d' % (cfg, si)
    st = interp.State()
    st.rs = frozenset()
    for f in (10, 11):
        put(st, ('k', f), ('user', 1, 1, 0))
    put(st, 'now', t0)
    sts = []
    for s, v in I.step(st, 'pomp_loop_new', [], ('wd', 'new')):
        if s.f.res(v) != 0:
            put(s, 'lp', s.f.res(v))
            sts.append(s)
    for f in (10, 11):
        sts = [y for s in sts for y, v in I.step(s, 'pomp_loop_add', [get(s, 'lp'), f, IN, ufn('wdfd'), ud('x')],
                                                 ('wd', 'add', f))]
    r.mode = 'all' if fail else 'happy'
    peak = 0
    tot = 0
    errs = []
    try:
        for o in SCRIPTS[si] + [('destroy',)]:
            out = {}
            for s in sts:
                tot += 1
                for x in r.op(I, s, o):
                    out.setdefault(key(x), x)
            sts = list(out.values())
            if os.environ.get('WDTRACE'):
                print(o, len(sts), flush=True)
            peak = max(peak, len(sts))
            if not sts:
                break
    except interp.NoProgress as e:
        r.bad('stuck', 'endless loop', str(e))
    except (interp.AnalysisError, RecursionError) as e:
        errs.append('%s: %s' % (r.where, e))
    return r.viol, {k: v for k, v in r.nev.items() if isinstance(k, str)}, peak, tot, errs, sorted(I.visited_fns), dict(I.stats)


def _job(spec):
    try:
        return one(spec)
    except Exception:
        import traceback
        return {}, {}, 0, 0, ['!' + traceback.format_exc()], [], {}


def check(pid):
    import multiprocessing as mp
    rep = run.Report(pid)
    run.load()
    specs = [(c, i, t, f) for c in ('fd', 'posix') for i in range(len(SCRIPTS)) for t in STARTS for f in (0, 1)
             if (not f or t == STARTS[0])]
    nev, errs, fns, tot, peak = {}, [], set(), 0, 0
    calls = 0
    with mp.get_context('fork').Pool(8) as pool:
        for v, n, p, t, e, f, s in pool.imap_unordered(_job, specs, chunksize=1):
            for (c, k), text in v.items():
                if c in CATS:
                    rep.violation('%s: %s' % (c, k), text)
            for k, x in n.items():
                nev[k] = nev.get(k, 0) + x
            errs += e
            fns |= set(f)
            tot += t
            peak = max(peak, p)
            calls += s.get('calls', 0)
    crash = [e for e in errs if e.startswith('!')]
    if crash:
        raise RuntimeError(crash[0])
    if not rep.viol:
        if len(errs) > max(1, len(specs) // 20):
            raise run.Broken('%d of %d scripts: %s' % (len(errs), len(specs), errs[0]))
        gone = [c for c in ('watchdog', 'thread', 'time', 'api', 'leak', 'lock') if not nev.get(c)]
        if gone:
            raise run.Broken('nothing examined about %s' % ', '.join(gone))
    run.NOT_ANALYSED.extend(e[:300] for e in errs)
    rep.cov.update(scripts=len(specs), transitions=tot, states_at_most=peak, calls_analysed=calls,
                   functions_analysed=len(fns), functions=sorted(fns),
                   obligations={CATS[c]: nev.get(c, 0) for c in CATS}, obligations_total=sum(nev.get(c, 0) for c in CATS),
                   rule='every interleaving of the watchdog thread, at lock operations, waits and time, with scripts of '
                        'calls of the thread of the loop, judged by rules/wdog.py')
    rep.assume += ['threads, conditions and clocks behave as modelled in rules/wdog.py',
                   'scripts and times bounded as listed in rules/wdog.py (SCRIPTS, STARTS)']
    return rep


CATS = {'watchdog': 'notification of a dispatch', 'thread': 'life of the watchdog thread', 'time': 'time waited for',
        'api': 'result of a call', 'leak': 'end of a session', 'lock': 'lock state', 'mem': 'access to or release of a block',
        'stuck': 'end of a loop of the library'}
