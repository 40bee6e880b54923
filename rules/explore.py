"""Exploration of all the canonical states that sequences of actions can reach
(work list until nothing new appears), spread over processes."""
import collections
import multiprocessing as mp
import os
import time
import traceback
import run
import dom
import interp
import canon
from dom import *
from rt import get
from canon import ATOMKEY, ATOMVAL, kind


# ---- states that can be sent to another process
def ea(a):
    if a is None:
        return None
    return ('A', A_KEY[a], A_KIND[a], A_LO[a], A_HI[a], ev(tuple(sorted(A_INFO[a].items(), key=str))))


def ev(v):
    if isinstance(v, Lin):
        return ('L', v.c, tuple((ea(a), k) for a, k in v.t))
    if isinstance(v, tuple):
        return ('T',) + tuple(ev(x) for x in v)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return None


_dec = {}


def da(x):
    if x is None:
        return None
    k = x[1]
    a = dom._intern.get(k)
    if a is None:
        a = atom(k, x[2], x[3], x[4], dict(dv(x[5])))
    return a


def dv(x):
    if isinstance(x, tuple):
        if x[0] == 'L':
            return mk(x[1], {da(a): k for a, k in x[2]})
        return tuple(dv(y) for y in x[1:])
    return x


def enc(st):
    m = tuple((ea(b), tuple((ev(o), z, ev(v)) for o, (z, v) in c.items())) for b, c in st.mem.items())
    r = []
    for k, v in st.rs:
        kd = kind(k)
        if kd in ATOMVAL and isinstance(v, (int, tuple)):
            e = ATOMVAL[kd](v, lambda a: ('A!', ea(a)))
            e = ('V', ev2(e))
        else:
            e = ev(v)
        if kd in ATOMKEY:
            k = ('K', kd, ea(k[1]))
        else:
            k = ev(k)
        r.append((k, e))
    f = st.f
    return (m, tuple((ea(b), ev(v)) for b, v in st.ver.items()), tuple((ea(b), ev(v)) for b, v in st.sz.items()),
            tuple((ea(b), ev(v)) for b, v in st.heap.items()), tuple(r),
            tuple((ea(a), l, h) for a, (l, h) in f.iv.items()), tuple(ev(x) for x in f.ne),
            tuple(ev(x) for x in f.lin), st.epoch, tuple(st.steps()[-6:]))


def ev2(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'A!':
            return v
        return ('T',) + tuple(ev2(x) for x in v)
    return ev(v)


def dv2(v):
    if isinstance(v, tuple):
        if v[0] == 'A!':
            return da(v[1])
        if v[0] == 'T':
            return tuple(dv2(x) for x in v[1:])
        return dv(v)
    return v


def dec(e):
    st = interp.State()
    m, ver, sz, heap, rs, iv, ne, lin, ep, steps = e
    for b, c in m:
        st.mem[da(b)] = interp.Cells({dv(o): (z, dv(v)) for o, z, v in c})
    st.ver = {da(b): dv(v) for b, v in ver}
    st.sz = {da(b): dv(v) for b, v in sz}
    st.heap = {da(b): dv(v) for b, v in heap}
    r = []
    for k, v in rs:
        if isinstance(k, tuple) and k[0] == 'K':
            k = (k[1], da(k[2]))
        else:
            k = dv(k)
        if isinstance(v, tuple) and v and v[0] == 'V':
            v = dv2(v[1])
        else:
            v = dv(v)
        r.append((k, v))
    st.rs = frozenset(r)
    st.f.iv = {da(a): (l, h) for a, l, h in iv}
    st.f.ne = frozenset(dv(x) for x in ne)
    st.f.lin = tuple(dv(x) for x in lin)
    st.epoch = ep
    for s in steps:
        st.trace = (st.trace, s)
    return st


# ---- workers
_W = None          # list of (world, actions)


def _work(task):
    ci, e = task
    w, acts = _W[ci]
    base = dec(e)
    r = w.r
    out = []
    seen = {}
    errs = []
    r.viol, r.nev = {}, {}
    st0 = dict(w.I.stats)
    n = 0
    w.nquiet = w.nend = 0
    for name, f in acts:
        w.sts = [base.fork()]
        w.label = name
        r.where = name
        try:
            if f(w) is False:
                continue
            n += 1
            w.quiet()
        except interp.NoProgress as x:
            r.bad('stuck', 'endless loop during %s' % name, '%s: %s' % (name, x))
            continue
        except (interp.AnalysisError, RecursionError) as x:
            errs.append('%s: %s: %s' % (w.title, name, x))
            continue
        except Exception:
            errs.append('!' + traceback.format_exc())
            continue
        if w.final:
            w.final = False
            continue
        oom = []
        for x in w.sts:
            if get(x, 'oom'):
                oom.append(x)
                continue
            if r.stream:
                r.period(x)
                x = canon.canon(w.I, x, 0)
            k = x.sig()
            if k not in seen:
                seen[k] = 1
                out.append((name, enc(x)))
        if oom:
            # a memory shortage: the session is brought to its end
            w.sts = oom
            w.label = name + ' (out of memory)'
            try:
                w.teardown()
            except (interp.AnalysisError, RecursionError) as x:
                errs.append('%s: %s: %s' % (w.title, w.label, x))
    fns = sorted(w.I.visited_fns)
    return ci, e, out, r.viol, r.nev, n, errs, fns, {k: w.I.stats[k] - st0.get(k, 0) for k in w.I.stats
                                                    if isinstance(w.I.stats[k], int)}


class Explorer:
    def __init__(self, worlds, limit=4000, procs=8, verbose=False, time_limit=600, stop=None):
        """worlds: list of (W with its initial states, actions)."""
        global _W
        self.worlds = worlds
        self.limit, self.procs, self.verbose, self.time_limit = limit, procs, verbose, time_limit
        self.stop = stop          # categories of violations that end the exploration (a little later)
        self.tabs = [{} for _ in worlds]
        self.viol = {}
        self.nev = collections.Counter()
        self.errs = []
        self.fns = set()
        self.stats = collections.Counter()
        self.n = 0
        _W = worlds

    def add(self, ci, e, todo):
        w = self.worlds[ci][0]
        x = dec(e)
        k = x.sig()
        tab = self.tabs[ci]
        y = tab.get(k)
        if y is None:
            tab[k] = [x, True]
            todo.append((ci, k))
            return
        y0 = y[0]
        f = y0.f
        old = (dict(f.iv), f.ne, set(f.lin))
        w.I.merge_into(y0, x, ('explore',))
        f = y0.f
        if (f.iv, f.ne, set(f.lin)) != old and not y[1]:
            y[1] = True
            todo.append((ci, k))

    def run(self):
        t0 = time.time()
        todo = collections.deque()
        for ci, (w, acts) in enumerate(self.worlds):
            w.final = False
            w.quiet()
            self.take(w.r.viol, w.r.nev)
            for s in w.sts:
                self.add(ci, enc(s), todo)
        ctx = mp.get_context('fork')
        self.complete = True
        found = 0
        with ctx.Pool(self.procs) as pool:
            pend = collections.deque()
            while todo or pend:
                while todo and len(pend) < self.procs * 3:
                    ci, k = todo.popleft()
                    ent = self.tabs[ci][k]
                    ent[1] = False
                    pend.append(pool.apply_async(_work, ((ci, enc(ent[0])),)))
                # whichever is ready
                for i in range(len(pend)):
                    if pend[i].ready():
                        break
                else:
                    pend[0].wait(0.05)
                    continue
                r = pend[i]
                del pend[i]
                ci, e, out, viol, nev, n, errs, fns, stats = r.get()
                self.take(viol, nev)
                self.n += n
                self.errs += errs
                self.fns |= set(fns)
                self.stats.update(stats)
                for name, x in out:
                    self.add(ci, x, todo)
                if sum(len(t) for t in self.tabs) > self.limit or time.time() - t0 > self.time_limit:
                    self.complete = False
                    break
                if self.stop and not found and any(c in self.stop for c, k in self.viol):
                    found = time.time()
                if found and time.time() - found > 15:
                    self.complete = False
                    break
                if self.verbose:
                    print('\r', self.n, [len(t) for t in self.tabs], len(todo), '%.0fs' % (time.time() - t0), end='')
            pool.terminate()
        self.secs = time.time() - t0
        return self

    def take(self, viol, nev):
        for k, v in viol.items():
            self.viol.setdefault(k, v)
        self.nev.update(nev)
