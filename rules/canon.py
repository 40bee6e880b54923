"""Canonical form of a state between two steps of a scenario: what is not
reachable any more is dropped and the names of what is left are replaced by
names that depend on the shape of the state only, so that states which differ
in their history alone become equal (and are merged)."""
import dom
import interp
from dom import *
from rt import get

ATOMKEY = {'h', 'fd', 'reg', 'timer', 'cst', 'cfd', 'susp', 'disc', 'told', 'shut', 'q', 'werr', 'wdir', 'pollarr'}
VOLATILE = ('reads', 'nwr', 'ctl', 'cmsg', 'errno', 'eintr', 'eof', 'nfail', 'nact', 'instop', 'nrd', 'werr',
            'ninj', 'longpipe', 'full', 'adding', 'mayrm', 'tid', 'wkran')
ATOMVAL = {'cfd': lambda v, f: f(v),
           'conns': lambda v, f: tuple(f(x) for x in v),
           'hd': lambda v, f: tuple(f(x) for x in v),
           'rxfds': lambda v, f: tuple(f(x) for x in v),
           'rx': lambda v, f: (f(v[0]),) + v[1:],
           'ubuf': lambda v, f: (v[0], f(v[1])) + v[2:],
           'q': lambda v, f: tuple((f(e[0]),) + e[1:] for e in v)}


def kind(k):
    return k[0] if isinstance(k, tuple) else k


class Canon:
    def __init__(self, I, st, step, keep=()):
        self.I = I
        self.st = st
        self.step = step
        self.map = {}
        self.cnt = {}
        self.todo = []

    # -- discovery
    def name(self, a):
        """canonical atom for a (known to be reachable)"""
        if a is None:
            return None
        n = self.map.get(a)
        if n is not None:
            return n
        k = A_KEY[a]
        kd = A_KIND[a]
        if k[0] in ('global', 'fn', 'ext', 'user', 'arg', 'str') or kd == 'fn':
            n = a
        else:
            info = A_INFO[a]
            if info.get('heap'):
                cls = (kd, info.get('alloc'), info.get('site'))
            else:
                t = k[2] if k[0] == 'fresh' and len(k) > 2 else k[0]
                cls = (kd, str(t).rstrip('.0123456789'), A_LO[a], max(A_HI[a], 1 << 31),
                       str(info.get('size')) if 'size' in info else None)
            if k[0] == 'canon':
                cls = k[1]
            i = self.cnt.get(cls, 0)
            self.cnt[cls] = i + 1
            n = atom(('canon', cls, i), kd, A_LO[a], A_HI[a] if kd != 'int' else max(A_HI[a], 1 << 31), {x: y for x, y in info.items() if x in (
                'heap', 'alloc', 'zero', 'fd', 'size', 'site')})
        self.map[a] = n
        self.todo.append(a)
        return n

    def see(self, v):
        if isinstance(v, Lin):
            v = self.st.f.res(v)
            if isinstance(v, Lin):
                for a, k in v.t:
                    self.name(a)
        elif isinstance(v, tuple):
            for x in v:
                self.see(x)

    def flush(self):
        mem = self.st.mem
        while self.todo:
            a = self.todo.pop(0)
            if get(self.st, ('h', a)) == 'freed':
                continue
            c = mem.get(a)
            if c:
                for o in sorted((o for o in c if isinstance(o, int))):
                    self.see(c[o][1])
                for o in [o for o in c if not isinstance(o, int)]:
                    self.see(o)
                    self.see(c[o][1])
            if a in self.st.sz:
                self.see(self.st.sz[a])

    # -- renaming
    def ren(self, v):
        if isinstance(v, Lin):
            v = self.st.f.res(v)
            if isinstance(v, Lin):
                return mk(v.c, {self.map[a]: k for a, k in v.t})
            return v
        if isinstance(v, tuple):
            return tuple(self.ren(x) for x in v)
        return v

    def known(self, v):
        return isinstance(v, int) or all(a in self.map for a, k in v.t)

    def run(self):
        st = self.st
        d = {k: v for k, v in st.rs if kind(k) not in VOLATILE}
        first = ['ctx', 'conns', 'idle', 'held', 'heldmsg', 'ubuf', 'rxfds', 'loop', 'rx', 'peer', 'timer', 'reg', 'q', 'cfd']
        order = lambda k: str(k)
        for f in first[:10]:
            for k in sorted((k for k in d if kind(k) == f), key=order):
                if f == 'loop':
                    self.see(k[1])
                else:
                    self.seeval(k, d[k])
                self.flush()
        for k in sorted((k for k in d if kind(k) not in ATOMKEY and kind(k) not in first), key=order):
            self.seeval(k, d[k])
            self.flush()
        # keyed by what is known, in canonical order
        def rest(cond):
            while True:
                ks = [k for k in d if kind(k) in ATOMKEY and cond(k) and k[1] in self.map and k not in done]
                if not ks:
                    return
                k = min(ks, key=lambda k: (kind(k), str(A_KEY[self.map[k[1]]])))
                done.add(k)
                self.seeval(k, d[k])
                self.flush()
        done = set()
        rest(lambda k: kind(k) not in ('cst',))
        # what the library lost track of is kept: leaks are judged at the end
        lost = [k for k in d if kind(k) in ('h', 'fd', 'reg', 'timer', 'q') and k[1] not in self.map and
                d[k] not in ('freed', 'closed')]
        for k in sorted(lost, key=lambda k: (kind(k), str(d[k]) if kind(k) in ('h', 'fd') else '', k[1])):
            self.name(k[1])
            self.flush()
        rest(lambda k: True)
        up = [k for k in d if kind(k) == 'cst' and d[k] == 'up' and k[1] not in self.map]
        for k in sorted(up):
            self.name(k[1])
        rest(lambda k: True)
        # rename
        n = interp.State()
        n.epoch = st.epoch
        m = self.map
        for b, c in st.mem.items():
            if b == interp.ERRNO or b not in m or get(st, ('h', b)) == 'freed':
                continue
            if A_KEY[b][0] == 'user':
                continue
            zero = st.ver.get(b) == ('zero',)
            n.mem[m[b]] = interp.Cells({self.ren(o): (z, self.ren(v)) for o, (z, v) in c.items()
                                        if not (zero and isinstance(v, int) and v == 0)})
            if b in st.ver:
                n.ver[m[b]] = st.ver[b] if st.ver[b] == ('zero',) else ('cv',)
        for b, v in st.ver.items():
            if b in m and m[b] not in n.ver and get(st, ('h', b)) != 'freed' and A_KEY[b][0] != 'user':
                n.ver[m[b]] = v if v == ('zero',) else ('cv',)
        for b, v in st.sz.items():
            if b in m:
                n.sz[m[b]] = self.ren(v)
        for b, v in st.heap.items():
            if b in m:
                n.heap[m[b]] = v
        f, g = st.f, n.f
        for a in m:
            l, h = f.arange(a)
            if a not in f.bind and (l, h) != (A_LO[m[a]], A_HI[m[a]]) and A_KIND[a] != 'fn' and not is_obj(a):
                g.iv[m[a]] = (l, h)
        g.ne = frozenset(self.ren(x) for x in (f.res(v) for v in f.ne) if self.known(x) and not isinstance(x, int))
        g.lin = tuple(sorted((self.ren(x) for x in (f.res(v) for v in f.lin)
                              if self.known(x) and not isinstance(x, int)), key=lambda v: (v.t, v.c)))
        r = {}
        for k, v in d.items():
            kd = kind(k)
            if kd in ATOMKEY:
                if k[1] not in m:
                    continue
                k = (kd, m[k[1]])
            elif kd == 'loop':
                k = ('loop', self.ren(k[1]))
            r[k] = self.renval(kd, v)
        n.rs = frozenset(r.items())
        return n

    def seeval(self, k, v):
        kd = kind(k)
        if kd in ATOMVAL and isinstance(v, (int, tuple)):
            ATOMVAL[kd](v, lambda a: self.name(a) if a is not None else None)
        self.see(v)

    def renval(self, kd, v):
        v = self.ren(v)
        if kd in ATOMVAL and isinstance(v, (int, tuple)):
            v = ATOMVAL[kd](v, lambda a: self.map[a] if a is not None else None)
        return v


def canon(I, st, step):
    return Canon(I, st, step).run()
