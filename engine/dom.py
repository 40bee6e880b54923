"""Abstract values and path facts.

Values are either Python ints (constants), Lin (integer-linear expressions over
atoms; pointers are "object atom + offset") or Cond tuples (1-bit values).
Facts on a path are intervals on atoms, equalities (bindings), disequalities
and a conjunction of linear inequalities `L <= 0`.  Entailment is a bounded
syntactic combination of those inequalities (no solver is involved): it is the
usual transfer function of a (weak) polyhedral / zone abstract domain.
"""
INF = 1 << 70

# ---- atoms -----------------------------------------------------------------
A_KEY = []      # key tuple
A_KIND = []     # 'ptr' | 'int' | 'obj' | 'fn'
A_LO = []
A_HI = []
A_INFO = []     # dict of extra information (origin, struct...)
_intern = {}
# facts that hold in every state (class invariants of the initial store):
# atom -> tuple of linear expressions L (L <= 0)
AXIOMS = {}


def axiom(v):
    for a, k in v.t:
        o = AXIOMS.get(a, ())
        if v not in o:
            AXIOMS[a] = o + (v,)



def atom(key, kind='int', lo=-INF, hi=INF, info=None):
    i = _intern.get(key)
    if i is not None:
        return i
    i = len(A_KEY)
    A_KEY.append(key)
    A_KIND.append(kind)
    A_LO.append(lo)
    A_HI.append(hi)
    A_INFO.append(info if info is not None else {})
    _intern[key] = i
    return i


_fresh = [0]


def fresh(tag, kind='int', lo=-INF, hi=INF, info=None):
    _fresh[0] += 1
    return atom(('fresh', _fresh[0], tag), kind, lo, hi, info)


def is_obj(a):
    return A_KIND[a] in ('obj', 'fn')


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return (self is o) or (isinstance(o, Lin) and self.h == o.h and
                               self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return show(self)


def mk(c, d):
    """Build a value from constant and dict atom->coeff."""
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    if not t:
        return c
    return Lin(c, t)


def av(a):
    return Lin(0, ((a, 1),))


def add(x, y):
    if isinstance(x, int):
        if isinstance(y, int):
            return x + y
        if x == 0:
            return y
        return Lin(x + y.c, y.t)
    if isinstance(y, int):
        if y == 0:
            return x
        return Lin(x.c + y, x.t)
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + k
    return mk(x.c + y.c, d)


def scale(x, k):
    if isinstance(x, int):
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return Lin(x.c * k, tuple((a, c * k) for a, c in x.t))


def sub(x, y):
    if isinstance(y, int):
        return add(x, -y)
    return add(x, scale(y, -1))


def is_cond(v):
    return isinstance(v, tuple)


def show(v, depth=0):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, tuple):
        return '(' + ' '.join(show(x) if not isinstance(x, str) else x for x in v) + ')'
    if v is None:
        return 'None'
    s = []
    for a, k in v.t:
        n = aname(a, depth)
        s.append(n if k == 1 else '%d*%s' % (k, n))
    if v.c:
        s.append(str(v.c))
    return '+'.join(s)


def aname(a, depth=0):
    k = A_KEY[a]
    if depth > 4:
        return '..'
    if k[0] == 'init':
        # ('init', base, off, size, ver)
        f = A_INFO[a].get('field')
        return '%s->%s' % (aname(k[1], depth + 1), f if f else k[2])
    if k[0] == 'arg':
        return k[2]
    if k[0] == 'global':
        return '&' + k[1]
    if k[0] == 'fn':
        return k[1] + '()'
    if k[0] == 'fresh':
        return '%s#%d' % (k[2], k[1])
    if k[0] == 'op':
        return '%s(%s)' % (k[1], ','.join(show(x, depth + 1) if not isinstance(x, str) else x for x in k[2:]))
    return str(k)


# ---- facts -----------------------------------------------------------------
class Infeasible(Exception):
    pass


class Facts:
    __slots__ = ('iv', 'bind', 'ne', 'lin', 'ix', '_budget')

    def __init__(self):
        self.iv = {}
        self.bind = {}
        self.ne = frozenset()
        self.lin = ()
        self.ix = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv = dict(self.iv)
        f.bind = dict(self.bind)
        f.ne = self.ne
        f.lin = self.lin
        f.ix = self.ix
        return f

    # -- resolve bindings
    def res(self, v):
        if isinstance(v, Lin):
            b = self.bind
            if not b:
                return v
            for a, k in v.t:
                if a in b:
                    break
            else:
                return v
            out = v.c
            for a, k in v.t:
                if a in b:
                    out = add(out, scale(self.res(b[a]), k))
                else:
                    out = add(out, Lin(0, ((a, k),)))
            return out
        return v

    def arange(self, a):
        r = self.iv.get(a)
        if r is None:
            if A_KIND[a] in ('obj', 'fn'):
                return (4096, INF)
            return (A_LO[a], A_HI[a])
        return r

    def range(self, v):
        if isinstance(v, int):
            return (v, v)
        lo = hi = v.c
        for a, k in v.t:
            l, h = self.arange(a)
            if k > 0:
                lo = -INF if l <= -INF or lo <= -INF else lo + k * l
                hi = INF if h >= INF or hi >= INF else hi + k * h
            else:
                lo = -INF if h >= INF or lo <= -INF else lo + k * h
                hi = INF if l <= -INF or hi >= INF else hi + k * l
        return (max(lo, -INF), min(hi, INF))

    # -- proving  v <= 0
    def index(self):
        ix = self.ix
        if ix is not None and ix[0] is self.lin:
            return ix[1]
        d = {}
        for c in self.lin:
            for a, k in c.t:
                d.setdefault((a, k > 0), []).append((c, k))
        self.ix = (self.lin, d)
        return d

    def le0(self, v, depth=3):
        v = self.res(v)
        if isinstance(v, int):
            return v <= 0
        if self.range(v)[1] <= 0:
            return True
        if not self.lin and not AXIOMS:
            return False
        ix = self.index()
        for d in (1, 2, depth):
            if d > depth:
                break
            self._budget = 120
            if self._le0(v, d, ix, set()):
                return True
        return False

    def axioms(self, a, pos):
        out = []
        for c in AXIOMS[a]:
            c = self.res(c)
            if isinstance(c, Lin):
                for x, k in c.t:
                    if x == a and (k > 0) == pos:
                        out.append((c, k))
        return out

    def _le0(self, v, depth, ix, seen):
        # v is resolved, not bounded by intervals alone
        if depth == 0 or v in seen:
            return False
        seen.add(v)
        # an atom that is unbounded in the direction of v must be eliminated
        piv = None
        for a, k in v.t:
            l, h = self.arange(a)
            if (k > 0 and h >= INF) or (k < 0 and l <= -INF):
                n = len(ix.get((a, k > 0), ()))
                if a in AXIOMS:
                    n += len(self.axioms(a, k > 0))
                if n == 0:
                    return False
                if piv is None or n < piv[0]:
                    piv = (n, a, k)
        for a, k in ([piv[1:]] if piv else v.t):
            cs = ix.get((a, k > 0), ())
            if a in AXIOMS:
                cs = list(cs) + self.axioms(a, k > 0)
            for c2, k2 in cs:
                if k % k2 == 0:
                    nv = sub(v, scale(c2, k // k2))
                else:
                    nv = sub(scale(v, abs(k2)), scale(c2, abs(k)))
                if isinstance(nv, int):
                    if nv <= 0:
                        return True
                    continue
                if self.range(nv)[1] <= 0:
                    return True
                self._budget -= 1
                if self._budget < 0:
                    return False
                if self._le0(nv, depth - 1, ix, seen):
                    return True
        return False

    def prove_le(self, a, b, depth=3):
        return self.le0(sub(a, b), depth)

    def prove_lt(self, a, b):
        return self.le0(add(sub(a, b), 1))

    def nonneg(self, v):
        v = self.res(v)
        if self.range(v)[0] >= 0:
            return True
        return self.le0(scale(v, -1), 2)

    def known_ne0(self, v):
        v = self.res(v)
        if isinstance(v, int):
            return v != 0
        lo, hi = self.range(v)
        if lo > 0 or hi < 0:
            return True
        if v in self.ne or scale(v, -1) in self.ne:
            return True
        # distinct objects: obj1 + c - obj2 - c'
        if len(v.t) == 2:
            (a, ka), (b, kb) = v.t
            if ka == -kb:
                if is_obj(a) and is_obj(b):
                    return True
                # two allocated blocks, one of them at least not NULL
                if A_INFO[a].get('heap') and A_INFO[b].get('heap') and (
                        self.arange(a)[0] > 0 or self.arange(b)[0] > 0):
                    return True
        if self.le0(add(v, 1), 2) or self.le0(add(scale(v, -1), 1), 2):
            return True
        return False

    def known_eq0(self, v):
        v = self.res(v)
        if isinstance(v, int):
            return v == 0
        lo, hi = self.range(v)
        if lo == 0 and hi == 0:
            return True
        return self.le0(v, 2) and self.le0(scale(v, -1), 2)

    def add_lin(self, v):
        """Record v <= 0 without a feasibility test."""
        v = self.res(v)
        if isinstance(v, Lin) and v not in self.lin and self.range(v)[1] > 0:
            self.lin = self.lin + (v,)

    # -- assuming
    def assume_le0(self, v):
        """assume v <= 0"""
        v = self.res(v)
        if isinstance(v, int):
            if v > 0:
                raise Infeasible()
            return
        lo, hi = self.range(v)
        if hi <= 0:
            return
        if lo > 0:
            raise Infeasible()
        if len(v.t) == 1:
            (a, k), = v.t
            l, h = self.arange(a)
            # k*a + c <= 0
            if k > 0:
                h = min(h, (-v.c) // k)
            else:
                # a >= c / -k  -> a >= ceil(c/(-k))
                l = max(l, _ceil(v.c, -k))
            if l > h:
                raise Infeasible()
            # exclude boundary disequalities
            self.iv[a] = (l, h)
            if self.lin and self.le0(add(scale(v, -1), 1), 2):
                raise Infeasible()
            if l == h:
                self._bind(a, l)
            return
        if self.le0(add(scale(v, -1), 1), 3):
            raise Infeasible()
        if v not in self.lin:
            self.lin = self.lin + (v,)

    def _bind(self, a, val):
        self.bind[a] = val
        # propagate interval
        if isinstance(val, int):
            l, h = self.arange(a)
            if val < l or val > h:
                raise Infeasible()
            self.iv[a] = (val, val)
        else:
            l, h = self.arange(a)
            if len(val.t) == 1 and val.t[0][1] == 1:
                b = val.t[0][0]
                l2, h2 = self.arange(b)
                nl, nh = max(l2, l - val.c), min(h2, h - val.c)
                if nl > nh:
                    raise Infeasible()
                if (nl, nh) != (l2, h2) and not is_obj(b):
                    self.iv[b] = (nl, nh)
                elif is_obj(b) and h < 4096:
                    raise Infeasible()
            elif len(val.t) > 1:
                l2, h2 = self.range(val)
                if h < INF and h2 > h:
                    self.add_lin(sub(val, h))
                if l > -INF and l2 < l:
                    self.add_lin(sub(l, val))
        for n in self.ne:
            r = self.res(n)
            if r == 0:
                raise Infeasible()
        if self.lin:
            out = []
            for c in self.lin:
                for x, _ in c.t:
                    if x == a:
                        break
                else:
                    out.append(c)
                    continue
                r = self.res(c)
                if isinstance(r, int):
                    if r > 0:
                        raise Infeasible()
                    continue
                if self.range(r)[0] > 0:
                    raise Infeasible()
                if r not in out:
                    out.append(r)
            self.lin = tuple(out)

    def assume_eq0(self, v):
        v = self.res(v)
        if isinstance(v, int):
            if v != 0:
                raise Infeasible()
            return
        if self.known_ne0(v):
            raise Infeasible()
        # choose an atom with coeff +-1 to bind, prefer non-object, newest
        cand = [(a, k) for a, k in v.t if abs(k) == 1 and not is_obj(a)]
        if cand:
            a, k = max(cand)
            rest = add(v, Lin(0, ((a, -k),)))
            val = scale(rest, -k)
            self._bind(a, val)
            return
        self.assume_le0(v)
        self.assume_le0(scale(v, -1))

    def assume_ne0(self, v):
        v = self.res(v)
        if isinstance(v, int):
            if v == 0:
                raise Infeasible()
            return
        if self.known_eq0(v):
            raise Infeasible()
        if len(v.t) == 1 and abs(v.t[0][1]) == 1:
            a, k = v.t[0]
            x = -v.c * k
            l, h = self.arange(a)
            if x == l:
                l += 1
            elif x == h:
                h -= 1
            elif l < x < h:
                self.ne = self.ne | {v}
                return
            else:
                return
            # a null pointer test: the pointer is a valid address
            self.iv[a] = (l, h)
            if l > h:
                raise Infeasible()
            if l == h:
                self._bind(a, l)
            return
        self.ne = self.ne | {v}

    def merge(self, o):
        """Facts implied by both self and o (join)."""
        f = Facts()
        for a, v in self.bind.items():
            w = o.bind.get(a)
            if w is not None and (v == w or self.res(v) == o.res(w)):
                f.bind[a] = v
        keys = set(self.iv) & set(o.iv)
        for a in keys:
            l1, h1 = self.iv[a]
            l2, h2 = o.iv[a]
            l, h = min(l1, l2), max(h1, h2)
            if (l, h) != (A_LO[a], A_HI[a]):
                f.iv[a] = (l, h)
        # an atom with interval in one and binding in other
        f.ne = frozenset(n for n in (self.ne | o.ne)
                         if (n in self.ne or self.known_ne0(n)) and
                         (n in o.ne or o.known_ne0(n)))
        ol = set(o.lin)
        keep = []
        for c in self.lin:
            if c in ol or o.le0(c, 1):
                c = f.res(c)
                if isinstance(c, Lin):
                    keep.append(c)
        sl = set(self.lin)
        for c in o.lin:
            if c not in sl and self.le0(c, 1):
                c = f.res(c)
                if isinstance(c, Lin):
                    keep.append(c)
        f.lin = tuple(keep)
        return f


def _ceil(c, k):
    # smallest integer >= c/k, k>0
    return -((-c) // k)
