"""Bit provenance domain: every bit of a value is an affine form over GF(2) of
bits of unknowns (frozenset of (atom, bit index), with 1 standing for the
constant).  Exact for shifts, masks, xor, extensions and disjoint or/add."""
from dom import *
import dom

ZERO = frozenset()
ONE = frozenset((1,))


def const_bits(c, w):
    return [ONE if (c >> i) & 1 else ZERO for i in range(w)]


def bits_of(st, v, w):
    """Low w bits of a value, or None."""
    v = st.f.res(v)
    if isinstance(v, int):
        return const_bits(v, w)
    if not isinstance(v, Lin):
        return None
    if len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
        return atom_bits(v.t[0][0], w)
    acc = const_bits(v.c, w)
    for a, k in v.t:
        ab = atom_bits(a, w)
        if ab is None:
            return None
        if k < 0:
            # minus a one bit value: all ones or zero
            if k == -1 and all(b == ZERO for b in ab[1:]):
                ab = [ab[0]] * w
                k = 1
            else:
                return None
        if k & (k - 1):
            return None
        sh = k.bit_length() - 1
        ab = ([ZERO] * sh + ab)[:w]
        acc = disjoint(acc, ab)
        if acc is None:
            return None
    return acc


def atom_bits(a, w):
    k = A_KEY[a]
    if k[0] == 'bv':
        bs = list(k[1])
        return (bs + [ZERO] * w)[:w]
    lo, hi = A_LO[a], A_HI[a]
    if A_KIND[a] != 'int':
        return None
    if k[0] == 'op' and k[1] == 'bool':
        return [frozenset(((a, 0),))] + [ZERO] * (w - 1)
    if lo <= -INF or hi >= INF:
        n = 64
        return [frozenset(((a, i),)) for i in range(w)] if w <= 64 else None
    if lo >= 0:
        n = hi.bit_length()
        return [frozenset(((a, i),)) if i < n else ZERO for i in range(w)]
    n = max(hi.bit_length(), (-lo - 1).bit_length())
    if hi > -lo:      # unknown signedness: meaningful up to its own width only
        n = hi.bit_length()
        if w > n:
            return None
    return [frozenset(((a, min(i, n)),)) for i in range(w)]


def disjoint(x, y):
    out = []
    for a, b in zip(x, y):
        if a == ZERO:
            out.append(b)
        elif b == ZERO:
            out.append(a)
        else:
            return None
    return out


def make(bs):
    """Value for a list of bits (unsigned reading)."""
    if all(b in (ZERO, ONE) for b in bs):
        return sum(1 << i for i, b in enumerate(bs) if b == ONE)
    n = len(bs)
    while n and bs[n - 1] == ZERO:
        n -= 1
    bs = tuple(bs[:n])
    # exactly one unknown, in place, unsigned?
    f = [b for b in bs]
    if all(len(b) == 1 and 1 not in b for b in f):
        s = set(next(iter(b))[0] for b in f)
        if len(s) == 1:
            a = s.pop()
            if all(next(iter(b))[1] == i for i, b in enumerate(f)) and A_LO[a] >= 0 and A_HI[a].bit_length() == n:
                return av(a)
    lo = sum(1 << i for i, b in enumerate(bs) if b == ONE)
    hi = sum(1 << i for i, b in enumerate(bs) if b != ZERO)
    return av(atom(('bv', bs), 'int', lo, hi))


def canon(st, v):
    """A value made of the low bits of an unknown whose other bits are zero on
    this path is that unknown."""
    if not isinstance(v, Lin) or len(v.t) != 1 or v.c != 0 or v.t[0][1] != 1:
        return v
    k = A_KEY[v.t[0][0]]
    if k[0] != 'bv':
        return v
    bs = k[1]
    if not all(len(b) == 1 and 1 not in b for b in bs):
        return v
    a = next(iter(bs[0]))[0]
    if any(next(iter(b)) != (a, i) for i, b in enumerate(bs)) or A_LO[a] < 0 or A_HI[a] >= INF:
        return v
    n = A_HI[a].bit_length()
    if n > len(bs):
        z = zero_bits(st)
        if all((a, i) in z for i in range(len(bs), n)):
            return st.f.res(av(a))
    return v


def binop(st, op, w, a, b):
    r = binop0(st, op, w, a, b)
    return canon(st, r) if r is not None else None


def binop0(st, op, w, a, b):
    if op in ('shl', 'lshr', 'ashr'):
        b = st.f.res(b)
        if not isinstance(b, int) or not 0 <= b < w:
            return None
        x = bits_of(st, a, w)
        if x is None:
            return None
        if op == 'shl':
            return make(([ZERO] * b + x)[:w])
        fill = ZERO if op == 'lshr' else x[w - 1]
        return make(x[b:] + [fill] * b)
    if op not in ('and', 'or', 'xor', 'add', 'sub'):
        return None
    if op in ('add', 'sub'):
        if isinstance(st.f.res(a), int) and isinstance(st.f.res(b), int):
            return None
        ra = st.f.res(a)
        if op == 'sub':
            if ra != 0:
                return None
            y = bits_of(st, b, w)
            if y is None or any(t != ZERO for t in y[1:]):
                return None
            return make([y[0]] * w)
        return None
    x, y = bits_of(st, a, w), bits_of(st, b, w)
    if x is None or y is None:
        return None
    out = []
    for p, q in zip(x, y):
        if op == 'xor':
            out.append(p ^ q)
        elif op == 'and':
            if p == ZERO or q == ZERO:
                out.append(ZERO)
            elif p == ONE:
                out.append(q)
            elif q == ONE or p == q:
                out.append(p)
            else:
                return None
        else:
            if p == ONE or q == ONE:
                out.append(ONE)
            elif p == ZERO:
                out.append(q)
            elif q == ZERO or p == q:
                out.append(p)
            else:
                return None
    return make(out)


def cast(st, op, v, w, to):
    if op == 'trunc':
        x = bits_of(st, v, to)
        return make(x) if x is not None else None
    x = bits_of(st, v, w)
    if x is None:
        return None
    if op == 'zext':
        return make(x)
    return make(x + [x[w - 1]] * (to - w))


def compare(st, pred, a, b, w):
    """1, 0 or None for eq/ne/unsigned order against bits."""
    x, y = bits_of(st, a, w), bits_of(st, b, w)
    if x is None or y is None:
        return None
    if x == y:
        return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    if pred in ('eq', 'ne'):
        for p, q in zip(x, y):
            if p ^ q == ONE:
                return int(pred == 'ne')
    return None


def zero_bits(st):
    """Bits the path condition makes zero: [(atom, bit)] from values bound to 0."""
    out = set()
    for a, v in st.f.bind.items():
        if A_KEY[a][0] == 'bv' and st.f.res(v) == 0:
            for b in A_KEY[a][1]:
                if len(b) == 1 and 1 not in b:
                    out |= b
    return out


def equal(st, a, b, w, given=()):
    """Are the low w bits of a and b equal on this path (the forms `given` being
    zero)?"""
    x, y = bits_of(st, a, w), bits_of(st, b, w)
    if x is None or y is None:
        return False
    d = [p ^ q for p, q in zip(x, y)]
    d = [t for t in d if t]
    if not d:
        return True
    reduce, ok = relations(st, w, given)
    return all(not reduce(t) for t in d)


def feasible(st):
    reduce, ok = relations(st, 64)
    if not ok:
        return False
    cand = [c.t[0][0] for c in st.f.ne if isinstance(c, Lin) and len(c.t) == 1 and c.c == 0]
    cand += [a for a, (lo, hi) in st.f.iv.items() if lo > 0]
    for a in cand:
        if A_KEY[a][0] == 'bv' and all(not reduce(t) for t in A_KEY[a][1]):
            return False
    return True


def relations(st, w, given=()):
    """Linear forms known to be zero on this path, as a GF(2) basis."""
    basis = {}
    good = [True]

    def reduce(t):
        t = set(t)
        while True:
            for piv in sorted((e for e in t if e in basis), key=repr):
                t ^= basis[piv]
                break
            else:
                return frozenset(t)

    def add_rel(t):
        e = reduce(t)
        e2 = set(e) - {1}
        if e2:
            basis[sorted(e2, key=repr)[0]] = set(e)
        elif e:
            good[0] = False

    for t in given:
        add_rel(t)
    for at, v in st.f.bind.items():
        if A_KIND[at] != 'int':
            continue
        if A_KEY[at][0] == 'bv':
            lhs = list(A_KEY[at][1])
        else:
            lhs = atom_bits(at, min(64, w))
            if lhs is None:
                continue
        r = st.f.res(v)
        rhs = bits_of(st, r, len(lhs))
        if rhs is None:
            continue
        for t, u in zip(lhs, rhs):
            add_rel(t ^ u)
    cand = set(c.t[0][0] for c in st.f.ne if isinstance(c, Lin) and len(c.t) == 1 and c.c == 0)
    cand |= set(a for a, (lo, hi) in st.f.iv.items() if lo > 0)
    for a in cand:
        if A_KEY[a][0] != 'bv':
            continue
        bs = [t for t in A_KEY[a][1] if t != ZERO]
        if len(bs) == 1:           # a single bit known not to be zero
            add_rel(bs[0] ^ ONE)
    return reduce, good[0]
