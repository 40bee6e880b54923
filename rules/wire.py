"""C06: the wire encoding of every value, and the decoding that inverts it, by
bit provenance: every bit written is traced to the bit of the argument it comes
from, every bit read back likewise."""
import run
import mem
import dom
import bv
import interp
import ir as IR
from dom import *

# documented encoding
TYPES = {'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8,
         'str': 9, 'buf': 10, 'f32': 11, 'f64': 12, 'fd': 13}
WIDTH = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64,
         'f32': 32, 'f64': 64}
FIXED = ('i8', 'u8', 'i16', 'u16', 'f32', 'f64')
HDR = 12


class WRule(mem.BufInv):
    merge = False
    bitmode = True
    max_states = 3000000

    def init_rs(self):
        return ()

    def exact(self, I, fn, h):
        return 80

    def call(self, I, st, name, args, ins):
        if name in ('malloc', 'calloc', 'realloc'):
            return [(s, v) for s, v in I.libc(st, name, args, ins) if not (isinstance(v, int) and v == 0)]
        if name in ('dup', 'fcntl') and self.oksys:
            a = atom(('scn', 'dup', len(st.rs)), 'int', 0, (1 << 31) - 1)
            st.rs = st.rs + (('dup', st.f.res(args[0]), av(a)),)
            return [(st, av(a))]
        if name.startswith('__isoc') and '_str' in name:
            name = name[name.index('_str') + 1:]
        if name in ('strtol', 'strtoll', 'strtoul', 'strtoull', 'strtoimax', 'strtoumax', 'strtod', 'strtof') and self.nums:
            b, off = I.base_off(st, args[0])
            if b in self.nums and off == 0:
                st.rs = st.rs + (('conv', name.replace('ll', 'l'), b, args[2] if len(args) > 2 else 0),)
                v = self.nums[b]
                if name == 'strtod' and v.t and A_KEY[v.t[0][0]][1] == 'fs':
                    v = av(atom(('scn', 'fsd'), 'int', 0, (1 << 64) - 1))
                return [(st, v)]
        if name == 'strlen':
            b, off = I.base_off(st, args[0])
            if b in self.strlen and off == 0:
                return [(st, self.strlen[b])]
        if name == 'strdup':
            b, off = I.base_off(st, args[0])
            r = [(s, v) for s, v in I.libc(st, name, args, ins) if not (isinstance(v, int) and v == 0)]
            for s, v in r:
                s.rs = s.rs + (('strdup', I.base_off(s, v)[0], b, s.f.res(off)),)
            return r
        return None
    oksys = False
    strlen = {}
    nums = {}

    def on_mem(self, I, st, kind, ptr, n, ins):
        if kind == 'w':
            self.pend = (ptr, n)
        else:
            d = I.base_off(st, self.pend[0])
            s = I.base_off(st, ptr)
            st.rs = st.rs + (('copy', d[0], st.f.res(d[1]), s[0], st.f.res(s[1]), st.f.res(n)),)


class W:
    def __init__(self, rep):
        self.rep = rep
        self.rule = WRule()
        self.rule.entry_name = 'scenario'
        self.rule.cfg = 'fd'
        self.I = interp.Interp(run.M, self.rule)
        self.I.gvals = run.gvals('fd', self.I)
        self.n = 0
        self.bits = 0
        self.npaths = 0
        self.enc = av(atom(('scn', 'enc'), 'obj', info={'size': 64, 'zero': True}))
        self.dec = av(atom(('scn', 'dec'), 'obj', info={'size': 64, 'zero': True}))
        self.out = av(atom(('scn', 'out'), 'obj', info={'size': 16}))
        self.out2 = av(atom(('scn', 'out2'), 'obj', info={'size': 16}))
        for f in ['pomp_msg_new', 'pomp_msg_init', 'pomp_msg_finish', 'pomp_encoder_init', 'pomp_decoder_init'] + \
                ['pomp_encoder_write_' + t for t in TYPES] + ['pomp_decoder_read_' + t for t in TYPES]:
            if f not in run.M.functions:
                raise run.Broken('%s not found' % f)

    def step(self, st, f, args, ok=True):
        self.n += 1
        self.I.nstates = 0
        outs = self.I.step(st.fork(), f, args, ('g', self.n))
        outs = [(s, r) for s, r in outs if bv.feasible(s)]
        if ok:
            outs = [(s, r) for s, r in outs if s.f.res(r) == 0]
        return outs

    def viol(self, key, text):
        self.rep.violation(key, text)

    def begin(self, ident):
        I = self.I
        st = interp.State()
        st.rs = ()
        o = [(s, r) for s, r in I.step(st, 'pomp_msg_new', [], ('new',)) if isinstance(s.f.res(r), Lin)]
        if len(o) != 1:
            raise run.Broken('pomp_msg_new: %d outcomes' % len(o))
        st, self.msg = o[0]
        o = self.step(st, 'pomp_msg_init', [self.msg, ident])
        if len(o) != 1:
            raise run.Broken('pomp_msg_init: %d outcomes' % len(o))
        o = self.step(o[0][0], 'pomp_encoder_init', [self.enc, self.msg])
        if len(o) != 1:
            raise run.Broken('pomp_encoder_init: %d outcomes' % len(o))
        return o[0][0]

    def fld(self, st, p, sn, f):
        b, o = self.I.base_off(st, p)
        off, size = run.M.field_offset(sn, f)
        c = st.mem.get(b, {}).get(off + o)
        return st.f.res(c[1]) if c is not None else None

    def data(self, st):
        """(base of the data block, length) of the message."""
        buf = self.fld(st, self.msg, 'pomp_msg', 'buf')
        d = self.fld(st, buf, 'pomp_buffer', 'data')
        return self.I.base_off(st, d)[0], self.fld(st, buf, 'pomp_buffer', 'len')

    def byte(self, st, b, i):
        c = st.mem.get(b, {}).get(i)
        if c is None:
            return None
        if c[0] != 1:
            x = bv.bits_of(st, c[1], 8)
            return bv.make(x) if x else None
        return c[1]

    def rd(self, st, b, i):
        """Byte i whatever the size of the cells it lies in."""
        for o, (sz, v) in st.mem.get(b, {}).items():
            if isinstance(o, int) and o <= i < o + sz and sz <= 8:
                x = bv.bits_of(st, v, sz * 8)
                if x is None:
                    return None
                return x[(i - o) * 8:(i - o) * 8 + 8]
        return None

    def expect(self, st, b, i, bits, what):
        got = self.rd(st, b, i)
        self.bits += 8
        if got is None:
            return '%s: byte %d is not determined by the arguments' % (what, i)
        g = bv.make(got)
        w = bv.make(list(bits))
        if not bv.equal(st, g, w, 8):
            return '%s: byte %d is %s, expected %s' % (what, i, self.sh(st, got), self.sh(st, bits))
        return None

    def sh(self, st, bits):
        def one(b):
            if b == bv.ZERO:
                return '0'
            if b == bv.ONE:
                return '1'
            return '^'.join('1' if e == 1 else 'v%d' % e[1] for e in sorted(b, key=repr))
        return '[' + ' '.join(one(b) for b in reversed(list(bits))) + ']'


def zigzag(bits):
    w = len(bits)
    return [bits[w - 1]] + [bits[i] ^ bits[w - 1] for i in range(w - 1)]


def check_scalar(w, t):
    I = w.I
    width = WIDTH[t]
    sg = t[0] == 'i'
    lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if sg else (0, (1 << width) - 1)
    v = av(atom(('scn', 'v', t), 'int', lo, hi))
    ident = av(atom(('scn', 'id'), 'int', 0, (1 << 32) - 1))
    st = w.begin(ident)
    outs = w.step(st, 'pomp_encoder_write_' + t, [w.enc, v], ok=False)
    what = 'encoding of %s' % t
    if not outs:
        w.viol('enc ' + t, what + ': no outcome')
    seen = set()
    for s, r in outs:
        w.npaths += 1
        if s.f.res(r) != 0:
            w.viol('enc ' + t, what + ' can fail (%s) although memory is available' % show(s.f.res(r)))
            continue
        b, ln = w.data(s)
        if not isinstance(ln, int):
            w.viol('enc ' + t, what + ': length %s is not fixed on a path' % show(ln))
            continue
        vb = bv.bits_of(s, v, width)
        n = ln - HDR - 1
        e = w.expect(s, b, HDR, bv.const_bits(TYPES[t], 8), what + ' (type byte)')
        if t in FIXED:
            if n != width // 8:
                e = e or '%s: %d bytes' % (what, n)
            for k in range(width // 8):
                e = e or w.expect(s, b, HDR + 1 + k, vb[8 * k:8 * k + 8], what)
        else:
            zz = zigzag(vb) if sg else vb
            mx = (width + 6) // 7
            seen.add(n)
            if not 1 <= n <= mx:
                e = e or '%s: %d bytes' % (what, n)
            zz = zz + [bv.ZERO] * (7 * mx - width)
            for k in range(min(n, mx)):
                e = e or w.expect(s, b, HDR + 1 + k, zz[7 * k:7 * k + 7] + [bv.ONE if k < n - 1 else bv.ZERO], what)
            # what is left out is zero, and the last group is not (minimal length)
            for k in range(7 * n, width):
                if not e and not bv.equal(s, bv.make([zz[k]]), 0, 1):
                    e = '%s: bit %d is lost when %d bytes are written' % (what, k, n)
        if e:
            w.viol('enc ' + t, e)
            continue
        # reading it back
        for s2, r2 in w.step(s, 'pomp_decoder_init', [w.dec, w.msg]):
            s2.wcells(w.out.t[0][0]).clear()
            for s3, r3 in w.step(s2, 'pomp_decoder_read_' + t, [w.dec, w.out], ok=False):
                w.npaths += 1
                if s3.f.res(r3) != 0:
                    w.viol('dec ' + t, 'decoding of %s written as %d bytes can fail with %s' %
                           (t, n, show(s3.f.res(r3))))
                    continue
                c = s3.mem.get(w.out.t[0][0], {}).get(0)
                w.bits += width
                if c is None or c[0] != width // 8 or not bv.equal(s3, c[1], v, width):
                    w.viol('dec ' + t, 'the %s decoded (%s) is not the one encoded, %d bytes' %
                           (t, show(s3.f.res(c[1])) if c else 'nothing', n))
                pos = w.fld(s3, w.dec, 'pomp_decoder', 'pos')
                if pos != ln:
                    w.viol('dec ' + t, 'decoding of %s leaves the position at %s instead of %s' % (t, show(pos), ln))
    if t not in FIXED and seen != set(range(1, (width + 6) // 7 + 1)):
        w.viol('enc ' + t, '%s: lengths %s' % (what, sorted(seen)))


def zero_terminated(w, s, b, off):
    s.wcells(b)[off] = (1, 0)


def check_blob(w, t):
    """Strings and binary buffers: size prefix, then the bytes as they are."""
    mx = 0xffff if t == 'str' else (1 << 32) - 1
    L = av(atom(('scn', 'len', t), 'int', 1 if t == 'str' else 0, mx))
    src = av(atom(('scn', 'src', t), 'obj', info={'size': L}))
    width = 16 if t == 'str' else 32
    w.rule.strlen = {src.t[0][0]: sub(L, 1)} if t == 'str' else {}
    st = w.begin(7)
    args = [w.enc, src] + ([] if t == 'str' else [L])
    what = 'encoding of %s' % t
    lens = set()
    for s, r in w.step(st, 'pomp_encoder_write_' + t, args, ok=False):
        w.npaths += 1
        if s.f.res(r) != 0:
            w.viol('enc ' + t, what + ' can fail (%s) although memory is available' % show(s.f.res(r)))
            continue
        b, ln = w.data(s)
        n = None
        for k in range(1, 6):
            if st_eq(s, ln, add(s.f.res(L), HDR + 1 + k)):
                n = k
        if n is None:
            w.viol('enc ' + t, '%s: total length %s, size %s' % (what, show(ln), show(s.f.res(L))))
            continue
        lens.add(n)
        e = w.expect(s, b, HDR, bv.const_bits(TYPES[t], 8), what + ' (type byte)')
        vb = bv.bits_of(s, L, width) + [bv.ZERO] * 8
        for k in range(n):
            e = e or w.expect(s, b, HDR + 1 + k, (vb + [bv.ZERO] * 7)[7 * k:7 * k + 7] +
                              [bv.ONE if k < n - 1 else bv.ZERO], what + ' (size)')
        for k in range(7 * n, width):
            if not e and not bv.equal(s, bv.make([vb[k]]), 0, 1):
                e = '%s: bit %d of the size is lost when %d bytes are written' % (what, k, n)
        cp = [c for c in s.rs if c[0] == 'copy' and c[3] == src.t[0][0]]
        if not e and s.f.res(L) != 0 and not any(
                c[1] == b and c[2] == HDR + 1 + n and c[4] == 0 and st_eq(s, c[5], L) for c in cp):
            e = '%s: the bytes are not copied as they are after the size' % what
        if e:
            w.viol('enc ' + t, e)
            continue
        if t == 'str':
            zero_terminated(w, s, b, s.f.res(sub(ln, 1)))
        for rd in ('', 'c'):
            f = 'pomp_decoder_read_' + rd + t
            if f not in run.M.functions:
                raise run.Broken(f + ' not found')
            for s2, r2 in w.step(s, 'pomp_decoder_init', [w.dec, w.msg]):
                s2.rs = ()
                dargs = [w.dec, w.out] + ([] if t == 'str' else [w.out2])
                for s3, r3 in w.step(s2, f, dargs, ok=False):
                    w.npaths += 1
                    key = 'dec %s%s' % (rd, t)
                    if s3.f.res(r3) != 0:
                        w.viol(key, 'decoding of %s with %d size bytes can fail with %s' % (t, n, show(s3.f.res(r3))))
                        continue
                    c = s3.mem.get(w.out.t[0][0], {}).get(0)
                    pb, po = w.I.base_off(s3, c[1]) if c else (None, None)
                    if rd == 'c':
                        ok = pb == b and s3.f.res(po) == HDR + 1 + n
                    else:
                        ok = s3.f.res(L) == 0 or any(
                            x[0] == 'copy' and x[1] == pb and x[2] == 0 and x[3] == b and x[4] == HDR + 1 + n
                            and st_eq(s3, x[5], L) for x in s3.rs)
                        if t == 'str' and not ok:
                            ok = any(x == ('strdup', pb, b, HDR + 1 + n) for x in s3.rs)
                    if not ok:
                        w.viol(key, 'the %s decoded is not made of the bytes encoded (%s)' % (t, show(c[1]) if c else ''))
                    if t == 'buf':
                        c2 = s3.mem.get(w.out2.t[0][0], {}).get(0)
                        if c2 is None or not bv.equal(s3, c2[1], L, 32):
                            w.viol(key, 'the size decoded is not the size encoded')
                    if not st_eq(s3, w.fld(s3, w.dec, 'pomp_decoder', 'pos'), ln):
                        w.viol(key, 'decoding of %s leaves the position at %s' % (
                            t, show(w.fld(s3, w.dec, 'pomp_decoder', 'pos'))))
    if lens != set(range(1, (width + 6) // 7 + 1)):
        w.viol('enc ' + t, '%s: size prefixes of %s bytes' % (what, sorted(lens)))
    w.rule.strlen = {}


def st_eq(s, a, b):
    a, b = s.f.res(a), s.f.res(b)
    return a == b or (s.f.prove_le(a, b) and s.f.prove_le(b, a))


def check_fd(w):
    fd = av(atom(('scn', 'fd'), 'int', 0, (1 << 31) - 1))
    st = w.begin(7)
    w.rule.oksys = True
    n = 0
    for s, r in w.step(st, 'pomp_encoder_write_fd', [w.enc, fd], ok=False):
        w.npaths += 1
        if s.f.res(r) != 0:
            w.viol('enc fd', 'encoding of fd can fail (%s) although it can be duplicated' % show(s.f.res(r)))
            continue
        b, ln = w.data(s)
        e = w.expect(s, b, HDR, bv.const_bits(TYPES['fd'], 8), 'encoding of fd (type byte)')
        if ln != HDR + 5:
            e = e or 'encoding of fd: length %s' % show(ln)
        d = [x for x in s.rs if x[0] == 'dup']
        if not any(x[1] == fd for x in d):
            e = e or 'encoding of fd: the descriptor is not duplicated'
        if e:
            w.viol('enc fd', e)
            continue
        for s2, r2 in w.step(s, 'pomp_decoder_init', [w.dec, w.msg]):
            for s3, r3 in w.step(s2, 'pomp_decoder_read_fd', [w.dec, w.out], ok=False):
                w.npaths += 1
                n += 1
                c = s3.mem.get(w.out.t[0][0], {}).get(0)
                if s3.f.res(r3) != 0:
                    w.viol('dec fd', 'decoding of the fd written can fail with %s' % show(s3.f.res(r3)))
                elif c is None or not any(bv.equal(s3, c[1], x[2], 32) for x in d):
                    w.viol('dec fd', 'the descriptor decoded is not the one encoded')
                elif w.fld(s3, w.dec, 'pomp_decoder', 'pos') != ln:
                    w.viol('dec fd', 'decoding of fd leaves the position at %s' %
                           show(w.fld(s3, w.dec, 'pomp_decoder', 'pos')))
    if not n:
        w.viol('enc fd', 'encoding of fd never succeeds')
    w.rule.oksys = False


def check_header(w):
    """Header of finished messages and its acceptance by the constructor."""
    ident = av(atom(('scn', 'id'), 'int', 0, (1 << 32) - 1))
    N = atom(('scn', 'total'), 'int', HDR, (1 << 32) - 1)
    for total in (None, av(N)):
        st = w.begin(ident)
        buf = w.fld(st, w.msg, 'pomp_msg', 'buf')
        bb, bo = w.I.base_off(st, buf)
        if total is not None:
            cap = av(atom(('scn', 'cap'), 'int', 0, (1 << 33)))
            blk = av(atom(('scn', 'block'), 'obj', info={'size': cap}))
            cells = st.wcells(bb)
            for f, v in (('len', total), ('capacity', cap), ('data', blk)):
                off, size = run.M.field_offset('pomp_buffer', f)
                cells[bo + off] = (size, v)
            st.f.add_lin(sub(total, cap))
        tot = HDR if total is None else total
        outs = w.step(st, 'pomp_msg_finish', [w.msg], ok=False)
        if not outs:
            w.viol('header', 'a message cannot be finished')
        for s, r in outs:
            w.npaths += 1
            if s.f.res(r) != 0:
                w.viol('header', 'finishing a message can fail (%s) although memory is available' % show(s.f.res(r)))
                continue
            b, ln = w.data(s)
            e = None
            if not st_eq(s, ln, tot):
                e = 'finishing a message changes its length to %s' % show(ln)
            for k, m in enumerate(b'POMP'):
                e = e or w.expect(s, b, k, bv.const_bits(m, 8), 'header (magic)')
            ib = bv.bits_of(s, ident, 32)
            tb = bv.bits_of(s, tot, 32)
            for k in range(4):
                e = e or w.expect(s, b, 4 + k, ib[8 * k:8 * k + 8], 'header (identifier)')
                e = e or w.expect(s, b, 8 + k, tb[8 * k:8 * k + 8], 'header (size)')
            if e:
                w.viol('header', e)
                continue
            buf2 = w.fld(s, w.msg, 'pomp_msg', 'buf')
            n = 0
            for s2, r2 in w.step(s, 'pomp_msg_new_with_buffer', [buf2], ok=False):
                w.npaths += 1
                p = s2.f.res(r2)
                if not isinstance(p, Lin):
                    w.viol('accept', 'a buffer holding a finished message is refused')
                    continue
                n += 1
                if not bv.equal(s2, w.fld(s2, p, 'pomp_msg', 'msgid'), ident, 32):
                    w.viol('accept', 'the identifier of a message made from a buffer is not the one in its header')
    # refusal: any header bytes, any length
    ln = av(atom(('scn', 'anylen'), 'int', 0, 1 << 40))
    cap = av(atom(('scn', 'anycap'), 'int', 0, 1 << 41))
    st = w.begin(ident)
    buf = w.fld(st, w.msg, 'pomp_msg', 'buf')
    bb, bo = w.I.base_off(st, buf)
    blk = atom(('scn', 'anyblock'), 'obj', info={'size': cap})
    cells = st.wcells(bb)
    for f, v in (('len', ln), ('capacity', cap), ('data', av(blk))):
        off, size = run.M.field_offset('pomp_buffer', f)
        cells[bo + off] = (size, v)
    st.f.add_lin(sub(ln, cap))
    bs = [av(atom(('scn', 'hb', k), 'int', 0, 255)) for k in range(HDR)]
    c2 = st.wcells(blk)
    for k in range(HDR):
        c2[k] = (1, bs[k])
    n = 0
    for s, r in w.step(st, 'pomp_msg_new_with_buffer', [buf], ok=False):
        p = s.f.res(r)
        w.npaths += 1
        if not isinstance(p, Lin):
            continue
        n += 1
        if not s.f.prove_le(HDR, ln):
            w.viol('accept', 'a buffer shorter than a header is accepted')
        for k, m in enumerate(b'POMP'):
            if not bv.equal(s, bs[k], m, 8):
                w.viol('accept', 'a buffer without the magic is accepted (byte %d)' % k)
        szb = [x for k in range(8, 12) for x in bv.bits_of(s, bs[k], 8)]
        if not bv.equal(s, bv.make(szb), ln, 40):
            w.viol('accept', 'a buffer whose length differs from the size of its header is accepted')
    if not n:
        w.viol('accept', 'no buffer is accepted')


def check_malformed(w, t):
    """Any payload bytes, any payload length up to 14: what a typed read accepts."""
    width = WIDTH.get(t)
    st0 = w.begin(7)
    buf = w.fld(st0, w.msg, 'pomp_msg', 'buf')
    bb, bo = w.I.base_off(st0, buf)
    nacc = 0
    cases = [(plen, None) for plen in range(0, 15)]
    if not width and t != 'fd':
        # sizes spelled out, so that the bytes of the payload are told apart
        cases += [(plen, sz) for plen in range(2, 8) for L in range(0, 7) for sz in ((L,), (L | 128, 0)) if 1 + len(sz) <= plen]
    for plen, fixed in cases:
        st = st0.fork()
        blk = atom(('scn', 'mblock', plen), 'obj', info={'size': HDR + plen})
        cells = st.wcells(bb)
        for f, v in (('len', HDR + plen), ('capacity', HDR + plen), ('data', av(blk))):
            off, size = run.M.field_offset('pomp_buffer', f)
            cells[bo + off] = (size, v)
        bs = [av(atom(('scn', 'pb', k), 'int', 0, 255)) for k in range(plen)]
        if fixed:
            bs[1:1 + len(fixed)] = fixed
        c2 = st.wcells(blk)
        for k in range(plen):
            c2[HDR + k] = (1, bs[k])
        if width and plen > (1 + (width // 8 if t in FIXED else 11)):
            continue
        if not width and plen > 5 and not fixed:
            continue
        for s2, r2 in w.step(st, 'pomp_decoder_init', [w.dec, w.msg]):
            args = [w.dec, w.out] + ([w.out2] if t in ('buf', 'cbuf') else [])
            for s3, r3 in w.step(s2, 'pomp_decoder_read_' + t, args, ok=False):
                w.npaths += 1
                ret = s3.f.res(r3)
                pos = w.fld(s3, w.dec, 'pomp_decoder', 'pos')
                tc = TYPES[t.lstrip('c') if t != 'cstr' and t != 'cbuf' else t[1:]]
                mism = plen > 0 and not can_eq(s3, bs[0], tc)
                if mism and pos != HDR:
                    w.viol('mal ' + t, 'reading %s on a value of another type moves the position to %s' % (t, show(pos)))
                over = []
                if ret == 0:
                    nacc += 1
                    if plen == 0 or not bv.equal(s3, bs[0], tc, 8):
                        w.viol('mal ' + t, 'reading %s succeeds on a value of another type' % t)
                        continue
                    if width and t not in FIXED:
                        n = pos - HDR - 1 if isinstance(pos, int) else -1
                        if not 1 <= n <= 10:
                            w.viol('mal ' + t, 'reading %s accepts a value of %s bytes' % (t, n))
                            continue
                        raw = []
                        for k in range(n):
                            x = bv.bits_of(s3, bs[1 + k], 8)
                            raw += x[:7]
                            if not bv.equal(s3, bv.make([x[7]]), 1 if k < n - 1 else 0, 1):
                                w.viol('mal ' + t, 'reading %s stops at the wrong byte (%d)' % (t, k))
                        over = raw[width:]
                        raw = (raw + [bv.ZERO] * 64)[:width]
                        if t[0] == 'i':
                            raw = [raw[k + 1] ^ raw[0] if k + 1 < width else raw[0] for k in range(width)]
                    elif width:
                        raw = [x for k in range(width // 8) for x in bv.bits_of(s3, bs[1 + k], 8)] \
                            if plen >= 1 + width // 8 else None
                    if not width and t != 'fd':
                        check_blob_read(w, s3, t, plen, bs, pos, blk, fixed)
                    if width:
                        c = s3.mem.get(w.out.t[0][0], {}).get(0)
                        w.bits += width
                        if raw is None or c is None or not bv.equal(s3, c[1], bv.make(raw), width, over):
                            w.viol('mal ' + t, 'reading %s: the value is not the one its bytes encode' % t)
                elif not (s3.f.range(ret)[1] < 0):
                    w.viol('mal ' + t, 'reading %s returns %s' % (t, show(ret)))
    if width and not nacc:
        w.viol('mal ' + t, 'no payload is accepted as %s' % t)


def check_blob_read(w, s, t, plen, bs, pos, blk, fixed):
    """A successful read of a string or a buffer among plen arbitrary bytes."""
    key = 'mal ' + t
    n = 0
    size = []
    while True:
        if 1 + n >= plen:
            w.viol(key, 'reading %s succeeds without a complete size' % t)
            return
        x = bv.bits_of(s, bs[1 + n], 8)
        size += x[:7]
        n += 1
        if bv.equal(s, bv.make([x[7]]), 0, 1):
            break
    start = HDR + 1 + n
    if not isinstance(pos, int):
        # the payload is short: every end of it is a constant
        ends = [p for p in range(start, HDR + plen + 1) if can_eq(s, pos, p)]
        if s.f.range(sub(pos, HDR + plen))[1] > 0:
            w.viol(key, 'reading %s can leave the position beyond the end' % t)
        for e in ends:
            s2 = s.fork()
            s2.f.assume_eq0(sub(s2.f.res(pos), e))
            check_blob_end(w, s2, t, size, bs, start, e, blk, fixed)
    elif not start <= pos <= HDR + plen:
        w.viol(key, 'reading %s leaves the position at %d' % (t, pos))
    else:
        check_blob_end(w, s, t, size, bs, start, pos, blk, fixed)


def check_blob_end(w, s, t, size, bs, start, end, blk, fixed):
    key = 'mal ' + t
    wd = 16 if 'str' in t else 32
    L = end - start
    if not bv.feasible(s):
        return
    over = size[wd:]
    size = (size + [bv.ZERO] * wd)[:wd]
    w.bits += wd
    if not bv.equal(s, bv.make(size), L, wd, over):
        w.viol(key, 'reading %s consumes %d bytes, not its size' % (t, L))
        return
    c = s.mem.get(w.out.t[0][0], {}).get(0)
    if c is None or c[0] != 8:
        w.viol(key, 'reading %s stores nothing' % t)
        return
    pb, po = w.I.base_off(s, c[1])
    if t in ('str', 'buf'):
        cp = [x for x in s.rs if x[0] == 'strdup' and x[1] == pb] + \
            [('', pb, x[3], x[4]) for x in s.rs if x[0] == 'copy' and x[1] == pb and x[2] == 0 and
             s.f.res(x[5]) in (L, L - 1 if t == 'str' else L)]
        if L and not any(x[2] == blk and s.f.res(x[3]) == start for x in cp):
            w.viol(key, 'what is read is not a copy of the payload')
    elif pb != blk or s.f.res(po) != start:
        w.viol(key, 'the pointer read for %s is not the payload' % t)
    if 'str' in t and fixed and (L == 0 or not bv.equal(s, bs[end - HDR - 1], 0, 8)):
        w.viol(key, 'reading %s accepts a string that does not end with its NUL' % t)
    if 'buf' in t:
        c2 = s.mem.get(w.out2.t[0][0], {}).get(0)
        if c2 is None or c2[0] != 4 or not bv.equal(s, c2[1], L, 32):
            w.viol(key, 'reading %s: wrong size' % t)


def can_eq(s, v, c):
    s = s.fork()
    try:
        s.f.assume_eq0(sub(s.f.res(v), c))
        return True
    except Infeasible:
        return False


def check(pid):
    rep = run.Report(pid)
    _, info = run.load()
    w = W(rep)
    g = run.Guard(rep)
    if pid == 'C06':
        for t in WIDTH:
            g(t, check_scalar, w, t)
        for t in ('str', 'buf'):
            g(t, check_blob, w, t)
        g('fd', check_fd, w)
        g('header', check_header, w)
        expl = ('bit provenance: for every value of each of the 13 types the bytes written are the documented ones, '
                'bit by bit, on every path of the encoder, and the decoder returns the value from them')
    else:
        for t in list(WIDTH) + ['str', 'cstr', 'buf', 'cbuf', 'fd']:
            g(t, check_malformed, w, t)
        expl = ('arbitrary payload bytes and lengths: a typed read accepts only its own type byte, consumes the bytes '
                'of one value and returns the value these bytes encode')
    g.done()
    if w.npaths < 60:
        raise run.Broken('only %d paths' % w.npaths)
    rep.cov = {'explanation': expl, 'paths': w.npaths, 'bits_traced': w.bits, 'calls_interpreted': w.n,
               'functions_analysed': len(w.I.visited_fns), 'units': info['units'],
               'samples': ['i32: 1..5 bytes, zigzag(v) in groups of 7 bits, least significant first']}
    rep.assume = ['little-endian host (as compiled)', 'allocation and dup succeed']
    return rep
