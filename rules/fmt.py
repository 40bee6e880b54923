"""C08: format strings.  Every conversion specifier, alone and in sequences,
writes the documented encoding of the argument of the documented C type, and
reads it back into an object of that type; anything else is refused."""
import run
import dom
import bv
import wire
from dom import *

# 64 bit Linux: specifier -> (type, size of the C object the decoder fills)
ENC = {'%hhd': 'i8', '%hhi': 'i8', '%hhu': 'u8', '%hd': 'i16', '%hi': 'i16', '%hu': 'u16', '%d': 'i32', '%i': 'i32',
       '%u': 'u32', '%ld': 'i64', '%li': 'i64', '%lu': 'u64', '%lld': 'i64', '%lli': 'i64', '%llu': 'u64',
       '%lf': 'f64', '%lF': 'f64', '%le': 'f64', '%lE': 'f64', '%lg': 'f64', '%lG': 'f64',
       '%f': 'f32', '%F': 'f32', '%e': 'f32', '%E': 'f32', '%g': 'f32', '%G': 'f32',
       '%s': 'str', '%p%u': 'buf', '%x': 'fd'}
DEC = dict(ENC)
del DEC['%s']
DEC['%ms'] = 'str'
REGW = {'i8': 32, 'u8': 32, 'i16': 32, 'u16': 32}


class F:
    def __init__(self, rep):
        self.w = wire.W(rep)
        self.rep = rep
        self.nf = 0
        self.wv = 'pomp_encoder_writev'
        self.rv = 'pomp_decoder_readv'
        for f in (self.wv, self.rv, 'pomp_encoder_write_argv'):
            if f not in run.M.functions:
                raise run.Broken(f + ' not found')

    def viol(self, k, t):
        self.rep.violation(k, t)

    def fmt(self, st, s):
        a = atom(('scn', 'fmt', s), 'obj', info={'size': len(s) + 1})
        c = st.wcells(a)
        for i, ch in enumerate(s):
            c[i] = (1, ord(ch))
        c[len(s)] = (1, 0)
        return av(a)

    def va(self, st, args):
        """args: list of ('g'|'f', value): a va_list of the x86-64 ABI."""
        self.nf += 1
        tag = atom(('scn', 'va', self.nf), 'obj', info={'size': 24})
        save = atom(('scn', 'vasave', self.nf), 'obj', info={'size': 176})
        over = atom(('scn', 'vaover', self.nf), 'obj', info={'size': 4096})
        c = st.wcells(tag)
        c[0] = (4, 0)
        c[4] = (4, 48)
        c[8] = (8, av(over))
        c[16] = (8, av(save))
        gp, fp, ov = 0, 48, 0
        sc, oc = st.wcells(save), st.wcells(over)
        for k, sz, v in args:
            if k == 'g' and gp < 48:
                sc[gp] = (sz, v)
                gp += 8
            elif k == 'f' and fp < 176:
                sc[fp] = (sz, v)
                fp += 16
            else:
                oc[ov] = (sz, v)
                ov += 8
        return av(tag)

    # -- one argument: value passed, expected bits, what to compare
    def arg(self, t, n, small=False):
        """(va_list entries, bits expected on the wire or None)."""
        if t in ('f32', 'f64'):
            v = av(atom(('scn', 'fv', t, n), 'int', 0, (1 << 64) - 1))
            return [('f', 8, v)], v
        if t == 'str':
            L = av(atom(('scn', 'sl', n), 'int', 1, 127 if small else 0xffff))
            src = av(atom(('scn', 'ss', n), 'obj', info={'size': L}))
            self.w.rule.strlen[src.t[0][0]] = sub(L, 1)
            return [('g', 8, src)], (src, L)
        if t == 'buf':
            L = av(atom(('scn', 'bl', n), 'int', 0, 127 if small else (1 << 32) - 1))
            src = av(atom(('scn', 'bs', n), 'obj', info={'size': L}))
            return [('g', 8, src), ('g', 4, L)], (src, L)
        if t == 'fd':
            v = av(atom(('scn', 'fd', n), 'int', 0, (1 << 31) - 1))
            return [('g', 4, v)], v
        wd = wire.WIDTH[t]
        if small:
            v = av(atom(('scn', 'sv', t, n), 'int', 0, 63))
            return [('g', max(wd, 32) // 8, v)], v
        if wd < 32:
            v = av(atom(('scn', 'iv', t, n), 'int', -(1 << 31), (1 << 31) - 1))
            return [('g', 4, v)], v
        sg = t[0] == 'i'
        v = av(atom(('scn', 'iv', t, n), 'int', -(1 << (wd - 1)) if sg else 0,
                    (1 << (wd - 1)) - 1 if sg else (1 << wd) - 1))
        return [('g', wd // 8, v)], v

    def expect(self, s, b, pos, t, val, what):
        """Check the bytes of one value at pos; (error, next position)."""
        w = self.w
        e = w.expect(s, b, pos, bv.const_bits(wire.TYPES[t], 8), what + ' (type byte)')
        if e:
            return e, pos
        p = pos + 1
        if t in ('str', 'buf'):
            src, L = val
            wd = 16 if t == 'str' else 32
            vb = bv.bits_of(s, L, wd) + [bv.ZERO] * 14
            n = 0
            while True:
                g = w.rd(s, b, p + n)
                if g is None or n > 5:
                    return what + ': size not determined', pos
                n += 1
                if not bv.equal(s, bv.make([g[7]]), 1, 1):
                    break
            for k in range(n):
                e = e or w.expect(s, b, p + k, vb[7 * k:7 * k + 7] + [bv.ONE if k < n - 1 else bv.ZERO], what)
            for k in range(7 * n, wd):
                if not e and not bv.equal(s, bv.make([vb[k]]), 0, 1):
                    e = what + ': size truncated'
            p += n
            ok = s.f.res(L) == 0 or any(
                c[0] == 'copy' and c[1] == b and c[2] == p and c[3] == src.t[0][0] and c[4] == 0 and
                wire.st_eq(s, c[5], L) for c in s.rs)
            return e or (None if ok else what + ': bytes not copied'), add(p, s.f.res(L))
        if t == 'fd':
            if not any(c[0] == 'dup' and c[1] == val for c in s.rs):
                e = what + ': the descriptor is not duplicated'
            return e, p + 4
        wd = wire.WIDTH[t]
        if t == 'f32':
            g = [w.rd(s, b, p + k) for k in range(4)]
            if None in g:
                return what + ': bytes not determined', pos
            if val.t and A_KEY[val.t[0][0]][1] == 'fs':
                # given as a string
                if [z for y in g for z in y] == bv.atom_bits(val.t[0][0], 32):
                    return None, p + 4
                return what + ': not the float the string stands for', p + 4
            src = set(x for y in g for z in y for x in z)
            at = set(x[0] for x in src if x != 1)
            if len(at) != 1 or [z for y in g for z in y] != bv.atom_bits(min(at), 32) or \
                    A_KEY[min(at)][:2] != ('op', 'fptrunc'):
                e = what + ': not the float nearest to the argument'
            elif A_KEY[min(at)][2] != val and val not in A_KEY[min(at)]:
                e = what + ': not the argument'
            return e, p + 4
        vb = bv.bits_of(s, val, wd)
        if t in wire.FIXED:
            for k in range(wd // 8):
                e = e or w.expect(s, b, p + k, vb[8 * k:8 * k + 8], what)
            return e, p + wd // 8
        zz = (wire.zigzag(vb) if t[0] == 'i' else vb) + [bv.ZERO] * 7
        n = 0
        while True:
            g = w.rd(s, b, p + n)
            if g is None or n > 10:
                return what + ': value not determined', pos
            n += 1
            if not bv.equal(s, bv.make([g[7]]), 1, 1):
                break
        for k in range(n):
            e = e or w.expect(s, b, p + k, (zz + [bv.ZERO] * 7)[7 * k:7 * k + 7] +
                              [bv.ONE if k < n - 1 else bv.ZERO], what)
        for k in range(7 * n, wd):
            if not e and not bv.equal(s, bv.make([zz[k]]), 0, 1):
                e = what + ': value truncated'
        return e, p + n

    def sarg(self, t, n):
        """The same given as a string: (pointers, expected)."""
        L = av(atom(('scn', 'al', n), 'int', 1, 127))
        src = av(atom(('scn', 'as', n), 'obj', info={'size': L}))
        b = src.t[0][0]
        self.w.rule.strlen[b] = sub(L, 1)
        if t == 'str':
            return [src], (src, L)
        wd = {'f32': 32, 'f64': 64, 'u64': 64}.get(t, 64)
        if t == 'f32':
            v = av(atom(('scn', 'fs', n), 'int', 0, (1 << 32) - 1))
        elif t in ('f64', 'u64'):
            v = av(atom(('scn', 'sn', t, n), 'int', 0, (1 << 64) - 1))
        elif t == 'fd':
            v = av(atom(('scn', 'sn', t, n), 'int', 0, (1 << 31) - 1))
        elif t == 'i64':
            v = av(atom(('scn', 'sn', t, n), 'int', -(1 << 63), (1 << 63) - 1))
        else:
            wt = wire.WIDTH[t]
            v = av(atom(('scn', 'sn', t, n), 'int', -(1 << (wt - 1)) if t[0] == 'i' else 0,
                        (1 << (wt - 1)) - 1 if t[0] == 'i' else (1 << wt) - 1))
        self.w.rule.nums[b] = v
        return [src], v

    CONV = {'i64': ('strtol',), 'u64': ('strtoul',), 'f32': ('strtof', 'strtod'), 'f64': ('strtod',)}

    def argv(self, st, ptrs):
        self.nf += 1
        a = atom(('scn', 'argv', self.nf), 'obj', info={'size': 8 * len(ptrs)})
        c = st.wcells(a)
        for k, p in enumerate(ptrs):
            c[8 * k] = (8, p)
        return av(a)

    def missing(self, sp):
        """An argument that is not there must be refused."""
        w = self.w
        for how in ('short', 'null'):
            st = w.begin(7)
            st.rs = ()
            ptrs = self.sarg('u8', 0)[0] + [0]
            outs = w.step(st, 'pomp_encoder_write_argv', [w.enc, self.fmt(st, '%hhu' + sp), 1 if how == 'short' else 2,
                                                          self.argv(st, ptrs[:1] if how == 'short' else ptrs)], ok=False)
            for s, r in outs:
                w.npaths += 1
                if not s.f.range(s.f.res(r))[1] < 0:
                    self.viol('argv missing ' + sp, 'encoding "%%hhu%s" without its second argument succeeds' % sp)

    def encode(self, specs, small=False, how='v'):
        """Outcomes of encoding the sequence: [(state, end)], checked.
        how: 'v' va_list, 'a' array of strings, '.' variadic; in upper case
        through the functions that make a whole message."""
        w = self.w
        st = w.begin(7)
        st.rs = ()
        entries, vals = [], []
        w.rule.nums = {}
        for n, sp in enumerate(specs):
            en, v = self.sarg(ENC[sp], n) if how in 'aA' else self.arg(ENC[sp], n, small)
            entries += en
            vals.append(v)
        f = ''.join(specs)
        fm = self.fmt(st, f)
        if how in 'vV':
            extra = [self.va(st, entries)]
        elif how in 'aA':
            extra = [len(entries), self.argv(st, entries)]
        else:
            extra = [v for _, _, v in entries]
        w.rule.oksys = True
        if how in 'va.':
            fn = {'v': self.wv, 'a': 'pomp_encoder_write_argv', '.': 'pomp_encoder_write'}[how]
            first = [w.enc, fm]
        else:
            fn = {'V': 'pomp_msg_writev', 'A': 'pomp_msg_write_argv', ':': 'pomp_msg_write'}[how]
            o = [(s, r) for s, r in w.I.step(st, 'pomp_msg_new', [], ('new', 2)) if isinstance(s.f.res(r), Lin)]
            st, w.msg = o[0]
            first = [w.msg, 0x1234567, fm]
        outs = w.step(st, fn, first + extra, ok=False)
        w.rule.oksys = False
        good = []
        if how != 'v':
            f += ' by ' + fn
        if not outs:
            self.viol('enc ' + f, 'encoding "%s": no outcome' % f)
        for s, r in outs:
            w.npaths += 1
            if s.f.res(r) != 0:
                self.viol('enc ' + f, 'encoding "%s" can fail with %s' % (f, show(s.f.res(r))))
                continue
            b, ln = w.data(s)
            pos = wire.HDR
            e = None
            for sp, v in zip(specs, vals):
                e, pos = self.expect(s, b, pos, ENC[sp], v, 'encoding "%s", %s' % (f, sp))
                if e:
                    break
                if not isinstance(pos, int):
                    break
            if e is None and isinstance(pos, int) and not wire.st_eq(s, ln, pos):
                e = 'encoding "%s": length %s instead of %s' % (f, show(ln), pos)
            if how in 'aA':
                for sp, p, v in zip(specs, entries, vals):
                    t = ENC[sp]
                    if t == 'str':
                        continue
                    cv = [c for c in s.rs if c[0] == 'conv' and c[2] == p.t[0][0]]
                    if len(cv) != 1:
                        e = e or 'encoding "%s": argument of %s converted %d times' % (f, sp, len(cv))
                    elif cv[0][1] not in self.CONV.get(t, ('strtol', 'strtoul')):
                        e = e or 'encoding "%s": %s converted with %s' % (f, sp, cv[0][1])
                    elif cv[0][3] != 0:
                        e = e or 'encoding "%s": %s converted in base %s' % (f, sp, show(cv[0][3]))
            if how in 'VA:' and not e:
                ln2 = s.f.res(ln)
                for k, ch in enumerate(b'POMP'):
                    e = e or w.expect(s, b, k, bv.const_bits(ch, 8), 'header of "%s"' % f)
                for k in range(4):
                    e = e or w.expect(s, b, 4 + k, bv.const_bits(0x1234567 >> 8 * k & 255, 8), 'message id of "%s"' % f)
                if isinstance(ln2, int):
                    for k in range(4):
                        e = e or w.expect(s, b, 8 + k, bv.const_bits(ln2 >> 8 * k & 255, 8), 'size of "%s"' % f)
            if e:
                self.viol('enc ' + f, e)
                continue
            good.append((s, b, ln, vals))
        return good

    def decode(self, specs, good, how='v'):
        w = self.w
        fn = {'v': self.rv, '.': 'pomp_decoder_read', 'V': 'pomp_msg_readv', ':': 'pomp_msg_read'}[how]
        f = ''.join(specs)
        for s, b, ln, vals in good:
            s = s.fork()
            entries, outp = [], []
            for n, sp in enumerate(specs):
                t = DEC[sp]
                o = atom(('scn', 'dst', n), 'obj', info={'size': 8})
                entries.append(('g', 8, av(o)))
                o2 = None
                if t == 'buf':
                    o2 = atom(('scn', 'dst2', n), 'obj', info={'size': 4})
                    entries.append(('g', 8, av(o2)))
                outp.append((o, o2))
                if t == 'str':
                    s.wcells(b)[s.f.res(sub(ln, 1))] = (1, 0)
            va = self.va(s, entries)
            fm = self.fmt(s, f)
            for s2, _ in w.step(s, 'pomp_decoder_init', [w.dec, w.msg]):
                dups = [x for x in s2.rs if x[0] == 'dup']
                s2.rs = ()
                extra = [va] if how in 'vV' else [v for _, _, v in entries]
                for s3, r3 in w.step(s2, fn, [w.dec if how in 'v.' else w.msg, fm] + extra, ok=False):
                    w.npaths += 1
                    key = 'dec ' + f
                    if s3.f.res(r3) != 0:
                        self.viol(key, 'decoding "%s" can fail with %s' % (f, show(s3.f.res(r3))))
                        continue
                    for sp, (o, o2), v in zip(specs, outp, vals):
                        t = DEC[sp]
                        cells = s3.mem.get(o, {})
                        c = cells.get(0)
                        what = 'decoding "%s", %s' % (f, sp)
                        if c is None:
                            self.viol(key, what + ': nothing stored')
                        elif t in ('str', 'buf'):
                            if c[0] != 8:
                                self.viol(key, what + ': %d bytes stored' % c[0])
                            if t == 'buf':
                                c2 = s3.mem.get(o2, {}).get(0)
                                if c2 is None or c2[0] != 4 or not bv.equal(s3, c2[1], v[1], 32):
                                    self.viol(key, what + ': wrong size')
                            pb, po = w.I.base_off(s3, c[1])
                            if pb is None or (t == 'buf' and pb != b) or (t == 'str' and A_KEY[pb][0] != 'heap'):
                                self.viol(key, what + ': wrong pointer')
                        elif t == 'fd':
                            if c[0] != 4 or not any(bv.equal(s3, c[1], x[2], 32) for x in dups):
                                self.viol(key, what + ': wrong descriptor')
                        else:
                            wd = wire.WIDTH[t]
                            self.w.bits += wd
                            if c[0] != wd // 8 or len(cells) != 1:
                                self.viol(key, what + ': %s bytes stored instead of %d' % (
                                    sum(x[0] for x in cells.values()), wd // 8))
                            elif t == 'f32':
                                if len(specs) == 1 and not bv.equal(s3, c[1], bv.make(
                                        sum([list(w.rd(s, b, wire.HDR + 1 + k)) for k in range(4)], [])), 32):
                                    self.viol(key, what + ': not the value encoded')
                            elif not bv.equal(s3, c[1], v, wd):
                                self.viol(key, what + ': not the value encoded')

    def refuse(self, side, f, nargs=3):
        """The format must be refused."""
        w = self.w
        st = w.begin(7)
        st.rs = ()
        if side == 'enc':
            objs = [('g', 8, av(atom(('scn', 'junk', i), 'obj', info={'size': 64}))) for i in range(nargs)]
            va = self.va(st, objs + [('f', 8, av(atom(('scn', 'junkf'), 'int', 0, (1 << 64) - 1)))])
            outs = w.step(st, self.wv, [w.enc, self.fmt(st, f), va], ok=False)
        else:
            # a message full of values of every kind of first byte
            blk = atom(('scn', 'anymsg'), 'obj', info={'size': 44})
            buf = w.fld(st, w.msg, 'pomp_msg', 'buf')
            bb, bo = w.I.base_off(st, buf)
            cells = st.wcells(bb)
            for fl, v in (('len', 44), ('capacity', 44), ('data', av(blk))):
                off, size = run.M.field_offset('pomp_buffer', fl)
                cells[bo + off] = (size, v)
            objs = [('g', 8, av(atom(('scn', 'junk', i), 'obj', info={'size': 64}))) for i in range(nargs)]
            va = self.va(st, objs)
            outs = []
            for s2, _ in w.step(st, 'pomp_decoder_init', [w.dec, w.msg]):
                outs += w.step(s2, self.rv, [w.dec, self.fmt(s2, f), va], ok=False)
        for s, r in outs:
            w.npaths += 1
            if not s.f.range(s.f.res(r))[1] < 0:
                self.viol(side + ' refuse ' + f, '%s accepts the format "%s" (returns %s)' % (
                    'encoder' if side == 'enc' else 'decoder', f, show(s.f.res(r))))
                break


SEQ = ['%hhd', '%hhu', '%hd', '%hu', '%d', '%u', '%ld', '%lu', '%lld', '%llu', '%lf', '%x', '%i']


def check(pid):
    rep = run.Report(pid)
    _, info = run.load()
    f = F(rep)
    nspec = 0
    g = run.Guard(rep)
    for sp in ENC:
        good = g('encode', f.encode, [sp]) or []
        nspec += 1
        d = '%ms' if sp == '%s' else sp
        g('decode', f.decode, [d], good)
    # sequences: no state leaks from one specifier to the next
    for seq in (SEQ, SEQ[::-1], ['%lld', '%d', '%hhu', '%u', '%hd', '%i'], ['%lf', '%f', '%lu', '%u'],
                ['%u', '%lf', '%hu', '%x', '%x', '%s'], ['%lld', '%p%u'], ['%hhd', '%p%u'], ['%llu', '%s']):
        good = g('encode', f.encode, seq, small=True) or []
        nspec += 1
        if '%f' not in seq:
            g('decode', f.decode, ['%ms' if x == '%s' else x for x in seq], good)
    # the other ways in: variadic, array of strings, whole messages
    for how, dhow in (('.', '.'), ('V', 'V'), (':', ':')):
        for seq in (SEQ + ['%s'], ['%hhd', '%lf', '%d', '%p%u'] if how == '.' else ['%hhd', '%d', '%lf']):
            good = g('encode', f.encode, seq, small=True, how=how) or []
            nspec += 1
            g('decode', f.decode, ['%ms' if x == '%s' else x for x in seq], good, dhow)
    for sp in ENC:
        if sp != '%p%u':
            g('encode', f.encode, [sp], how='a')
            g('missing', f.missing, sp)
            nspec += 2
    g('missing', f.missing, '%p%u')
    for seq in (['%hhd', '%hu', '%lf', '%hd', '%s'], ['%hu', '%d', '%s']):
        g('encode', f.encode, seq, how='a')
        g('encode', f.encode, seq, how='A')
        nspec += 2
    nref = 0
    for side, tab in (('enc', ENC), ('dec', DEC)):
        last = set(k[-1] for k in tab) | set('lhmp')
        for c in range(1, 256):
            if chr(c) not in last and not (side == 'dec' and chr(c) == 's'):
                g('refuse', f.refuse, side, '%' + chr(c))
                nref += 1
        for x in ('d', '%', 'x%d', ' %d', '%p', '%p%d', '%pu', '%', '%hx', '%lx', '%llx', '%hhx',
                  '%hf', '%hhf', '%llf', '%hg', '%lle') + (('%s', '%hs') if side == 'dec' else ()):
            g('refuse', f.refuse, side, x)
            nref += 1
    g.done()
    w = f.w
    rep.cov = {'explanation': 'bit provenance over a modelled va_list: every documented conversion specifier, alone and '
                              'in sequences, against the documented encoding; every other specifier must be refused',
               'formats_accepted': nspec, 'formats_refused': nref, 'paths': w.npaths, 'bits_traced': w.bits,
               'calls_interpreted': w.n, 'functions_analysed': len(w.I.visited_fns), 'units': info['units'],
               'samples': ['%s -> %s' % kv for kv in list(ENC.items())[:12]]}
    rep.assume = ['x86-64 System V va_list layout', 'allocation and dup succeed']
    return rep
