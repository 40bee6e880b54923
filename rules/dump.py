"""C09: dumps of messages.  Scenarios: a message with an arbitrary first string
(so that the text is of any length) and one value of each type, dumped into an
allocated text and into a text of any size."""
import re
import run
import dom
import bv
import wire
import mem
from dom import *

SPEC = re.compile(rb'%(?P<fl>[-+ #0]*)(?P<w>\d*)(?:\.(?P<p>\d+))?(?P<m>hh|h|ll|l|z|j|t)?(?P<c>[diuxXcsgGeEfF%])')
SIZE = {b'': 32, b'hh': 8, b'h': 16, b'l': 64, b'll': 64, b'z': 64, b'j': 64, b't': 64}


def parse(rule, I, st, name, args, ins):
    """Tokens and shortest and longest length of a formatted text."""
    f = I.cstring(st, args[2])
    if f is None:
        raise run.interp.AnalysisError('format of %s is not constant' % name)
    if name == 'snprintf':
        va = list(args[3:])
    else:
        b, off = I.base_off(st, args[3])
        c = st.mem.get(b, {}).get(off + 8) if b is not None else None
        ob, oo = I.base_off(st, c[1]) if c else (None, None)
        if ob is None:
            raise run.interp.AnalysisError('arguments of %s are not known' % name)
        cells = st.mem.get(ob, {})
        va = [cells[o][1] for o in sorted(cells)]
    toks, low, high, pos = [], 0, 0, 0
    for m in SPEC.finditer(f):
        lit = f[pos:m.start()]
        if b'%' in lit:
            raise run.interp.AnalysisError('format %r' % f)
        pos = m.end()
        if lit:
            toks.append(('lit', lit))
            low, high = add(low, len(lit)), add(high, len(lit))
        c = m.group('c')
        if c == b'%':
            toks.append(('lit', b'%'))
            low, high = add(low, 1), add(high, 1)
            continue
        if not va:
            raise run.interp.AnalysisError('missing argument')
        v = st.f.res(va.pop(0))
        wd = SIZE[m.group('m') or b'']
        minw = int(m.group('w') or 0)
        if c in b'diu':
            toks.append(('dec', c != b'u', wd, v))
            lo, hi = 1, len(str((1 << wd) - 1)) if c == b'u' else len(str(-(1 << (wd - 1))))
            if m.group('fl'):
                hi += 1
        elif c == b's':
            L = rule.slen(I, st, v, ins)
            if L is None:
                raise run.interp.AnalysisError('length of a string argument')
            toks.append(('str', v))
            lo, hi = L, L
        elif c in b'xX':
            toks.append(('hex', wd, v))
            lo, hi = 1, wd // 4
        elif c == b'c':
            toks.append(('chr', v))
            lo, hi = 1, 1
        else:
            p = int(m.group('p') or 6)
            toks.append(('flt', v))
            lo = 1
            hi = p + 7 if c in b'gGeE' else 311 + p
            if c in b'gG' and m.group('p') == b'0':
                hi += 1
        if minw:
            lo, hi = minw, max(minw, hi) if isinstance(hi, int) else add(hi, minw)
        low, high = add(low, lo), add(high, hi)
    lit = f[pos:]
    if b'%' in lit:
        raise run.interp.AnalysisError('format %r' % f)
    if lit:
        toks.append(('lit', lit))
        low, high = add(low, len(lit)), add(high, len(lit))
    return toks, low, high


class DRule(wire.WRule):
    """Models the formatting functions; st.rs collects ('txt', tokens, fits)."""
    places = {}           # strings inside the message: (block, offset) -> length

    def call(self, I, st, name, args, ins):
        if name in ('vsnprintf', 'snprintf'):
            return self.fmt(I, st, name, args, ins)
        if name == 'strlen':
            b, off = I.base_off(st, args[0])
            for (pb, po), L in self.places.items():
                if pb == b and wire.st_eq(st, po, off):
                    return [(st, L)]
        return wire.WRule.call(self, I, st, name, args, ins)

    def slen(self, I, st, v, ins):
        r = self.call(I, st, 'strlen', [v], ins)
        return r[0][1] if r else None

    def fmt(self, I, st, name, args, ins):
        dst, n = args[0], st.f.res(args[1])
        toks, low, high = parse(self, I, st, name, args, ins)
        d = sub(high, low)
        res = low
        if d != 0:
            self.cnt = getattr(self, 'cnt', 0) + 1
            res = add(low, av(atom(('scn', 'fmtlen', ins.fn.name, len(st.rs), self.cnt), 'int', 0, d)))
        b, off = I.base_off(st, dst)
        out = []
        c = ('cmp', 'slt', res, n, 64)
        s2 = st.fork()
        out += [(s, True) for s in I.split(st, c)]
        out += [(s, False) for s in I.split(s2, I.negate(c))]
        r = []
        for s, fits in out:
            empty = not fits and s.f.range(n)[1] <= 0
            s.rs = s.rs + (('txt', tuple(toks), fits, ins.fn.name, I.m.where(ins)),)
            if b is not None and not empty:
                o = s.f.res(off)
                I.clobber(s, b, o, ins, 'fmt')
                # the terminator
                s.rs = tuple(x for x in s.rs if x[0] != 'nul') + (
                    ('nul', b, add(o, s.f.res(res)) if fits else add(o, sub(n, 1))),)
            r.append((s, res))
        return r

    def on_store(self, I, st, base, off, size, val, ins):
        for x in st.rs:
            if x[0] == 'nul' and x[1] == base:
                o, t = st.f.res(off), st.f.res(x[2])
                zero = isinstance(val, int) and val == 0 and size == 1
                if zero:
                    st.rs = tuple(y for y in st.rs if y is not x) + (('nul', base, o),)
                elif not (st.f.prove_le(add(t, 1), o) or st.f.prove_le(add(o, size), t)):
                    st.rs = tuple(y for y in st.rs if y is not x)
                return
        if isinstance(val, int) and val == 0 and size == 1:
            st.rs = st.rs + (('nul', base, st.f.res(off)),)


NAME = {'i8': b'I8', 'u8': b'U8', 'i16': b'I16', 'u16': b'U16', 'i32': b'I32', 'u32': b'U32', 'i64': b'I64',
        'u64': b'U64', 'str': b'STR', 'buf': b'BUF', 'f32': b'F32', 'f64': b'F64', 'fd': b'FD'}


class Room(mem.MemRule):
    """Every formatted part of an allocated dump has room: obligation at the
    formatting calls, for any message."""
    vamodel = True
    bounds = (1 << 30,)

    def call(self, I, st, name, args, ins):
        if name in ('malloc', 'calloc', 'realloc'):
            out = I.libc(st, name, args, ins)
            for s, v in out:
                if s.f.res(v) == 0:
                    s.rs = 'oom'
            return out
        if name == 'strlen':
            return [(st, self.slen(I, st, args[0], ins))]
        if name not in ('vsnprintf', 'snprintf'):
            return mem.MemRule.call(self, I, st, name, args, ins)
        toks, low, high = parse(self, I, st, name, args, ins)
        n = st.f.res(args[1])
        ok = st.f.prove_le(add(high, 1), n)
        k = (I.m.where(ins), ins.fn.name, 'room', ''.join(t[1].decode() if t[0] == 'lit' else '<%s>' % t[0] for t in toks))
        self.record(k, ok, lambda: '%s: the text can need %s characters and there is room for %s' % (
            ' -> '.join(I.stack), show(st.f.res(high)), show(n)))
        b, off = I.base_off(st, args[0])
        a = av(I.pf(st, ins, 'fmtlen', 'int', 0, 1 << 31))
        st.f.add_lin(sub(low, a))
        st.f.add_lin(sub(a, high))
        st.f.add_lin(add(sub(a, n), 1))
        # dumps of more than 1 GiB are left out
        st.f.add_lin(sub(add(off, a), 1 << 30))
        if b is not None:
            I.clobber(st, b, st.f.res(off), ins, 'fmt')
        return [(st, a)]

    def init_rs(self):
        return ''

    def at_exit(self, I, args, outs):
        for st, ret in outs:
            if st.rs == 'oom':
                r = st.f.range(st.f.res(ret))
                self.record((self.entry_name, self.entry_name, 'oom', 'result'), r[1] < 0,
                            lambda: 'an allocation fails and %s returns %s' % (self.entry_name, show(st.f.res(ret))))

    def slen(self, I, st, v, ins):
        b, off = I.base_off(st, v)
        return av(atom(('strlen', b, st.f.res(off)), 'int', 0, 0xffff))


class D:
    def __init__(self, rep):
        self.w = wire.W(rep)
        w = self.w
        self.rep = rep
        w.rule = DRule()
        w.rule.entry_name, w.rule.cfg = 'scenario', 'fd'
        w.I = run.interp.Interp(run.M, w.rule)
        w.I.gvals = run.gvals('fd', w.I)
        for f in ('pomp_msg_dump', 'pomp_msg_adump'):
            if f not in run.M.functions:
                raise run.Broken(f + ' not found')

    def message(self, types, ident, small):
        """States of a finished message holding one value of each type."""
        w = self.w
        st = w.begin(ident)
        # room enough already: where the bytes lie does not matter here
        buf = w.fld(st, w.msg, 'pomp_msg', 'buf')
        bb, bo = w.I.base_off(st, buf)
        old = st.mem.get(w.data(st)[0], {})
        blk = atom(('scn', 'dblock'), 'obj', info={'size': 1 << 20})
        st.wcells(blk).update(old)
        cells = st.wcells(bb)
        for f, v in (('capacity', 1 << 20), ('data', av(blk))):
            off, size = run.M.field_offset('pomp_buffer', f)
            cells[bo + off] = (size, v)
        vals = []
        w.rule.strlen = {}
        states = [st]
        for n, t in enumerate(types):
            extra = []
            if t in ('str', 'buf'):
                L = av(atom(('scn', 'dl', n), 'int', 1 if t == 'str' else 0, (127 if small else 0xffff)))
                src = av(atom(('scn', 'ds', n), 'obj', info={'size': L}))
                w.rule.strlen[src.t[0][0]] = sub(L, 1)
                a, v = [src] + ([L] if t == 'buf' else []), (src, L)
            elif t == 'fd':
                v = av(atom(('scn', 'dfd', n), 'int', 0, (1 << 31) - 1))
                a = [v]
            else:
                wd = wire.WIDTH[t]
                sg = t[0] == 'i'
                lo, hi = (-(1 << (wd - 1)), (1 << (wd - 1)) - 1) if sg else (0, (1 << wd) - 1)
                v = av(atom(('scn', 'dv', t, n), 'int', lo, hi))
                a = [v]
            vals.append(v)
            w.rule.oksys = True
            nxt = []
            for s in states:
                nxt += [x for x, r in w.step(s, 'pomp_encoder_write_' + t, [w.enc] + a)]
            states = nxt
            w.rule.oksys = False
        out = []
        for s in states:
            out += [x for x, r in w.step(s, 'pomp_msg_finish', [w.msg])]
        return out, vals

    def expected(self, s, types, vals, ident):
        toks = [('lit', b'{ID:'), ('dec', False, 32, ident)]
        for t, v in zip(types, vals):
            toks.append(('lit', b', ' + NAME[t] + b':'))
            if t == 'str':
                toks += [('lit', b"'"), ('str', v), ('lit', b"'")]
            elif t == 'buf':
                pass
            elif t in ('f32', 'f64'):
                toks.append(('flt', v))
            elif t == 'fd':
                toks.append(('dec', True, 32, None))
            else:
                toks.append(('dec', t[0] == 'i', wire.WIDTH[t], v))
        toks.append(('lit', b'}'))
        return toks

    @staticmethod
    def join(toks):
        out = []
        for t in toks:
            if t[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + t[1])
            elif t != ('lit', b''):
                out.append(t)
        return out

    def same(self, s, got, exp, blk):
        got, exp = self.join(got), self.join(exp)
        if len(got) != len(exp):
            return 'text of %d parts instead of %d (%s)' % (len(got), len(exp), [g[:2] for g in got][-3:])
        for g, e in zip(got, exp):
            if g[0] != e[0]:
                return '%s printed as %s' % (e[:2], g[:2])
            if g[0] == 'lit':
                if g[1] != e[1]:
                    return 'text %r instead of %r' % (g[1], e[1])
            elif g[0] == 'dec':
                if e[3] is None:
                    continue
                wd = e[2]
                # printed through an int when narrower
                if g[1] != e[1] and not (wd < 32):
                    return 'value printed with the wrong sign'
                gv, ev = g[3], s.f.res(e[3])
                if g[2] < wd:
                    return 'value printed on %d bits' % g[2]
                x = bv.bits_of(s, gv, g[2])
                y = bv.bits_of(s, ev, wd)
                y = y + [y[-1] if e[1] else bv.ZERO] * (g[2] - wd)
                self.w.bits += wd
                if x is None or not bv.equal(s, bv.make(x), bv.make(y), g[2]):
                    return 'value printed is not the one in the message'
            elif g[0] == 'str':
                b, o = self.w.I.base_off(s, g[1])
                if b != blk:
                    return 'string printed is not the one in the message'
        return None

    def dump(self, types, small=False):
        w = self.w
        ident = av(atom(('scn', 'did'), 'int', 0, (1 << 32) - 1))
        name = '+'.join(types) or 'nothing'
        states, vals = self.message(types, ident, small)
        if not states:
            self.rep.violation('build ' + name, 'a message of %s cannot be built' % name)
        for s in states:
            blk, ln = w.data(s)
            # where the strings are: copies recorded while encoding
            w.rule.places = {}
            for c in s.rs:
                if c[0] == 'copy' and c[1] == blk and c[3] in w.rule.strlen:
                    w.rule.places[(blk, c[2])] = w.rule.strlen[c[3]]
                    s.wcells(blk)[s.f.res(sub(add(c[2], c[5]), 1))] = (1, 0)
            s.rs = tuple(x for x in s.rs if x[0] not in ('nul',))
            base = s.rs
            # allocated
            s1 = s.fork()
            s1.wcells(w.out.t[0][0]).clear()
            n = 0
            for s2, r in w.step(s1, 'pomp_msg_adump', [w.msg, w.out], ok=False):
                w.npaths += 1
                key = 'adump ' + name
                if s2.f.res(r) != 0:
                    self.rep.violation(key, 'dump of a message of %s can fail with %s although memory is available' %
                                       (name, show(s2.f.res(r))))
                    continue
                n += 1
                tx = [x for x in s2.rs if x[0] == 'txt']
                for x in tx:
                    if not x[2]:
                        self.rep.violation(key, 'the allocated dump of a message of %s can be truncated at %s (text %s)' %
                                           (name, x[4], [t[:2] for t in x[1]][:2]))
                c = s2.mem.get(w.out.t[0][0], {}).get(0)
                b = w.I.base_off(s2, c[1])[0] if c else None
                if b is None or not any(x[0] == 'nul' and x[1] == b for x in s2.rs):
                    self.rep.violation(key, 'the allocated dump of a message of %s is not terminated' % name)
                if all(x[2] for x in tx):
                    e = self.same(s2, [t for x in tx for t in x[1]], self.expected(s2, types, vals, ident), blk)
                    if e:
                        self.rep.violation(key, 'dump of a message of %s: %s' % (name, e))
            if not n:
                self.rep.violation('adump ' + name, 'a message of %s cannot be dumped' % name)
            # caller's memory, of any size
            for lo, hi in ((1, 4), (5, (1 << 32) - 1)):
                s1 = s.fork()
                mx = av(atom(('scn', 'maxdst', lo), 'int', lo, hi))
                dst = atom(('scn', 'dst', lo), 'obj', info={'size': mx})
                key = 'dump ' + name
                for s2, r in w.step(s1, 'pomp_msg_dump', [w.msg, av(dst), mx], ok=False):
                    w.npaths += 1
                    if s2.f.res(r) != 0:
                        self.rep.violation(key, 'dump of a message of %s fails with %s' % (name, show(s2.f.res(r))))
                        continue
                    nul = [x for x in s2.rs if x[0] == 'nul' and x[1] == dst]
                    tx = [x for x in s2.rs if x[0] == 'txt']
                    cut = any(not x[2] for x in tx)
                    if not nul:
                        self.rep.violation(key, 'the dump of a message of %s may not be terminated' % name)
                    else:
                        t = s2.f.res(nul[-1][2])
                        if not s2.f.prove_le(add(t, 1), s2.f.res(mx)):
                            self.rep.violation(key, 'the dump of a message of %s may be terminated out of place' % name)
                    if cut and lo == 5:
                        cells = s2.mem.get(dst, {})
                        for k, ch in ((5, '.'), (4, '.'), (3, '.'), (2, '}')):
                            c = cells.get(s2.f.res(sub(mx, k)))
                            if c is None or c != (1, ord(ch)):
                                self.rep.violation(key, 'a dump cut short does not end with an ellipsis')
                                break
                    if not cut:
                        e = self.same(s2, [t for x in tx for t in x[1]], self.expected(s2, types, vals, ident), blk)
                        if e:
                            self.rep.violation(key, 'dump of a message of %s: %s' % (name, e))


def job(spec):
    return Room(), spec[0], 'fd', mem.setup_regions(spec[0])


def check(pid):
    rep = run.Report(pid)
    _, info = run.load()
    d = D(rep)
    g = run.Guard(rep)
    n = 0
    for t in [None] + list(NAME):
        for types in ([], ) if t is None else ([t],):
            g('dump ' + '+'.join(types), d.dump, types, small=True)
            n += 1
    for ts in (['i8', 'str'], ['u64', 'i16']):
        g('dump ' + '+'.join(ts), d.dump, ts, small=True)
        n += 1
    g.done()
    res, tot, fns = run.run_entries(job, [('pomp_msg_adump',), ('pomp_decoder_adump',)])
    nroom = noom = 0
    for r in res:
        for k, v in r['obl'].items():
            if k[2] == 'oom':
                noom += v[0]
                if v[1]:
                    rep.violation('out of memory', v[2])
            if k[2] == 'room':
                nroom += v[0]
                if v[1]:
                    rep.violation('room %s' % k[3], '%s: %s' % (k[0], v[2]))
    if nroom < 8:
        raise run.Broken('only %d formatted parts' % nroom)
    w = d.w
    rep.cov = {'explanation': 'dumps of messages with a value of every type, alone and after a string of any length: '
                              'text, terminator, room for every formatted part, ellipsis when cut',
               'messages': n, 'formatted_parts': nroom, 'out_of_memory_exits': noom, 'paths': w.npaths, 'bits_traced': w.bits, 'calls_interpreted': w.n,
               'functions_analysed': len(w.I.visited_fns), 'units': info['units'],
               'samples': ["{ID:%u, I8:%d}", "{ID:%u, STR:'%s', U64:%lu}"]}
    rep.assume = ['allocation succeeds', 'the C library formats as specified']
    return rep
