"""Bounds of every access to message/buffer bytes and to sized local objects."""
import re
import ir as IR
from dom import *
import dom
import interp
from interp import Rule, Interp

MAXSZ = 1 << 61


class BufInv(Rule):
    """Shared assumptions: the class invariants of the library's structures
    (each is re-established by the rules that check it at API exits)."""

    def cell(self, I, st, base, sname, fname, ty=None):
        fo = I.m.field_offset(sname, fname)
        off, size = fo
        ty = ty or (IR.PTR if False else ('i', size * 8))
        c = st.mem.get(base, {}).get(off)
        if c is not None:
            return c[1]
        v = I.init_val(st, base, off, size, ty)
        st.wcells(base)[off] = (size, v)
        return v

    def bufcell(self, I, st, base, off0, fname, ty=None):
        off, size = I.m.field_offset('pomp_buffer', fname)
        off += off0
        c = st.mem.get(base, {}).get(off)
        if c is not None:
            return c[1]
        v = I.init_val(st, base, off, size, ty or ('i', size * 8))
        st.wcells(base)[off] = (size, v)
        if isinstance(v, Lin):
            self.init_buf(I, st, base, off0, fname, v)
        return v

    def on_init(self, I, st, base, off, size, val):
        fl = I.field(base, off if isinstance(off, int) else off.c, size)
        if fl is None:
            return
        if fl[0] == 'pomp_buffer' and isinstance(off, int):
            o0 = None
            for s, n in I.structs_of.get(base, {}).items():
                if n == 'pomp_buffer' and s <= off:
                    o0 = s
            if o0 is not None:
                self.init_buf(I, st, base, o0, fl[1], val)
        else:
            self.init_other(I, st, base, off, size, val, fl)

    def init_buf(self, I, st, base, o0, f, val):
        a = val.t[0][0]
        if f in ('len', 'capacity'):
            A_LO[a] = 0
            A_HI[a] = MAXSZ
            ln, cap = self.initcell(I, st, base, o0, 'len'), self.initcell(I, st, base, o0, 'capacity')
            if dom.A_KEY[ln.t[0][0]][4] == dom.A_KEY[cap.t[0][0]][4]:
                dom.axiom(sub(ln, cap))
        elif f == 'data':
            cap = self.initcell(I, st, base, o0, 'capacity')
            dom.A_INFO[a]['bufof'] = (base, o0)
            dom.A_INFO[a]['size'] = cap
        elif f == 'refcount':
            A_LO[a], A_HI[a] = 1, 1 << 30
        elif f == 'fdcount':
            A_LO[a], A_HI[a] = 0, self.maxfd(I)

    def initcell(self, I, st, base, o0, fname):
        off, size = I.m.field_offset('pomp_buffer', fname)
        v = I.init_val(st, base, off + o0, size, ('i', size * 8))
        A_LO[v.t[0][0]] = 0
        return v

    def inv_objects(self, I, st):
        out = []
        for base in st.mem:
            for o0, sn in I.structs_of.get(base, {}).items():
                if sn == 'pomp_buffer':
                    out.append((base, o0))
                for (s2, f2), r in self.ranges(I).items():
                    if s2 == sn:
                        out.append((base, o0, s2, f2, r))
        return out

    def inv_ok(self, I, st, o):
        return not self.inv_fail(I, st, o)

    def rcell(self, I, st, o):
        base, o0, s2, f2, (lo, hi) = o
        off, size = I.m.field_offset(s2, f2)
        c = st.mem.get(base, {}).get(off + o0)
        if c is not None:
            return c[1]
        v = I.init_val(st, base, off + o0, size, ('i', size * 8))
        st.wcells(base)[off + o0] = (size, v)
        if isinstance(v, Lin) and st.ver.get(base, 0) == 0:
            A_LO[v.t[0][0]], A_HI[v.t[0][0]] = lo, hi
        return v

    def inv_fail(self, I, st, o):
        if len(o) == 5:
            v = self.rcell(I, st, o)
            lo, hi = o[4]
            return [] if st.f.prove_le(v, hi) and st.f.prove_le(lo, v) else [(o[3], show(v))]
        base, o0 = o
        if st.f.range(av(base))[1] <= 0:
            return []
        ln = self.bufcell(I, st, base, o0, 'len')
        cap = self.bufcell(I, st, base, o0, 'capacity')
        data = self.bufcell(I, st, base, o0, 'data', IR.PTR)
        fc = self.bufcell(I, st, base, o0, 'fdcount')
        bad = []
        if not st.f.prove_le(ln, cap) or not st.f.nonneg(ln):
            bad.append(('len<=capacity', 'len %s, capacity %s' % (show(st.f.res(ln)), show(st.f.res(cap)))))
        d = st.f.res(data)
        if isinstance(d, Lin):
            b, off = I.base_off(st, d)
            sz = I.size_of(st, b) if b is not None else None
            ok = b is not None and off == 0 and sz is not None and st.f.prove_le(cap, sz)
        else:
            # no data block: freshly initialised, or an untouched object
            ok = d == 0 and (st.f.prove_le(cap, 0) or
                             (isinstance(data, Lin) and
                              dom.A_INFO[data.t[0][0]].get('size') is not None and
                              st.f.res(dom.A_INFO[data.t[0][0]]['size']) == st.f.res(cap)))
        if not ok:
            bad.append(('capacity<=allocated', 'data %s, capacity %s' % (show(d), show(st.f.res(cap)))))
        if not (st.f.prove_le(fc, self.maxfd(I)) and st.f.nonneg(fc)):
            bad.append(('fdcount', 'fdcount %s' % show(st.f.res(fc))))
        return bad

    def inv_assume(self, I, st, o):
        if len(o) == 5:
            v = self.rcell(I, st, o)
            lo, hi = o[4]
            st.f.assume_le0(sub(v, hi))
            st.f.assume_le0(sub(lo, v))
            return
        base, o0 = o
        ln = self.bufcell(I, st, base, o0, 'len')
        cap = self.bufcell(I, st, base, o0, 'capacity')
        data = self.bufcell(I, st, base, o0, 'data', IR.PTR)
        fc = self.bufcell(I, st, base, o0, 'fdcount')
        for v in (ln, cap, fc):
            if isinstance(v, Lin):
                try:
                    st.f.assume_le0(scale(v, -1))
                except Exception:
                    pass
        st.f.add_lin(sub(ln, cap))
        st.f.add_lin(sub(fc, self.maxfd(I)))
        if isinstance(data, Lin) and len(data.t) == 1 and data.c == 0:
            a = data.t[0][0]
            st.sz[a] = cap

    # simple range invariants of other structures: (struct, field) -> (lo, hi)
    def ranges(self, I):
        fo = I.m.field_offset('pomp_prot', 'headerbuf')
        return {('pomp_prot', 'offheader'): (0, fo[1] if fo else 12)}

    def init_other(self, I, st, base, off, size, val, fl):
        r = self.ranges(I).get(fl)
        if r and isinstance(val, Lin) and len(val.t) == 1:
            A_LO[val.t[0][0]], A_HI[val.t[0][0]] = r

    def maxfd(self, I):
        fo = I.m.field_offset('pomp_buffer', 'fdoffs')
        return fo[1] // 8


class MemRule(BufInv):
    """collects obligations: (kind, where, text, ok)."""

    def __init__(self):
        self.obl = {}      # (where, kind) -> [n, nfail, first failing trace]
        self.unknown = {}
        self.inv = {}

    def record(self, k, ok, txt):
        r = self.obl.setdefault(k, [0, 0, None])
        r[0] += 1
        if not ok:
            r[1] += 1
            if r[2] is None:
                r[2] = txt()

    def result(self):
        return {'obl': self.obl, 'unknown': {k[0]: sorted(v)[:3] for k, v in self.unknown.items()},
                'entry': self.entry_name, 'cfg': self.cfg}

    def at_exit(self, I, args, outs):
        """Class invariants hold again in every final state."""
        for st, ret in outs:
            self.invs(I, st, 'exit of ' + self.entry_name)

    def on_backedge(self, I, st, start, ins):
        self.invs(I, st, 'loop of ' + ins.fn.name, True)

    def invs(self, I, st, where, gen=False):
        rg = self.ranges(I)
        for base in list(st.mem):
            for o0, sn in list(I.structs_of.get(base, {}).items()):
                cells = st.mem[base]
                if gen and interp.fresh_root(base) < 0:
                    continue
                if dom.A_KEY[base][0] == 'heap' and st.f.range(av(base))[1] <= 0:
                    continue
                if sn == 'pomp_buffer':
                    bad = dict(self.inv_fail(I, st, (base, o0)))
                    for nm in ('len<=capacity', 'capacity<=allocated', 'fdcount'):
                        self.record((where, self.entry_name, 'inv', nm),
                                    nm not in bad, lambda: bad[nm])
                for (s2, f2), (lo, hi) in rg.items():
                    if s2 == sn:
                        off, size = I.m.field_offset(s2, f2)
                        c = cells.get(off + o0)
                        if c is not None:
                            v = c[1]
                            self.record((where, self.entry_name, 'inv', f2),
                                        st.f.prove_le(v, hi) and st.f.prove_le(lo, v),
                                        lambda: '%s %s' % (f2, show(st.f.res(v))))

    def region(self, I, st, base):
        return dom.A_INFO[base].get('size')

    def on_deref(self, I, st, ptr, size, ins, write):
        self.check(I, st, ptr, size, ins, write)

    def on_mem(self, I, st, kind, ptr, n, ins):
        self.check(I, st, ptr, n, ins, kind == 'w')

    # libc functions that write (pointer, size) arguments
    WRITES = {'read': (1, 2), 'recv': (1, 2), 'recvfrom': (1, 2), 'snprintf': (0, 1), 'vsnprintf': (0, 1),
              'fgets': (0, 1), 'getcwd': (0, 1), 'strncpy': (0, 2), 'memmove': (0, 2), 'memcpy': (0, 2)}
    READS = {'write': (1, 2), 'send': (1, 2), 'sendto': (1, 2), 'memmove': (1, 2), 'memcpy': (1, 2),
             'memcmp': (0, 2)}

    def call(self, I, st, name, args, ins):
        if name in self.WRITES:
            p, n = self.WRITES[name]
            self.check(I, st, args[p], args[n], ins, True)
        if name in self.READS:
            p, n = self.READS[name]
            self.check(I, st, args[p], args[n], ins, False)
        if name == 'strlen':
            b, off = I.base_off(st, args[0])
            if b is not None and off == 0 and I.size_of(st, b) is None and 'bufof' not in dom.A_INFO[b]:
                return [(st, self.strl(st, b))]
        if name in ('sscanf', '__isoc23_sscanf', '__isoc99_sscanf'):
            b, off = I.base_off(st, args[0])
            if b is not None and I.size_of(st, b) is None and (off != 0):
                l = self.strl(st, b)
                ok = st.f.prove_le(0, off) and st.f.prove_le(off, l)
                k = (I.m.where(ins), ins.fn.name, 'read', 'string')
                self.record(k, ok, lambda: '%s: string read at offset %s, its length is %s' % (
                    ' -> '.join(I.stack), show(off), show(st.f.res(l))))
            fmt = I.cstring(st, args[1])
            if fmt is not None:
                sz = [{b'hh': 1, b'h': 2, b'': 4}.get(m, 8) for m in
                      re.findall(rb'%\d*(hh|h|ll|l|j|z|)[diouxX]', fmt)]
                for p, n in zip(args[2:], sz):
                    self.check(I, st, p, n, ins, True)
        return None

    def strl(self, st, b):
        return av(atom(('strlen', b, st.ver.get(b, 0)), 'int', 0, 1 << 61))

    def check(self, I, st, ptr, n, ins, write):
        p = st.f.res(ptr)
        if isinstance(p, int):
            return
        b, off = I.base_off(st, p)
        if b is None:
            return
        info = dom.A_INFO[b]
        lim = None
        lo = 0
        what = None
        n = st.f.res(n)
        if is_cond(n):
            n = I.cond_to_val(n)
        if 'bufof' in info:
            ob, o0 = info['bufof']
            what = 'bytes'
            lim = I.size_of(st, b)
            if not write:
                # readable bytes: the used length of the buffer
                lim = self.bufcell(I, st, ob, o0, 'len')
        elif not isinstance(off, int) and I.structs_of.get(b):
            # an element of an array member
            what = 'member'
            ext = I.member(b, off.c)
            if ext is None:
                self.unknown.setdefault((I.m.where(ins), ), set()).add(dom.aname(b))
                return
            lo, lim = ext
        elif I.size_of(st, b) is not None:
            lim = I.size_of(st, b)
            what = 'object'
            if isinstance(off, int) and isinstance(lim, int) and isinstance(n, int) \
                    and off >= 0 and off + n <= lim:
                return
        else:
            if not isinstance(off, int) or not isinstance(n, int):
                self.unknown.setdefault((I.m.where(ins), ), set()).add(dom.aname(b))
            return
        ok = n == 0 or (st.f.prove_le(lo, off) and st.f.prove_le(add(off, n), lim, 4))
        k = (I.m.where(ins), ins.fn.name, 'write' if write else 'read', what)
        self.record(k, ok, lambda: '%s: %s of %s bytes at offset %s of %s, limit %s' % (
            ' -> '.join(I.stack), k[2], show(n), show(off), dom.aname(b), show(st.f.res(lim))))


# (pointer parameter, length parameter) contracts of the public API
REGIONS = {
    'pomp_buffer_write': [('p', 'n')], 'pomp_buffer_append_data': [('data', 'len')],
    'pomp_buffer_new_with_data': [('data', 'len')],
    'pomp_buffer_read': [('p', 'n')],
    'pomp_prot_decode_msg': [('buf', 'len')],
    'pomp_msg_dump': [('dst', 'maxdst')], 'pomp_decoder_dump': [('dst', 'maxdst')],
    'pomp_encoder_write_buf': [('v', 'n')],
    'pomp_addr_format': [('buf', 'len')],
}


def setup_regions(fname, alias=None):
    def setup(I, st, args):
        fn = I.m.functions[fname]
        names = [nm for _, nm in fn.params]
        for p, n in REGIONS.get(fname, ()):
            # matched by position of the named parameters, or by the first
            # pointer followed by an integer when they were renamed
            if p in names and n in names:
                ia, ib = names.index(p), names.index(n)
                a = args[ia].t[0][0]
                dom.A_INFO[a]['size'] = args[ib]
                st.f.iv[args[ib].t[0][0]] = (0, dom.A_HI[args[ib].t[0][0]] if dom.A_HI[args[ib].t[0][0]] < MAXSZ else MAXSZ)
        for i, (t, nm) in enumerate(fn.params):
            # sizes are below 2^61 (assumption: no object is larger)
            if t == ('i', 64) and isinstance(args[i], Lin) and args[i].t[0][0] not in st.f.iv \
                    and dom.A_LO[args[i].t[0][0]] == 0:
                st.f.iv[args[i].t[0][0]] = (0, MAXSZ)
        if alias:
            i, j = alias
            st.f.assume_eq0(sub(args[i], args[j]))
    return setup
