"""C03: a buffer with several references is never changed, references are
counted atomically.  C04: a finished message is never changed."""
import run
import mem
import dom
import interp
from dom import *
from c_mem import entries

FREEZE_OK = ('pomp_msg_clear', 'pomp_msg_destroy', 'pomp_prot_release_msg', 'pomp_prot_destroy')
GET_ACCESS = 'pomp_buffer_get_data'


class Obl(mem.BufInv):
    def __init__(self):
        self.obl = {}

    def record(self, k, ok, txt):
        r = self.obl.setdefault(k, [0, 0, None])
        r[0] += 1
        if not ok:
            r[1] += 1
            if r[2] is None:
                r[2] = txt()

    def result(self):
        return {'obl': self.obl, 'entry': self.entry_name}

    # what is being written
    def target(self, I, st, base, off):
        """('buf', buffer base, offset, field) or ('bytes', ...)"""
        info = dom.A_INFO[base]
        if 'bufof' in info:
            ob, o0 = info['bufof']
            return ob, o0, 'data bytes'
        c = off if isinstance(off, int) else off.c
        for o0, sn in (I.structs_of.get(base) or {}).items():
            if sn == 'pomp_buffer' and o0 <= c < o0 + I.m.types.size(('st', 'struct.pomp_buffer')):
                f = I.m.field_name('pomp_buffer', c - o0, None) if isinstance(off, int) else None
                if f is None:
                    for nm in ('fdoffs', 'data', 'len', 'capacity', 'refcount', 'fdcount'):
                        fo = I.m.field_offset('pomp_buffer', nm)
                        if fo and fo[0] <= c - o0 < fo[0] + fo[1]:
                            f = nm
                return base, o0, f or '?'
        return None

    def on_store(self, I, st, base, off, size, val, ins):
        t = self.target(I, st, base, off)
        if t:
            self.write(I, st, t, ins, val)

    def on_mem(self, I, st, kind, ptr, n, ins):
        if kind != 'w' or st.f.res(n) == 0:
            return
        b, off = I.base_off(st, ptr)
        if b is None:
            return
        t = self.target(I, st, b, off)
        if t:
            self.write(I, st, t, ins, None)

    def call(self, I, st, name, args, ins):
        if name in ('realloc', 'free'):
            b, off = I.base_off(st, args[0])
            if b is not None and off == 0 and 'bufof' in dom.A_INFO[b]:
                ob, o0 = dom.A_INFO[b]['bufof']
                self.write(I, st, (ob, o0, 'data block'), ins, None)
        return None


class Shared(Obl):
    def fresh(self, I, st, b):
        return dom.A_KEY[b][0] == 'heap'

    def write(self, I, st, t, ins, val):
        b, o0, f = t
        if f == 'refcount':
            if ins.op == 'atomicrmw' or self.fresh(I, st, b):
                self.record((ins.fn.name, 'refcount'), True, None)
            else:
                self.record((ins.fn.name, 'refcount'), False,
                            lambda: '%s: reference count changed by a plain (non atomic) store' % I.m.where(ins))
            return
        rc = self.bufcell(I, st, b, o0, 'refcount')
        ok = st.f.prove_le(rc, 1)
        self.record((ins.fn.name, f), ok, lambda: '%s (%s): %s of a buffer is changed while its reference count may '
                    'be above 1 (%s)' % (I.m.where(ins), ' -> '.join(I.stack), f, show(st.f.res(rc))))

    def on_load(self, I, st, base, off, size, ins):
        if ins.op != 'load':
            return
        t = self.target(I, st, base, off)
        if t and t[2] == 'refcount' and st.rs and (base, t[1]) in st.rs:
            rc = st.f.res(self.bufcell(I, st, base, t[1], 'refcount'))
            ok = st.f.prove_le(rc, 0)
            self.record((ins.fn.name, 'refcount re-read'), ok, lambda: '%s: the reference count is read again after '
                        'it was decremented: another thread may have changed it' % I.m.where(ins))

    def init_rs(self):
        return frozenset()

    def call(self, I, st, name, args, ins):
        Obl.call(self, I, st, name, args, ins)
        if name == 'free' and ins is not None:
            b, off = I.base_off(st, args[0])
            if b is not None and isinstance(off, int) and (I.structs_of.get(b) or {}).get(0) == 'pomp_buffer' \
                    and not self.fresh(I, st, b):
                rc = self.bufcell(I, st, b, 0, 'refcount')
                ok = st.f.prove_le(rc, 0)
                self.record((ins.fn.name, 'free of buffer'), ok, lambda: '%s (%s): a buffer is freed while its '
                            'reference count may not be 0 (%s)' % (I.m.where(ins), ' -> '.join(I.stack),
                                                                   show(st.f.res(rc))))
        return None

    def at_exit(self, I, args, outs):
        if self.entry_name != GET_ACCESS:
            return
        for st, ret in outs:
            b = args[0].t[0][0]
            if st.f.range(av(b))[1] > 0:
                rc = self.bufcell(I, st, b, 0, 'refcount')
                got = any(c[1] != I.init_val(st, p.t[0][0], o, c[0], ('i', c[0] * 8))
                          for p in args[1:] if isinstance(p, Lin)
                          for o, c in st.mem.get(p.t[0][0], {}).items())
                ok = not got or st.f.prove_le(rc, 1)
                self.record((self.entry_name, 'writable access'), ok,
                            lambda: 'writable access to a shared buffer is given out')


class Rmw(Shared):
    """Shared + remembers which buffers were decremented on this path."""

    def on_backedge(self, I, st, start, ins):
        st.rs = frozenset(x for x in st.rs if interp.fresh_root(x[0]) < 0
                          and dom.A_KEY[x[0]][0] != 'heap')

    def on_store(self, I, st, base, off, size, val, ins):
        t = self.target(I, st, base, off)
        if t and t[2] == 'refcount' and ins.op == 'atomicrmw':
            old = self.bufcell(I, st, base, t[1], 'refcount')
            d = sub(val, old)
            self.record((ins.fn.name, 'refcount step'), d in (1, -1), lambda: '%s: reference count changed by %s'
                        % (I.m.where(ins), show(d)))
            if d == -1:
                st.rs = st.rs | {(base, t[1])}
        Shared.on_store(self, I, st, base, off, size, val, ins)


class Frozen(Obl):
    """The message given (or attached to the encoder given) is finished."""

    def __init__(self, what):
        Obl.__init__(self)
        self.what = what

    def prepare(self, I, st, args):
        a = args[self.what[1]].t[0][0]
        if self.what[0] == 'enc':
            off, size = I.m.field_offset('pomp_encoder', 'msg')
            v = I.init_val(st, a, off, size, mem.IR.PTR)
            st.wcells(a)[off] = (size, v)
            st.f.assume_ne0(args[self.what[1]])
            a = v.t[0][0]
        st.f.assume_ne0(av(a))
        off, size = I.m.field_offset('pomp_msg', 'finished')
        v = I.init_val(st, a, off, size, ('i', 32))
        st.wcells(a)[off] = (size, v)
        st.f.assume_le0(sub(1, v))
        off, size = I.m.field_offset('pomp_msg', 'buf')
        b = I.init_val(st, a, off, size, mem.IR.PTR)
        st.wcells(a)[off] = (size, b)
        st.f.assume_ne0(b)
        self.msg, self.buf = a, b.t[0][0]

    def write(self, I, st, t, ins, val):
        b, o0, f = t
        self.record((ins.fn.name, f), b != self.buf or f == 'refcount',
                    lambda: '%s (%s): %s of a finished message is changed' % (
                        I.m.where(ins), ' -> '.join(I.stack), f))

    def on_store(self, I, st, base, off, size, val, ins):
        if base == self.msg:
            self.record((ins.fn.name, 'msg field'), False, lambda: '%s (%s): field %s of a finished message is '
                        'changed' % (I.m.where(ins), ' -> '.join(I.stack), I.field(base, off, size)))
            return
        Obl.on_store(self, I, st, base, off, size, val, ins)

    def at_exit(self, I, args, outs):
        self.record((self.entry_name, 'entry'), True, None)


MARK_ARG = ('pomp_msg_finish', 'pomp_msg_write', 'pomp_msg_writev', 'pomp_msg_write_argv')
MARK_RET = ('pomp_msg_new_with_buffer',)


class Marks(Obl):
    """Messages declared complete are marked so."""

    def write(self, I, st, t, ins, val):
        pass

    def at_exit(self, I, args, outs):
        off, size = I.m.field_offset('pomp_msg', 'finished')
        for st, ret in outs:
            if self.entry_name in MARK_ARG:
                try:
                    st.f.assume_le0(scale(ret, -1) if isinstance(ret, Lin) else -ret)
                except Infeasible:
                    continue
                if isinstance(ret, int) and ret < 0:
                    continue
                p = args[0]
            elif self.entry_name in MARK_RET:
                p = st.f.res(ret)
                if isinstance(p, int):
                    continue
            b, o = I.base_off(st, p)
            c = st.mem.get(b, {}).get(off)
            v = c[1] if c is not None else I.init_val(st, b, off, size, ('i', 32))
            ok = st.f.prove_le(1, v)
            self.record((self.entry_name, 'marked finished'), ok,
                        lambda: 'success is reported with a message that is not marked finished (%s)' % show(v))


def frozen_entries():
    out = []
    for f in run.api():
        mod = f.split('_')[1]
        if mod not in ('msg', 'encoder') or f in FREEZE_OK:
            continue
        fn = run.M.functions[f]
        dt = run.M.param_types(fn)
        for i, t in enumerate(dt[1:]):
            sn = run.M.di_struct_name(t) if t is not None else None
            if sn == 'pomp_msg' and f != 'pomp_encoder_init':
                out.append((f, ('msg', i)))
            elif sn == 'pomp_encoder' and f not in ('pomp_encoder_init', 'pomp_encoder_clear',
                                                    'pomp_encoder_destroy'):
                out.append((f, ('enc', i)))
    return out


def job(spec):
    f, what = spec
    if what == 'shared':
        return Rmw(), f, 'fd', mem.setup_regions(f)
    if isinstance(what, tuple) and what[0] == 'alias':
        return Rmw(), f, 'fd', mem.setup_regions(f, what[1])
    if what == 'marks':
        return Marks(), f, 'fd', mem.setup_regions(f)
    r = Frozen(what)
    base = mem.setup_regions(f)

    def setup(I, st, args):
        base(I, st, args)
        r.prepare(I, st, args)
    return r, f, 'fd', setup


def check(pid):
    rep = run.Report(pid)
    _, info = run.load()
    if pid == 'C03':
        specs = [(f, 'shared' if al is None else ('alias', al)) for f, al in entries('dec') + entries('enc')]
        need, mino = 60, 60
    else:
        specs = frozen_entries() + [(f, 'marks') for f in MARK_ARG + MARK_RET]
        need, mino = 20, 20
    if len(specs) < need:
        raise run.Broken('only %d entry points' % len(specs))
    res, tot, fns = run.run_entries(job, specs)
    nob, sites = 0, {}
    for spec, r in zip(specs, res):
        for k, v in r['obl'].items():
            nob += v[0]
            s = sites.setdefault(k, [0, 0])
            s[0] += v[0]
            s[1] += v[1]
            if v[1]:
                rep.violation('%s/%s' % k, 'from %s: %s' % (spec[0], v[2]))
    if nob < mino:
        raise run.Broken('only %d writes analysed' % nob)
    if pid == 'C03' and not any(k[1] == 'free of buffer' for k in sites):
        raise run.Broken('no place that frees a shared buffer found')
    if pid == 'C03' and not any(k[1] == 'refcount step' for k in sites):
        raise run.Broken('no reference count change found')
    if pid == 'C04' and sum(k[1] == 'marked finished' for k in sites) < 5:
        raise run.Broken('places that finish a message not found')
    rep.cov = {
        'explanation': 'typestate: every store, copy, reallocation and free that touches a buffer on any path of any '
                       'entry point is an obligation' + (
                           ' (reference count at most 1 there; count changed only atomically, by one, freed only at 0)'
                           if pid == 'C03' else ' (not the buffer or the fields of the finished message)'),
        'entry_points': len(specs), 'obligations': nob,
        'discharged': nob - sum(v[1] for v in sites.values()), 'sites': len(sites),
        'functions_analysed': len(fns), 'paths': tot['paths'], 'call_instances': tot['calls'],
        'samples': ['%s %s: %d' % (k[0], k[1], v[0]) for k, v in sorted(sites.items())][:12],
    }
    rep.assume = ['reference counts handed in are at least 1', 'distinct struct arguments do not alias except '
                  'the pairs enumerated']
    return rep
