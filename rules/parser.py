"""C05: the stream parser recognises exactly the framed messages, whatever the
chunking.  Product of the implementation (interpreted abstractly, call by call,
from pomp_prot_new) with the framing automaton of the protocol."""
import run
import mem
import dom
import interp
import ir as IR
from dom import *

MAGIC = [0x50, 0x4f, 0x4d, 0x50]
HDR = 12


class PRule(mem.BufInv):
    merge = False
    max_states = 3000000

    def __init__(self):
        self.failk = None
        self.nalloc = 0

    def init_rs(self):
        return ()

    def exact(self, I, fn, h):
        return 64 if fn.name.startswith('pomp_prot') or self.deep else 0
    deep = True

    def call(self, I, st, name, args, ins):
        if name in ('malloc', 'calloc', 'realloc'):
            k = st.epoch_alloc if False else None
            self.nalloc += 1
            n = len([x for x in st.rs if x == 'alloc'])
            st.rs = st.rs + ('alloc',)
            outs = I.libc(st, name, args, ins)
            want = self.failk is not None and n == self.failk
            r = []
            for s, v in outs:
                if (isinstance(v, int) and v == 0) == want:
                    r.append((s, v))
            return r
        return None

    def on_mem(self, I, st, kind, ptr, n, ins):
        if kind == 'w':
            self.pend = (ptr, n)
        else:
            d = I.base_off(st, self.pend[0])
            s = I.base_off(st, ptr)
            n = st.f.res(n)
            if s[0] is not None and dom.A_INFO[s[0]].get('chunk') and isinstance(n, (int, Lin)):
                st.rs = st.rs + (('copy', d[0], st.f.res(d[1]), s[0], st.f.res(s[1]), n),)


class P:
    def __init__(self, rep):
        self.rep = rep
        self.rule = PRule()
        self.rule.entry_name = 'scenario'
        self.rule.cfg = 'fd'
        self.I = interp.Interp(run.M, self.rule)
        self.I.gvals = run.gvals('fd', self.I)
        self.nfeed = 0
        self.nprobe = 0
        self.nout = 0
        self.ngen = 0
        self.pm = {}
        m = run.M
        if 'pomp_prot_decode_msg' not in m.functions or 'pomp_prot_new' not in m.functions:
            raise run.Broken('protocol decoder entry points not found')
        self.out = atom(('scn', 'msgout'), 'obj', info={'size': 8})

    def byte(self, i):
        return av(atom(('scn', 'byte', i), 'int', 0, 255))

    def feed(self, st, first, n, tag, fail=None):
        """Feed stream bytes [first, first+n): outcomes (state, ret)."""
        self.nfeed += 1
        I = self.I
        st = st.fork()
        c = atom(('scn', 'chunk', first, n), 'obj', info={'size': n, 'chunk': (first, n)})
        cells = st.wcells(c)
        for k in range(n):
            cells[k] = (1, self.byte(first + k))
        return self.call(st, c, n, tag, fail)

    def call(self, st, c, n, tag, fail=None):
        I = self.I
        stale = av(atom(('scn', 'stale'), 'ptr', 4096, INF))
        st.wcells(self.out)[0] = (8, stale)
        st.rs = ()
        I.nstates = 0
        self.rule.failk = fail
        outs = I.step(st, 'pomp_prot_decode_msg', [self.prot, av(c), n, av(self.out)], tag)
        self.rule.failk = None
        self.nout += len(outs)
        return outs

    def msgout(self, st):
        v = st.f.res(st.mem[self.out][0][1])
        return v

    def viol(self, key, text):
        self.rep.violation(key, text)

    def le(self, idx):
        return av(atom(('op', 'le') + tuple(self.byte(i) for i in idx), 'int', 0, (1 << 32) - 1))

    def start(self):
        I = self.I
        st = interp.State()
        st.rs = ()
        outs = [(s, r) for s, r in I.step(st, 'pomp_prot_new', [], ('new',)) if isinstance(s.f.res(r), Lin)]
        if len(outs) != 1:
            raise run.Broken('pomp_prot_new: %d successful outcomes' % len(outs))
        self.prot = outs[0][1]
        return outs[0][0]

    def tag(self, *k):
        self.ngen += 1
        return ('g', self.ngen)

    # -- specification: position after a chunk, forking on undecided bytes
    def classify(self, st, m, first, n):
        """Yield (state, m', number of stale bytes) for consistent byte values."""
        todo = [(st, m, 0, first - m)]
        while todo:
            s, mm, k, org = todo.pop()
            if k == n:
                yield s, mm, org
                continue
            b = self.byte(first + k)
            if mm < 4:
                for eq in (True, False):
                    s2 = s.fork()
                    try:
                        if eq:
                            s2.f.assume_eq0(sub(b, MAGIC[mm]))
                        else:
                            if s2.f.res(b) == MAGIC[mm]:
                                continue
                            s2.f.assume_ne0(sub(b, MAGIC[mm]))
                    except Infeasible:
                        continue
                    if eq:
                        todo.append((s2, mm + 1, k + 1, org))
                    else:
                        todo.append((s2, 0, k + 1, first + k + 1))
            else:
                todo.append((s, mm + 1, k + 1, org))

    def probe(self, st, m, org, where):
        """From spec position m (header bytes at stream org..org+m-1) feed the
        missing bytes one by one: accepted exactly at the 12th."""
        self.nprobe += 1
        cur = [st]
        for j in range(m, HDR):
            i = org + j
            nxt = []
            for s in cur:
                s = s.fork()
                if j < 4:
                    try:
                        s.f.assume_eq0(sub(self.byte(i), MAGIC[j]))
                    except Infeasible:
                        continue
                for s2, ret in self.feed(s, i, 1, self.tag()):
                    if s2.f.res(ret) != 1:
                        self.viol('consumed', '%s: %s bytes consumed of a 1 byte chunk at header byte %d'
                                  % (where, show(s2.f.res(ret)), j))
                        return
                    v = self.msgout(s2)
                    if j < HDR - 1:
                        if v != 0:
                            self.viol('early', '%s: a message (%s) is returned after %d header bytes'
                                      % (where, show(v), j + 1))
                            return
                    nxt.append(s2)
            cur = nxt
        self.accept(cur, org, where)

    def accept(self, outs, org, where):
        """States after 12 header bytes (all allocations succeed)."""
        size = self.le(range(org + 8, org + 12))
        ident = self.le(range(org + 4, org + 8))
        I = self.I
        okd = okp = False
        pay = []
        for s in outs:
            v = self.msgout(s)
            if v == 0:
                try:
                    s3 = s.fork()
                    s3.f.assume_le0(sub(HDR + 1, s3.f.res(size)))
                    pay.append((s3, size, ident))
                    okp = True
                except Infeasible:
                    pass
                try:
                    s3 = s.fork()
                    s3.f.assume_eq0(sub(s3.f.res(size), HDR))
                    self.viol('complete', '%s: a complete message without payload is not returned' % where)
                except Infeasible:
                    pass
                continue
            okd = True
            if s.f.res(size) != HDR:
                self.viol('size', '%s: a message is returned after the header although its size may not be 12 (%s)'
                          % (where, show(s.f.res(size))))
                continue
            self.message(s, v, org, HDR, where)
        if not okd or not okp:
            self.viol('lost', '%s: a complete valid header is not recognised' % where)
        return pay

    def fld(self, s, b, sn, f):
        off, size = self.I.m.field_offset(sn, f)
        c = s.mem.get(b, {}).get(off)
        if c is None:
            return s.f.res(self.I.init_val(s, b, off, size, IR.PTR if size == 8 else ('i', 8 * size)))
        return s.f.res(c[1])

    def message(self, s, v, org, total, where):
        """The message v is complete and holds the right identity and bytes."""
        b, off = self.I.base_off(s, v)
        if b is None or off != 0 or dom.A_KEY[b][0] != 'heap':
            self.viol('msg', '%s: returned message is not an allocated message (%s)' % (where, show(v)))
            return
        ident = s.f.res(self.le(range(org + 4, org + 8)))
        if self.fld(s, b, 'pomp_msg', 'msgid') != ident:
            self.viol('msgid', '%s: message identifier %s is not the one of header bytes 4..7 (%s)' % (
                where, show(self.fld(s, b, 'pomp_msg', 'msgid')), show(ident)))
        if not s.f.prove_le(1, self.fld(s, b, 'pomp_msg', 'finished')):
            self.viol('finished', '%s: returned message is not marked finished' % where)
        bb = self.fld(s, b, 'pomp_msg', 'buf')
        if not isinstance(bb, Lin):
            self.viol('buffer', '%s: returned message has no buffer' % where)
            return
        bb = self.I.base_off(s, bb)[0]
        ln = self.fld(s, bb, 'pomp_buffer', 'len')
        if s.f.res(sub(ln, total)) != 0 and not (s.f.prove_le(ln, total) and s.f.prove_le(total, ln)):
            self.viol('length', '%s: returned message holds %s bytes instead of %s' % (where, show(ln), show(total)))
        if total == HDR:
            d = self.I.base_off(s, self.fld(s, bb, 'pomp_buffer', 'data'))[0]
            for i in range(HDR):
                c = s.mem.get(d, {}).get(i)
                x = None
                if c is not None and c[0] == 1:
                    x = s.f.res(c[1])
                if x != s.f.res(self.byte(org + i)):
                    self.viol('header bytes', '%s: byte %d of the returned message is %s instead of the received one'
                              % (where, i, show(x) if x is not None else 'not set'))
                    break
        return bb

    def run(self):
        I = self.I
        st0 = self.start()
        self.probe(st0, 0, 1000, 'fresh decoder')
        # every prefix of a header, every small chunk after it
        prefix = [st0]
        states = 0
        for m in range(0, HDR):
            sizes = [c for c in (1, 2, 3, 4, 8, 11) if m + c <= HDR - 1 and (m >= 4 or c <= 3)]
            base = prefix[:1]
            for c in sizes:
                for s in base:
                    for s2, ret in self.feed(s, m, c, self.tag()):
                        states += 1
                        w = '%d header bytes then a chunk of %d' % (m, c)
                        if s2.f.res(ret) != c:
                            self.viol('consumed', '%s: %s bytes consumed' % (w, show(s2.f.res(ret))))
                            continue
                        if self.msgout(s2) != 0:
                            self.viol('early', '%s: message pointer is %s instead of NULL'
                                      % (w, show(self.msgout(s2))))
                            continue
                        for s3, mm, org in self.classify(s2, m, m, c):
                            self.probe(s3, mm, org if mm else 2000 + 20 * m, w)
            if m == 1 and self.rep.viol:
                return states
            for s in base:
                self.rest(s, m)
            # advance the prefix along matching bytes
            nxt = []
            for s in prefix[:1]:
                s = s.fork()
                if m < 4:
                    s.f.assume_eq0(sub(self.byte(m), MAGIC[m]))
                if m == HDR - 1:
                    self.last(s, m)
                else:
                    nxt = [x for x, r in self.feed(s, m, 1, self.tag())]
            if m < HDR - 1 and not nxt:
                self.viol('lost', 'no outcome after %d header bytes' % (m + 1))
                return states
            prefix = nxt
        return states

    def last(self, s, m):
        """12th header byte: allocation failures, bad sizes, payload."""
        size = self.le(range(8, 12))
        # allocation failures
        k = 0
        while k < 8:
            before = self.rule.nalloc
            hit = False
            for s2, ret in self.feed(s, m, 1, self.tag(), fail=k):
                n = len([x for x in s2.rs if x == 'alloc'])
                if n <= k:
                    continue
                hit = True
                if self.msgout(s2) != 0:
                    self.viol('early', 'allocation %d fails: a message is returned' % k)
                else:
                    self.probe(s2, 0, 3000 + 20 * k, 'allocation %d failed during a header' % (k + 1))
            if not hit:
                break
            k += 1
        self.nfail = k
        if k == 0:
            raise run.Broken('no allocation found when a header completes')
        # success
        outs = self.feed(s, m, 1, self.tag())
        for s2, ret in outs:
            try:
                s3 = s2.fork()
                s3.f.assume_le0(sub(s3.f.res(size), HDR - 1))
            except Infeasible:
                continue
            if self.msgout(s3) != 0:
                self.viol('bad size', 'a header with a size below 12 gives a message')
            else:
                self.probe(s3, 0, 4000, 'header with a size below 12')
        pay = self.accept([x for x, r in outs], 0, 'one byte chunks')
        # reuse of a released message structure
        for s2, ret in outs:
            v = self.msgout(s2)
            if v != 0:
                self.probe(s2, 0, 5000, 'after a message was returned')
                for s3, r in self.I.step(s2.fork(), 'pomp_prot_release_msg', [self.prot, v], self.tag()):
                    self.probe(s3, 0, 6000, 'after a returned message was released')
        self.npay = len(pay)
        for s2, size, ident in pay:
            self.payload(s2, size, 0)

    def rest(self, st, m):
        """The chunk that completes the header also carries payload."""
        k = HDR - m
        T = av(atom(('scn', 'tlen', m), 'int', k + 1, (1 << 31) - 1))
        c = atom(('scn', 'tchunk', m), 'obj', info={'size': T, 'chunk': ('t', m)})
        s = st.fork()
        for i in range(k):
            s.wcells(c)[i] = (1, self.byte(m + i))
        for i in range(m, 4):
            s.f.assume_eq0(sub(self.byte(i), MAGIC[i]))
        size = self.le(range(8, 12))
        s.f.assume_le0(sub(HDR + 1, size))
        got = 0
        for s2, ret in self.call(s, c, T, self.tag()):
            w = '%d header bytes then a chunk with the rest and payload' % m
            ret, v = s2.f.res(ret), self.msgout(s2)
            rem = sub(s2.f.res(size), m)
            want = s2.f.res(T) if v == 0 else rem
            if v != 0:
                got += 1
                self.message(s2, v, 0, s2.f.res(size), w)
            if s2.f.res(sub(ret, want)) != 0:
                self.viol('span consumed', '%s: %s bytes consumed instead of %s' % (w, show(ret), show(want)))
                continue
            mine = [x for x in s2.rs if x != 'alloc' and s2.f.res(x[4]) == k]
            if len(mine) != 1 or s2.f.res(mine[0][2]) != HDR or \
                    s2.f.res(sub(mine[0][5], sub(want, k))) != 0:
                self.viol('span payload', '%s: payload bytes are not all copied behind the header (%s)' % (
                    w, ['%s bytes to %s' % (show(x[5]), show(x[2])) for x in mine]))
        if not got:
            self.viol('span end', 'a message received in one chunk is never returned')
        self.nspan = getattr(self, 'nspan', 0) + 1

    def chunk(self, name):
        L = av(atom(('scn', 'len', name), 'int', 1, (1 << 31) - 1))
        c = atom(('scn', 'pchunk', name), 'obj', info={'size': L, 'chunk': ('p', name)})
        return c, L

    def payload(self, st, size, n):
        done = [(st, HDR, (), 0)]
        deliver = partial = 0
        while done:
            s, p, copies, n = done.pop()
            c, L = self.chunk(n)
            for s2, ret in self.call(s.fork(), c, L, self.tag()):
                ret = s2.f.res(ret)
                v = self.msgout(s2)
                size2 = s2.f.res(size)
                mine = [x for x in s2.rs if x != 'alloc']
                w = 'payload chunk %d' % (n + 1)
                rem = sub(size2, s2.f.res(p))
                if v == 0:
                    partial += 1
                    if sub(ret, L) != 0 and s2.f.res(sub(ret, L)) != 0:
                        self.viol('payload consumed', '%s: %s bytes consumed of %s although the message is not '
                                  'complete' % (w, show(ret), show(L)))
                        continue
                    s3 = s2.fork()
                    try:
                        s3.f.assume_le0(sub(rem, L))
                        s3.f.assume_eq0(sub(rem, L))
                        done_may = True
                    except Infeasible:
                        done_may = False
                    if done_may or not s2.f.prove_le(L, rem):
                        self.viol('payload end', '%s: no message is returned although its last byte may have been '
                                  'received' % w)
                        continue
                    total = L
                else:
                    deliver += 1
                    if s2.f.res(sub(ret, rem)) != 0:
                        self.viol('payload consumed', '%s: %s bytes consumed instead of the %s missing ones'
                                  % (w, show(ret), show(rem)))
                        continue
                    total = rem
                bad = None
                if len(mine) != 1:
                    bad = '%d copies' % len(mine)
                else:
                    _, db, do, sb, so, nn = mine[0]
                    if sb != c or so != 0:
                        bad = 'copied from offset %s' % show(so)
                    elif s2.f.res(sub(do, s2.f.res(p))) != 0:
                        bad = 'copied to offset %s instead of %s' % (show(do), show(s2.f.res(p)))
                    elif s2.f.res(sub(nn, s2.f.res(total))) != 0:
                        bad = '%s bytes copied instead of %s' % (show(nn), show(s2.f.res(total)))
                if bad:
                    self.viol('payload bytes', '%s: %s' % (w, bad))
                    continue
                if v == 0:
                    if n < 1:
                        done.append((s2, add(p, L), copies, n + 1))
                else:
                    bb = self.message(s2, v, 0, size2, w)
                    if bb is not None:
                        d = self.I.base_off(s2, self.fld(s2, bb, 'pomp_buffer', 'data'))[0]
                        if mine[0][1] != d:
                            self.viol('payload bytes', '%s: bytes copied outside the returned message' % w)
                    self.probe(s2, 0, 7000 + 20 * n, 'after a message with payload')
        if not deliver:
            self.viol('payload end', 'a message with payload is never returned')
        self.deliver, self.partial = deliver, partial


def check(pid):
    rep = run.Report(pid)
    _, info = run.load()
    p = P(rep)
    try:
        states = p.run()
    except interp.NoProgress as e:
        rep.violation('progress', 'decoding hangs: %s' % e)
        states = 0
    except interp.AnalysisError as e:
        raise run.Broken(str(e))
    if not rep.viol and (p.nprobe < 60 or p.npay == 0 or p.nfail < 2):
        raise run.Broken('scenario exploration too small')
    rep.cov = {
        'explanation': 'product of the framing automaton with the abstractly interpreted decoder: from every header '
                       'position and every chunk outcome the decoder is shown to accept exactly the remaining header '
                       'bytes; payload chunks of unknown size are accounted and copied exactly; allocation failures '
                       'and bad sizes return to the start position',
        'product_states': states, 'decode_calls_interpreted': p.nfeed, 'outcomes': p.nout,
        'acceptance_probes': p.nprobe, 'header_and_payload_chunks': getattr(p, 'nspan', 0), 'allocation_failure_points': getattr(p, 'nfail', 0),
        'functions_analysed': len(p.I.visited_fns), 'paths': p.I.stats['paths'],
        'samples': ['2 header bytes then a chunk of 2', 'allocation 1 failed during a header', 'payload chunk 2'],
    }
    rep.assume = ['chunk sizes inside a header: 1 to 11 bytes as enumerated; payload chunks: any size up to INT_MAX']
    return rep
