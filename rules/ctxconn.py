"""C10..C17: contexts and connections.  Scenarios made of calls of the public
API and of what the outside can do (events on descriptors, timers, idle calls,
results of system calls, what the user's callbacks do), analysed over all the
outcomes modelled in rt.py."""
import run
import rt
import canon
import dom
import interp
import ir as IR
from dom import *
from rt import get, put, items, atom_of, IN, OUT, ERR, HUP

CONNECTED, DISCONNECTED, MSG = 0, 1, 2
ST_OK, ST_ERROR, ST_ABORTED, ST_EMPTY = 1, 2, 4, 8
NAMES = {CONNECTED: 'CONNECTED', DISCONNECTED: 'DISCONNECTED', MSG: 'MSG'}

UD = atom(('user', 'userdata'), 'ptr', 4096, INF)


def ufn(name):
    return av(atom(('user', name), 'ptr', 4096, INF))


def frame(msgid, payload=()):
    n = 12 + len(payload)
    return [0x50, 0x4f, 0x4d, 0x50] + list(msgid.to_bytes(4, 'little')) + list(n.to_bytes(4, 'little')) + \
        list(payload)


FDARG = [0x0d, 0x77, 0x66, 0x55, 0x44]


def last(st):
    t = [x[1:] for x in st.steps() if x[0] == '!']
    return ''.join(', ' + x for x in t[-3:])


class CC(rt.RT):
    """The user: callbacks, what they are told, what they do."""

    def __init__(self, *a, **k):
        rt.RT.__init__(self, *a, **k)
        self.skip = {'pomp_log', '__errno_location0'}
        self.react = {}          # event name -> list of reactions
        self.stream = ()         # messages: (bytes, id, number of descriptors)
        self.israw = False
        self.sendcb = True

    # ---- the byte stream a peer sends
    def bounds(self):
        r, p = [], 0
        for data, mid, nfd in self.stream:
            r.append((p, p + len(data), mid, nfd))
            p += len(data)
        return r, p

    def cuts(self, st, k):
        p = get(st, 'rxpos', 0)
        bs, tot = self.bounds()
        flat = [x for m in self.stream for x in m[0]]
        if p >= tot or k >= self.maxread:
            return []
        lim = tot
        for s, e, mid, nfd in bs:
            if nfd and p <= s:
                # a read does not go beyond the end of the first part with descriptors
                lim = e
                break
        opts = {lim}
        if self.mode == 'all':
            for s, e, mid, nfd in bs:
                for q in (s + 3, s + 12, e, e - 2) if self.kind != 'dgram' else (e,):
                    if p < q <= lim:
                        opts.add(q)
        opts = sorted(opts)
        if len(opts) > self.maxcut:
            opts = opts[:self.maxcut // 2] + opts[-(self.maxcut - self.maxcut // 2):]
        return [flat[p:q] for q in opts]
    maxcut = 4

    def newstream(self, st):
        for k in ('rxpos', 'nmsg', 'lied'):
            put(st, k, None)
        for k, v in items(st, 'rxfds'):
            put(st, ('rxfds',) + k, None)

    def period(self, st):
        """The peer sends the same messages again and again."""
        if not self.stream:
            return
        bs, tot = self.bounds()
        n = get(st, 'nmsg', 0)
        if get(st, 'lied'):
            n = sum(1 for s, e, m, k in bs if e <= get(st, 'rxpos', 0))
        for k, v in items(st, 'rxfds'):
            if k[0] < n:
                put(st, ('rxfds',) + k, None)
        if get(st, 'rxpos', 0) == tot and n == len(bs):
            put(st, 'rxpos', None)
            put(st, 'nmsg', None)

    def ctl_for(self, st, p, q):
        """descriptors that come with bytes p..q"""
        n = 0
        for s, e, mid, nfd in self.bounds()[0]:
            if p <= s < q:
                n += nfd
        return n

    # ---- what callbacks are told
    def user(self, I, st, name, args, ins):
        a = [st.f.res(x) for x in args]
        ctx = get(st, 'ctx')
        if name in ('event', 'raw', 'send', 'sock'):
            if ctx is not None and a[0] != ctx:
                self.bad('proto', 'wrong context given to the %s callback' % name,
                         '%s: the callback gets another context' % self.at(I, ins))
            if a[-1] != av(UD):
                self.bad('proto', 'wrong userdata given to the %s callback' % name,
                         '%s: the callback gets another userdata' % self.at(I, ins))
        if name == 'sock':
            x, s = self.fdstate(I, st, a[1], ins, 'socket callback')
            put(st, ('told', x), 1)
            return self.reactions(I, st, 'sock', None, None, ins)
        if name == 'event':
            return self.event(I, st, a, ins)
        if name == 'raw':
            return self.rawdata(I, st, a, ins)
        if name == 'send':
            return self.sent(I, st, a, ins)
        return [(st, None)]

    def conn_of(self, I, st, conn, ins, what):
        b, off = I.base_off(st, conn)
        if b is None or off != 0:
            self.bad('proto', 'no connection given to %s' % what, '%s: the %s callback gets no connection (%s)' % (
                self.at(I, ins), what, show(conn)))
            return None
        if get(st, ('h', b)) != 'freed' and get(st, ('h', b)) is not None:
            return b
        self.bad('mem', 'dead connection given to %s' % what, '%s: the %s callback gets a connection that was freed' % (
            self.at(I, ins), what))
        return None

    def fd_of(self, I, st, conn, ins):
        f = get(st, ('cfd', I.base_off(st, conn)[0]))
        if f is not None:
            return f
        outs = self.invoke(I, st, 'pomp_conn_get_fd', [conn], 'getfd', ins)
        if len(outs) != 1:
            raise interp.AnalysisError('pomp_conn_get_fd has %d outcomes' % len(outs))
        f = atom_of(outs[0][0], outs[0][1])
        return f

    def event(self, I, st, a, ins):
        ev, conn, msg = a[1], a[2], a[3]
        if not isinstance(ev, int):
            raise interp.AnalysisError('event is not known')
        b = self.conn_of(I, st, conn, ins, NAMES.get(ev, 'event'))
        if b is None:
            return []
        cs = get(st, ('cst', b))
        nm = NAMES.get(ev, '?')
        if ev == CONNECTED:
            if cs is not None:
                self.bad('proto', 'CONNECTED twice', '%s: CONNECTED is notified again for a connection' % self.at(I, ins))
            self.ok('proto')
            if self.kind == 'dgram':
                self.bad('proto', 'CONNECTED for dgram', '%s: CONNECTED is notified by a dgram context' %
                         self.at(I, ins))
            others = [k for k, v in items(st, 'cst') if v == 'up']
            if self.kind == 'client' and others:
                self.bad('proto', 'two connections of a client', '%s: a client has two connections at once' %
                         self.at(I, ins))
            f = self.fd_of(I, st, conn, ins)
            put(st, ('cst', b), 'up')
            put(st, ('cfd', b), f)
            if self.stream:
                self.newstream(st)
            put(st, 'conns', get(st, 'conns', ()) + (b,))
            if f is None or get(st, ('fd', f)) in (None, 'closed'):
                self.bad('fd', 'connection without descriptor', '%s: CONNECTED is notified for a connection whose '
                         'descriptor is not open' % self.at(I, ins))
            if msg != 0:
                self.bad('proto', 'message with CONNECTED', '%s: CONNECTED comes with a message' % self.at(I, ins))
            return self.reactions(I, st, 'conn', conn, None, ins)
        if self.kind != 'dgram' and cs != 'up':
            self.bad('proto', '%s %s' % (nm, 'before CONNECTED' if cs is None else 'after DISCONNECTED'),
                     '%s: %s is notified for a connection %s' % (
                         self.at(I, ins), nm, 'not yet CONNECTED' if cs is None else 'already DISCONNECTED'))
        self.ok('proto')
        if ev == DISCONNECTED:
            if self.kind == 'dgram':
                self.bad('proto', 'DISCONNECTED for dgram', '%s: DISCONNECTED is notified by a dgram context' %
                         self.at(I, ins))
            put(st, ('cst', b), 'down')
            put(st, 'conns', tuple(x for x in get(st, 'conns', ()) if x != b))
            return self.reactions(I, st, 'disc', conn, None, ins)
        # message
        if self.israw:
            self.bad('proto', 'MSG for raw', '%s: MSG is notified by a raw context' % self.at(I, ins))
        if msg == 0:
            self.bad('proto', 'MSG without message', '%s: MSG is notified without a message' % self.at(I, ins))
            return []
        f = get(st, ('cfd', b))
        if self.kind == 'dgram':
            f = self.fd_of(I, st, conn, ins)
            put(st, ('cfd', b), f)
        if self.stream:
            k = get(st, 'nmsg', 0)
            (s0, r), = self.invoke(I, st, 'pomp_msg_get_id', [msg], 'getid', ins)
            st = s0
            bs, _ = self.bounds()
            pos = get(st, 'rxpos', 0)
            if k >= len(bs) or bs[k][1] > pos:
                self.bad('rx', 'message not received', '%s: a message is notified that was not completely received' %
                         self.at(I, ins), st=st)
            elif st.f.res(r) != bs[k][2]:
                self.bad('rx', 'messages lost or out of order', '%s: message %s is notified, %d is the next received' % (
                    self.at(I, ins), show(st.f.res(r)), bs[k][2]), st=st)
            else:
                self.ok('rx')
            put(st, 'nmsg', k + 1)
            if k < len(bs) and bs[k][3] and self.family == rt.AF_UNIX:
                st = self.msgfds(I, st, msg, k, bs[k][3], ins)
        return self.reactions(I, st, 'msg', conn, msg, ins)

    def msgfds(self, I, st, msg, k, n, ins):
        """The descriptors of a message read by the user."""
        (st, dec), = [x for x in self.invoke(I, st, 'pomp_decoder_new', [], 'dec', ins) if x[1] != 0][:1]
        (st, r), = self.invoke(I, st, 'pomp_decoder_init', [dec, msg], 'deci', ins)
        got = get(st, ('rxfds', k), ())
        for i in range(n):
            out = atom(('user', 'fdout', i), 'obj', info={'size': 4})
            st.wcells(out).clear()
            outs = self.invoke(I, st, 'pomp_decoder_read_fd', [dec, av(out)], 'cfd%d' % i, ins)
            if len(outs) != 1:
                raise interp.AnalysisError('pomp_decoder_read_fd: %d outcomes' % len(outs))
            st, r = outs[0]
            c = st.mem.get(out, {}).get(0)
            v = st.f.res(c[1]) if c and st.f.res(r) == 0 else None
            a = atom_of(st, v) if v is not None else None
            if v is None:
                if not get(st, 'lied'):
                    self.bad('rxfd', 'descriptor %d of a message' % i, '%s: descriptor %d of message %d can not be read' % (
                        self.at(I, ins), i, k), st=st)
                break
            if a is None or get(st, ('fd', a)) in (None, 'closed'):
                self.bad('rxfd', 'descriptor %d of a message is closed' % i,
                         '%s: descriptor %d of message %d is %s, not an open descriptor received from the peer' % (
                             self.at(I, ins), i, k, show(v)), st=st)
            elif not get(st, 'lied') and (i >= len(got) or a != got[i]):
                self.bad('rxfd', 'descriptor %d of a message' % i, '%s: descriptor %d of message %d is not the one '
                         'received with it' % (self.at(I, ins), i, k), st=st)
            else:
                self.ok('rxfd')
        (st, _), = self.invoke(I, st, 'pomp_decoder_destroy', [dec], 'decd', ins)
        return st

    def m_recvmsg(self, I, st, args, ins):
        outs = []
        p = get(st, 'rxpos', 0)
        k = len(self.bounds()[0])
        for s, r in self._recvmsg(I, st, args, ins):
            outs.append((s, r))
        return outs

    def _recvmsg(self, I, st, args, ins):
        if not self.stream:
            return rt.RT.m_recvmsg(self, I, st, args, ins)
        # descriptors are decided by the position in the stream
        p = get(st, 'rxpos', 0)
        res = []
        outs = self.iov(I, st, args, ins)
        for s, r in outs:
            if not isinstance(r, int) or r <= 0:
                if r == 0:
                    self.setctl(I, s, args, (), ins)
                res.append((s, r))
                continue
            q = get(s, 'rxpos', 0)
            n = self.ctl_for(s, p, q)
            alts = [n]
            if n and self.lie and self.mode == 'all' and get(s, 'lied', 0) < 1:
                # a peer may send more or fewer descriptors than its messages say
                alts += [n - 1, n + 1]
            elif self.mode == 'all' and self.lie and get(s, 'lied', 0) < self.lie:
                alts += [1]
            for m in alts:
                x = s.fork()
                if m != n:
                    put(x, 'lied', get(x, 'lied', 0) + 1)
                fds = self.setctl(I, x, args, (('fds', m),) if m else (), ins)
                for j, (b, e, mid, nfd) in enumerate(self.bounds()[0]):
                    if p <= b < q and nfd:
                        put(x, ('rxfds', j), fds if get(x, 'lied', 0) == 0 or m == n else fds)
                res.append((x, r))
        return res
    lie = 0

    def rawdata(self, I, st, a, ins):
        conn, buf = a[1], a[2]
        b = self.conn_of(I, st, conn, ins, 'raw')
        if b is None:
            return []
        if self.kind != 'dgram' and get(st, ('cst', b)) != 'up':
            self.bad('proto', 'data outside of a connection', '%s: raw data notified before CONNECTED or after '
                     'DISCONNECTED' % self.at(I, ins))
        if self.kind == 'dgram' and get(st, ('cfd', b)) is None:
            put(st, ('cfd', b), self.fd_of(I, st, conn, ins))
        self.ok('proto')
        o = [atom(('user', 'out', i), 'obj', info={'size': 8}) for i in range(3)]
        for x in o:
            st.wcells(x).clear()
        outs = self.invoke(I, st, 'pomp_buffer_get_cdata', [buf] + [av(x) for x in o], 'cdata', ins)
        (st, r), = outs
        rx = get(st, 'rx')
        d = st.mem.get(o[0], {}).get(0, (0, 0))[1]
        n = st.mem.get(o[1], {}).get(0, (0, 0))[1]
        if rx is None:
            self.bad('rx', 'data notified twice', '%s: data is notified that was not read or was notified already' %
                     self.at(I, ins), st=st)
        elif I.base_off(st, d) != (rx[0], rx[1]) or st.f.res(sub(n, rx[2])) != 0:
            self.bad('rx', 'wrong data notified', '%s: the buffer notified does not hold the bytes just read' %
                     self.at(I, ins), st=st)
        else:
            self.ok('rx')
        put(st, 'rx', None)
        return self.reactions(I, st, 'raw', conn, buf, ins)

    def rd(self, I, st, args, ins, base, n, ctl=None):
        if self.israw and get(st, 'rx') is not None:
            self.bad('rx', 'data dropped', '%s: more data is read although the previous one was not notified' %
                     self.at(I, ins), st=st)
        bb, _ = I.base_off(st, base)
        if bb is not None and bb in get(st, 'hd', ()):
            self.bad('rx', 'data of the user overwritten', '%s: new data is read into a buffer the user has a reference '
                     'to' % self.at(I, ins), st=st)
        x = atom_of(st, args[0])
        if any(f == x and get(st, ('susp',) + b) for b, f in items(st, 'cfd')):
            self.bad('rx', 'read while suspended', '%s: data is read from a connection whose reading is suspended' %
                     self.at(I, ins), st=st)
        return rt.RT.rd(self, I, st, args, ins, base, n)

    # ---- sends
    def qpush(self, I, st, f, data, ln, fds, dg=False, dest=None):
        put(st, ('q', f), get(st, ('q', f), ()) + ((data, ln, 0, 'try', fds, dg),))

    def qresult(self, I, st, f, r, ins, what):
        q = get(st, ('q', f), ())
        k = len(q) - 1
        while k >= 0 and q[k][3] not in ('try', 'try-done', 'try-done-empty'):
            k -= 1
        if k < 0:
            return
        e = q[k]
        r = st.f.res(r)
        if r == 0:
            if e[3] == 'try':
                q = q[:k] + (e[:3] + ('acc',) + e[4:],) + q[k + 1:]
            else:
                q = q[:k] + (e[:3] + (e[3][4:],) + e[4:],) + q[k + 1:]
            if not self.sendcb and q[k][3].startswith('done'):
                q = q[:k] + q[k + 1:]
        else:
            if e[3] != 'try' and not get(st, 'oom'):
                self.bad('send', 'failure of a complete send', '%s: %s fails although all the bytes were written' % (
                    what, 'the send'), st=st)
            elif st.f.res(e[2]) != 0 and not get(st, 'oom'):
                self.bad('bytes', 'partial message', '%s fails after part of the message was written' % what, st=st)
            q = q[:k] + q[k + 1:]
        put(st, ('q', f), q or None)

    def completed(self, st, a, i):
        q = get(st, ('q', a), ())
        e = q[i]
        last = all(x[3] not in ('try', 'acc') for x in q[i + 1:])
        new = ('try-' if e[3] == 'try' else '') + ('done-empty' if last else 'done')
        q = q[:i] + (e[:3] + (new,) + e[4:],) + q[i + 1:]
        if not self.sendcb and not new.startswith('try'):
            q = q[:i] + q[i + 1:]
        put(st, ('q', a), q or None)

    def bad(self, cat, key, text, st=None):
        if st is not None and cat in ('send', 'bytes', 'rx', 'rxfd') and get(st, 'oom'):
            return
        rt.RT.bad(self, cat, key, text)

    def sent(self, I, st, a, ins):
        conn, buf, status = a[1], a[2], a[3]
        b = self.conn_of(I, st, conn, ins, 'send')
        if get(st, 'oom'):
            return self.reactions(I, st, 'sent', conn, buf, ins)
        if b is None:
            return []
        f = get(st, ('cfd', b))
        if f is None:
            f = self.fd_of(I, st, conn, ins)
            put(st, ('cfd', b), f)
        q = get(st, ('q', f), ())
        if not isinstance(status, int):
            raise interp.AnalysisError('send status is not known')
        if not q:
            self.bad('send', 'completion without send', '%s: a send is reported that was reported already or never '
                     'accepted' % self.at(I, ins), st=st)
        else:
            e = q[0]
            (s1, d) = self.bufdata(I, st, buf, ins)
            st = s1
            if d is not None and e[0] is not None and d != e[0]:
                self.bad('send', 'completions out of order', '%s: the send reported is not the oldest one' %
                         self.at(I, ins), st=st)
            kind = e[3]
            if kind.startswith('try-'):
                kind = kind[4:]
            lastunf = all(x[3] not in ('try', 'acc') for x in q[1:])
            want = {'done': (ST_OK, 0), 'done-empty': (ST_OK, ST_EMPTY),
                    'acc': (ST_ABORTED, ST_EMPTY if lastunf else 0),
                    'try': (ST_ABORTED, ST_EMPTY if lastunf else 0)}[kind]
            if status & 7 != want[0]:
                self.bad('send', 'status of a send', '%s: a send whose bytes were %swritten is reported with status %d' % (
                    self.at(I, ins), '' if want[0] == ST_OK else 'not all ', status), st=st)
            elif status & ST_EMPTY != want[1]:
                self.bad('send', 'queue empty', '%s: QUEUE_EMPTY is %sreported although %s' % (
                    self.at(I, ins), '' if status & ST_EMPTY else 'not ',
                    'nothing is queued' if want[1] else 'other sends are queued'), st=st)
            elif status & ~15:
                self.bad('send', 'unknown status', '%s: status %d' % (self.at(I, ins), status), st=st)
            else:
                self.ok('send')
            if a[4] != 0:
                self.bad('send', 'cookie', '%s: the cookie is not NULL' % self.at(I, ins), st=st)
            put(st, ('q', f), q[1:] or None)
        return self.reactions(I, st, 'sent', conn, buf, ins)

    def bufdata(self, I, st, buf, ins):
        o = [atom(('user', 'out', i), 'obj', info={'size': 8}) for i in range(3)]
        for x in o:
            st.wcells(x).clear()
        b, off = I.base_off(st, buf)
        if b is None or get(st, ('h', b)) in (None, 'freed'):
            self.bad('mem', 'dead buffer given to the send callback', '%s: the send callback gets a buffer that was '
                     'freed' % self.at(I, ins))
            return st, None
        outs = self.invoke(I, st, 'pomp_buffer_get_cdata', [buf] + [av(x) for x in o], 'cdata', ins)
        (st, r), = outs
        d = st.mem.get(o[0], {}).get(0, (0, 0))[1]
        return st, I.base_off(st, d)[0]

    # ---- what callbacks do
    def reactions(self, I, st, what, conn, obj, ins):
        opts = self.react.get(what, ())
        out = [(st.fork(), None)] if opts else [(st, None)]
        if get(st, 'nact', 0) >= self.maxact:
            return out
        for o in opts:
            if 'send' in o and sum(len(q) for _, q in items(st, 'q')) >= self.maxq:
                continue
            s = st.fork()
            put(s, 'nact', get(s, 'nact', 0) + 1)
            s.trace = (s.trace, '!%s in %s' % (o, what))
            for s2 in self.do(I, s, o, conn, obj, 'in', ins):
                out.append((s2, None))
        return out

    def do(self, I, st, o, conn, obj, tag, ins):
        """The user does o; list of states."""
        def call(fn, args, t=''):
            if ins is not None:
                return self.invoke(I, st, fn, args, tag + o + t, ins)
            return I.step(st, fn, args, (self.tagp, tag, o, t))
        incb = ins is not None
        ctx = get(st, 'ctx')
        out = []
        if o == 'stop':
            started = get(st, 'started')
            if incb:
                put(st, 'instop', 1)
            for s, r in call('pomp_ctx_stop', [ctx]):
                put(s, 'instop', None)
                r = s.f.res(r)
                if r == 0:
                    if started:
                        put(s, 'started', None)
                elif not get(s, 'oom'):
                    self.bad('stop', 'stop fails', 'pomp_ctx_stop fails with %s%s' % (
                        show(r), ' in a callback' if incb else ''))
                out.append(s)
            return out
        if o == 'disconnect':
            b = I.base_off(st, conn)[0]
            for s, r in call('pomp_conn_disconnect', [conn]):
                put(s, ('disc', b), 1)
                out.append(s)
            return out
        if o in ('send', 'sendmsg', 'sendv', 'sendfd'):
            b = I.base_off(st, conn)[0]
            f = get(st, ('cfd', b))
            if f is None:
                f = self.fd_of(I, st, conn, ins)
                put(st, ('cfd', b), f)
            dg = False
            if self.kind == 'dgram':
                # a reply goes to the last peer heard of
                dg = get(st, 'peer')
                if dg is None:
                    return [st]
                dg = ('to',) + dg
            if o == 'sendv':
                self.qpush(I, st, f, None, None, (), dg)
                outs = call('pomp_conn_send', [conn, 5, 0])
            else:
                u = get(st, ('ubuf', {'send': 'raw', 'sendmsg': 'msg', 'sendfd': 'fd'}[o]))
                if u is None:
                    return [st]
                obj2, data, ln, fds = u
                self.qpush(I, st, f, data, ln, fds, dg)
                outs = call('pomp_conn_send_msg' if o == 'sendmsg' else 'pomp_conn_send_raw_buf', [conn, obj2])
            for s, r in outs:
                self.qresult(I, s, f, r, ins, o)
                out.append(s)
            return out
        if o in ('sendto', 'sendmsgto'):
            fs = [k[0] for k, v in items(st, 'fd') if v != 'closed' and v[0] == 'dgram' and
                  get(st, ('reg', k[0])) is not None]
            if not fs:
                return [st]
            obj2, data, ln, fds = get(st, ('ubuf', 'raw' if o == 'sendto' else 'msg'))
            n = {rt.AF_UNIX: 110, rt.AF_INET: 16}[self.family]
            a = atom(('ext', 'destaddr', self.family), 'obj', info={'size': n})
            x = av(atom(('ext', 'dest')))
            c = st.wcells(a)
            c.clear()
            c[0], c[2] = (2, self.family), (n - 2, x)
            self.qpush(I, st, fs[0], data, ln, fds, ('to', self.family, x, n))
            for s, r in call('pomp_ctx_send_raw_buf_to' if o == 'sendto' else 'pomp_ctx_send_msg_to',
                             [ctx, obj2, av(a), n]):
                self.qresult(I, s, fs[0], r, ins, o)
                out.append(s)
            return out
        if o in ('ctxsend', 'ctxsendmsg'):
            u = get(st, ('ubuf', 'raw' if o == 'ctxsend' else 'msg'))
            obj2, data, ln, fds = u
            fs = []
            for b in get(st, 'conns', ()):
                f = get(st, ('cfd', b))
                fs.append(f)
                self.qpush(I, st, f, data, ln, fds)
            for s, r in call('pomp_ctx_send_raw_buf' if o == 'ctxsend' else 'pomp_ctx_send_msg', [ctx, obj2]):
                for f in fs:
                    bad = get(s, ('werr', f)) or get(s, ('shut', f)) or get(s, 'oom')
                    if not bad and self.kind == 'client' and s.f.res(r) != 0:
                        self.bad('send', 'send refused', 'a send on a connected context fails with %s' % show(r), st=st)
                    self.qresult(I, s, f, -1 if bad else 0, ins, o)
                out.append(s)
            return out
        if o in ('suspend', 'resume'):
            b = I.base_off(st, conn)[0]
            for s, r in call('pomp_conn_%s_read' % o, [conn]):
                if s.f.res(r) == 0:
                    put(s, ('susp', b), 1 if o == 'suspend' else None)
                out.append(s)
            return out
        if o == 'setlen':
            return [s for s, r in call('pomp_conn_set_read_buffer_len', [conn, 64])]
        if o == 'ref':
            if obj is None or get(st, 'held'):
                return []
            for s, r in call('pomp_buffer_ref', [obj]):
                put(s, 'held', get(s, 'held', ()) + (obj,))
                if ins is not None:
                    s, d = self.bufdata(I, s, obj, ins)
                    put(s, 'hd', (d,))
                out.append(s)
            return out
        if o == 'refsuspend':
            return [y for x in self.do(I, st, 'ref', conn, obj, tag, ins)
                    for y in self.do(I, x, 'suspend', conn, obj, tag, ins)]
        if o == 'unref':
            for b in get(st, 'held', ()):
                put(st, 'held', None)
                put(st, 'hd', None)
                return [s for s, r in call('pomp_buffer_unref', [b])]
            for b in get(st, 'heldmsg', ()):
                put(st, 'heldmsg', None)
                return [s for s, r in call('pomp_msg_destroy', [b])]
            return []
        if o == 'destroy':
            k = canon.canon(I, st, 0).sig()
            for s, r in call('pomp_ctx_destroy', [ctx]):
                if s.f.res(r) == 0:
                    self.bad('stop', 'destroyed while in use', 'pomp_ctx_destroy succeeds on a context that was not '
                             'stopped')
                elif canon.canon(I, s, 0).sig() != k:
                    self.bad('stop', 'refused destroy has effects', 'a refused pomp_ctx_destroy changes the context')
                else:
                    self.ok('stop')
            return []
        if o == 'keepmsg':
            if get(st, 'heldmsg'):
                return []
            for s, r in call('pomp_msg_new_copy', [obj]):
                if s.f.res(r) != 0:
                    put(s, 'heldmsg', get(s, 'heldmsg', ()) + (s.f.res(r),))
                out.append(s)
            return out
        raise run.Broken('reaction ' + o)
    tagp = 0
    maxq = 99

    def m_free(self, I, st, args, ins):
        b, off = I.base_off(st, st.f.res(args[0])) if st.f.res(args[0]) != 0 else (None, None)
        if b is not None and get(st, ('cst', b)) == 'up':
            self.bad('proto', 'connection freed without DISCONNECTED', '%s: a connection is freed without having been '
                     'notified as DISCONNECTED' % self.at(I, ins))
        return rt.RT.m_free(self, I, st, args, ins)


class W:
    """A scenario: a set of states reached by the same script."""

    def __init__(self, rep, kind, raw=False, family=rt.AF_INET, sendcb=True, sockcb=False, path=True, extloop=True,
                 cfg='fd'):
        self.rep = rep
        self.r = CC(family)
        self.r.kind = kind
        self.r.israw = raw
        self.r.sendcb = sendcb
        self.kind, self.raw, self.family, self.sendcb, self.sockcb = kind, raw, family, sendcb, sockcb
        self.path, self.extloop = path, extloop
        self.I = interp.Interp(run.M, self.r)
        self.I.gvals = run.gvals(cfg, self.I)
        self.r.I = self.I
        self.r.chunks = None if raw else self.chunks
        st = interp.State()
        st.rs = frozenset()
        self.sts = [st]
        self.n = 0
        self.label = ''
        self.npaths = 0
        self.nquiet = self.nend = 0

    def chunks(self, st, k):
        if not self.r.stream:
            return []
        return self.r.cuts(st, k)

    # ---- steps
    def call1(self, st, fn, args, label=None):
        self.n += 1
        return self.I.step(st, fn, args, (self.n, fn))

    def each(self, f, *a):
        self.n += 1
        self.r.stepno = self.r.tagp = self.n
        out = {}
        for s in self.sts:
            for x in f(s.fork(), *a):
                tr = x.trace
                x = canon.canon(self.I, x, self.n)
                x.trace = tr
                k = x.sig()
                y = out.get(k)
                if y is None:
                    out[k] = x
                else:
                    self.I.merge_into(y, x, ('each', self.n))
        self.sts = list(out.values())
        return self

    def one(self, what):
        if not self.sts:
            raise run.Broken('%s: no state left after %s' % (self.label, what))

    def setup(self):
        """new, configure"""
        def f(st):
            if self.extloop:
                loop = atom(('ext', 'loop'), 'ptr', 4096, INF)
                put(st, ('loop', av(loop)), 1)
                outs = self.I.step(st, 'pomp_ctx_new_with_loop', [ufn('event'), av(UD), av(loop)], (self.n, 'new'))
            else:
                outs = self.I.step(st, 'pomp_ctx_new', [ufn('event'), av(UD)], (self.n, 'new'))
            res = []
            for s, r in outs:
                r = s.f.res(r)
                if r == 0:
                    self.leaks(s, 'failed creation of a context')
                    continue
                put(s, 'ctx', r)
                ss = [s]
                for k, (fn, a) in enumerate(self.config()):
                    nx = []
                    for x in ss:
                        for y, v in self.I.step(x, fn, [r] + a, (self.n, fn, k)):
                            if y.f.res(v) != 0:
                                self.rep_bad('proto', 'configuration refused', '%s fails with %s' % (fn, show(v)))
                            nx.append(y)
                    ss = nx
                res += ss
            return res
        self.each(f)
        self.one('creation')
        return self

    def config(self):
        c = []
        if self.raw:
            c.append(('pomp_ctx_set_raw', [ufn('raw')]))
        if self.sendcb:
            c.append(('pomp_ctx_set_send_cb', [ufn('send')]))
        if self.sockcb:
            c.append(('pomp_ctx_set_socket_cb', [ufn('sock')]))
        return c

    def rep_bad(self, cat, key, text):
        self.r.bad(cat, key, text)

    def address(self, st):
        n = {rt.AF_UNIX: 110, rt.AF_INET: 16}[self.family]
        a = atom(('ext', 'sockaddr', self.family, self.path), 'obj', info={'size': n})
        c = st.wcells(a)
        c.clear()
        c[0] = (2, self.family)
        if self.family == rt.AF_UNIX:
            c[2] = (1, ord('/') if self.path else 0)
        return av(a), n

    def start(self, mode=0):
        fn = {'server': 'pomp_ctx_listen', 'client': 'pomp_ctx_connect', 'dgram': 'pomp_ctx_bind'}[self.kind]

        def f(st):
            a, n = self.address(st)
            args = [get(st, 'ctx'), a, n]
            name = fn
            if mode:
                name, args = 'pomp_ctx_listen_with_access_mode', args + [mode]
            out = []
            put(st, 'started', 1)
            for s, r in self.I.step(st, name, args, (self.n, fn)):
                r = s.f.res(r)
                if r != 0:
                    put(s, 'started', None)
                out.append(s)
            return out
        return self.each(f)

    def fds(self, st, kind):
        """registered descriptors of a kind, oldest first"""
        return sorted((k[0] for k, v in items(st, 'reg') if get(st, ('fd', k[0]))[0] == kind),
                      key=lambda a: (0, dom.A_KEY[a][2]) if dom.A_KEY[a][0] == 'canon' else (1, a))

    def event(self, kind, ev, which=0, raw=False):
        def f(st):
            fs = self.fds(st, kind)
            if which >= len(fs):
                return [st]
            a = fs[which]
            e, cb, ud = get(st, ('reg', a))
            rev = ev if raw else ev & (e | ERR | HUP)
            if not rev:
                return [st]
            put(st, 'reads', None)
            put(st, 'nwr', None)
            put(st, 'ctl', None)
            out = [s for s, r in self.I.step(st, cb, [av(a), rev, ud], (self.n, 'event'))]
            return out
        return self.each(f)

    def timer(self):
        def f(st):
            out = []
            ts = [(k[0], v) for k, v in items(st, 'timer') if v[0] == 'armed']
            if not ts:
                return [st]
            t, (s, cb, ud) = ts[0]
            for x, r in self.I.step(st, cb, [av(t), ud], (self.n, 'timer')):
                out.append(x)
            return out
        return self.each(f)

    def idle(self, n=1):
        """Run the oldest n idle calls."""
        for k in range(n):
            if not any(get(s, 'idle') for s in self.sts):
                break
            self.each(self.idle1)
        return self

    def idle1(self, st):
        q = get(st, 'idle', ())
        if not q:
            return [st]
        cb, ud, ck = q[0]
        put(st, 'idle', q[1:] or None)
        return [s for s, r in self.I.step(st, cb, [ud], (self.n, 'idle'))]

    def do(self, o, which=0):
        """The user does o outside of any callback."""
        def f(st):
            cs = get(st, 'conns', ())
            conn = av(cs[which]) if which < len(cs) else None
            if o not in ('stop', 'ctxsend', 'ctxsendmsg', 'sendto', 'sendmsgto', 'unref', 'destroy') and conn is None:
                return [st]
            return self.r.do(self.I, st, o, conn, None, 'out', None)
        return self.each(f)

    def mkbuf(self, name='raw', nfd=0):
        """A buffer of the user, of any length."""
        def f(st):
            ln = av(atom(('ext', 'len', name), 'int', 1, 1 << 20)) if not nfd else None
            out = []
            if name == 'msg':
                for s, m in self.I.step(st, 'pomp_msg_new', [], (self.n, 'msgnew')):
                    for s2, r in self.I.step(s, 'pomp_msg_write', [m, 42, 0], (self.n, 'msgwrite')):
                        for s3, b in self.I.step(s2, 'pomp_msg_get_buffer', [m], (self.n, 'msgbuf')):
                            s4, d, n = self.data(s3, b)
                            put(s4, ('ubuf', 'msg'), (s4.f.res(m), d, n, ()))
                            out.append(s4)
                return out
            if not nfd:
                src = atom(('ext', 'data', name), 'obj', info={'size': ln})
                outs = self.I.step(st, 'pomp_buffer_new_with_data', [av(src), ln], (self.n, 'bufnew'))
            else:
                outs = self.I.step(st, 'pomp_buffer_new', [64], (self.n, 'bufnew'))
            for s, b in outs:
                ss = [s]
                for k in range(nfd):
                    pos = atom(('ext', 'pos'), 'obj', info={'size': 8})
                    nx = []
                    for x in ss:
                        ufd = atom(('ext', 'userfd', k), 'int', 0, 1 << 20)
                        put(x, ('fd', ufd), ('user', 0, 0))
                        x.wcells(pos).clear()
                        x.wcells(pos)[0] = (8, 4 * k)
                        nx += [y for y, r in self.I.step(x, 'pomp_buffer_write_fd', [b, av(pos), av(ufd)],
                                                         (self.n, 'wfd', k)) if y.f.res(r) == 0]
                    ss = nx
                for x in ss:
                    x, d, n = self.data(x, b)
                    dups = tuple(av(k[0]) for k, v in items(x, 'fd') if v != 'closed' and v[0] == 'dup')
                    put(x, ('ubuf', name), (x.f.res(b), d, n, tuple(sorted(dups, key=lambda l: l.t[0][0]))))
                    out.append(x)
            return out
        return self.each(f)

    def data(self, st, b):
        o = [atom(('user', 'out', i), 'obj', info={'size': 8}) for i in range(3)]
        for x in o:
            st.wcells(x).clear()
        (st, r), = self.I.step(st, 'pomp_buffer_get_cdata', [b] + [av(x) for x in o], (self.n, 'cdata'))
        d = st.mem[o[0]][0][1]
        return st, self.I.base_off(st, d)[0], st.f.res(st.mem[o[1]][0][1])

    def happy(self):
        self.r.mode = 'happy'
        self.r.force = {}
        self.r.react = {}
        return self

    def all(self, react=None, maxfail=1, maxact=1, **force):
        self.r.mode = 'all'
        self.r.force = force
        self.r.react = react or {}
        self.r.maxfail, self.r.maxact = maxfail, maxact
        for s in self.sts:
            put(s, 'nfail', None)
            put(s, 'nact', None)
        return self

    # ---- states between two events
    def quiet(self):
        for st in self.sts:
            self.quiet1(st)
        return self

    def quiet1(self, st):
        r = self.r
        self.nquiet += 1
        why = '%s%s' % (self.label, last(st))
        regs = dict(items(st, 'reg'))
        for (a,), v in items(st, 'fd'):
            if v != 'closed' and v[0] in ('stream', 'peer', 'dgram') and (a,) not in regs:
                r.bad('fd', 'open descriptor out of the loop', 'after %s: a socket is open but not monitored' % why)
        if get(st, 'started'):
            armed = any(v[0] == 'armed' for k, v in items(st, 'timer'))
            kinds = [get(st, ('fd', a))[0] for (a,) in regs]
            ok = armed or any(k in ('stream', 'dgram') for k in kinds)
            if not ok:
                r.bad('alive', 'context dead', 'after %s: the %s is started but has neither a monitored socket nor an '
                      'armed timer%s' % (why, self.kind, ' (after a failure %s)' % get(st, 'errno')
                                         if get(st, 'errno') else ''))
            else:
                r.ok('alive')
            if self.kind == 'server' and not armed:
                lf = [a for (a,) in regs if get(st, ('fd', a))[0] == 'stream']
                if lf and not regs[(lf[0],)][0] & IN:
                    r.bad('alive', 'server deaf', 'after %s: incoming connections are not monitored' % why)
        for (a,), v in regs.items():
            b = I_atom = atom_of(st, v[2])
            q = get(st, ('q', a), ())
            pend = any(e[3] in ('acc', 'try') for e in q)
            if get(st, ('h', I_atom)) is None or v[0] & ~(IN | OUT):
                continue
            isconn = any(f == a for k, f in items(st, 'cfd'))
            if not isconn:
                continue
            if pend and not v[0] & OUT:
                r.bad('bytes', 'queued data not monitored', 'after %s: data is queued but the descriptor is not '
                      'monitored for writing' % why)
            elif not pend and v[0] & OUT:
                r.bad('bytes', 'idle writer monitored', 'after %s: nothing is queued but the descriptor stays '
                      'monitored for writing' % why)
            else:
                r.ok('bytes')
            c = [k for k, f in items(st, 'cfd') if f == a][-1]
            if bool(v[0] & IN) == bool(get(st, ('susp',) + c)):
                r.bad('rx', 'read monitoring', 'after %s: reading is %s but the descriptor is %smonitored' % (
                    why, 'suspended' if get(st, ('susp',) + c) else 'not suspended', '' if v[0] & IN else 'not '))
            else:
                r.ok('rx')
        if self.raw and get(st, 'rx') is not None:
            r.bad('rx', 'data not notified', 'after %s: data was read but never notified' % why)
        if r.stream and not self.raw and not get(st, 'oom'):
            k = get(st, 'nmsg', 0)
            done = sum(1 for s, e, m, n in r.bounds()[0] if e <= get(st, 'rxpos', 0))
            if k < done and get(st, 'lied', 0) == 0 and not get(st, 'nfail'):
                r.bad('rx', 'message not notified', 'after %s: %d messages were completely received, %d notified' % (
                    why, done, k))

    # ---- the end
    def leaks(self, st, why, held=()):
        r = self.r
        self.nend += 1
        for (b,), v in items(st, 'h'):
            if v != 'freed' and b not in held:
                r.bad('leak', 'block of %s' % (dom.A_INFO[b] or {}).get('site', b), 'after %s: the block allocated at '
                      '%s is never freed' % (why, v))
        for (a,), v in items(st, 'fd'):
            if v != 'closed' and v[0] not in ('user',):
                r.bad('fdleak', 'descriptor of kind %s' % v[0], 'after %s: a descriptor (%s) is never closed' % (why, v[0]))
        for (a,), v in items(st, 'reg'):
            r.bad('fd', 'registration left', 'after %s: a descriptor is left in the loop' % why)
        if items(st, 'timer'):
            r.bad('leak', 'timer', 'after %s: a timer is never destroyed' % why)
        if [x for x in items(st, 'loop') if dom.A_KEY[atom_of(st, x[0][0])][0] != 'ext']:
            r.bad('leak', 'loop', 'after %s: the internal loop is never destroyed' % why)
        if get(st, 'idle'):
            r.bad('leak', 'idle call', 'after %s: an idle call is left' % why)
        r.ok('leak')

    def teardown(self):
        """Stop, let idle calls run, destroy, give back what the user holds."""
        self.happy()
        self.r.sts = None
        base = self.sts
        lab = self.label
        for st in base:
            put(st, 'nfail', None)
        self.each(lambda s: self.r.do(self.I, s, 'stop', None, None, 'end', None))
        self.quietstop()
        self.idle(24)
        self.each(self.finish)
        return self

    def quietstop(self):
        for st in self.sts:
            why = '%s%s' % (self.label, last(st))
            if any(f == 'pomp_ctx_stop_idle' for f, _, _ in get(st, 'idle', ())):
                continue

    def finish(self, st):
        I = self.I
        why = 'stop following %s%s' % (self.label, last(st))
        r = self.r
        if items(st, 'reg'):
            r.bad('stop', 'not stopped', 'after %s: descriptors are still monitored' % why)
        if any(v[0] == 'armed' for k, v in items(st, 'timer')):
            r.bad('stop', 'timer armed', 'after %s: the timer is still armed' % why)
        for k, v in items(st, 'cst'):
            if v == 'up':
                r.bad('proto', 'no DISCONNECTED', 'after %s: a connection was never notified as DISCONNECTED' % why)
        for k, q in items(st, 'q'):
            if q and self.sendcb and not get(st, 'oom'):
                r.bad('send', 'send never reported', 'after %s: %d accepted sends were never reported' % (why, len(q)))
        outs = [(st, None)]
        ctx = get(st, 'ctx')
        res = []
        for s, v in I.step(st, 'pomp_ctx_destroy', [ctx], (self.n, 'destroy')):
            if s.f.res(v) != 0:
                r.bad('stop', 'destroy refused', 'after %s: pomp_ctx_destroy returns %s' % (why, show(s.f.res(v))))
                continue
            ss = [s]
            for k, (name, u) in enumerate(items(s, 'ubuf')):
                fn = 'pomp_msg_destroy' if name[0] == 'msg' else 'pomp_buffer_unref'
                ss = [y for x in ss for y, _ in I.step(x, fn, [u[0]], (self.n, 'giveback', k))]
            for k, b in enumerate(get(s, 'held', ())):
                ss = [y for x in ss for y, _ in I.step(x, 'pomp_buffer_unref', [b], (self.n, 'held', k))]
            for k, b in enumerate(get(s, 'heldmsg', ())):
                ss = [y for x in ss for y, _ in I.step(x, 'pomp_msg_destroy', [b], (self.n, 'heldmsg', k))]
            for x in ss:
                self.leaks(x, why)
                res.append(x)
        return res
