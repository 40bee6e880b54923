"""C10..C18: the sessions explored (kinds of contexts, what can happen to them,
what their user does) and the properties judged on them."""
import run
import rt
import interp
import explore
from rt import get, put, items, IN, OUT, ERR, HUP, AF_INET, AF_UNIX
from ctxconn import W, frame, FDARG, last
import dom

MSGS = ((frame(7), 7, 0), (frame(8, [2, 5]), 8, 0))
FDMSGS = ((frame(7, FDARG), 7, 1), (frame(8, FDARG + FDARG), 8, 2))


def nq(st):
    return sum(len(q) for _, q in items(st, 'q'))


def nconn(st):
    return len(get(st, 'conns', ()))


class World:
    """A kind of session and its actions."""

    def __init__(self, title, kind, raw=False, family=AF_INET, maxq=1, react=None, sends=('send',), users=(), mode=0,
                 extra=(), oom=True, stream=(), maxcut=4, lie=0, conns=1, maxread=1, fails=1, setlen=False, bufs=(),
                 sockcb=False, sendcb=True, extloop=True, nfd=0, path=True):
        self.w = w = W(None, kind, raw=raw, family=family, sockcb=sockcb, sendcb=sendcb, extloop=extloop, path=path)
        w.title = title
        r = w.r
        r.where = title
        r.maxq = maxq
        r.stream = stream
        r.maxcut, r.lie = maxcut, lie
        r.nofail = () if sockcb else ('getsockname', 'getpeername', 'setsockopt', 'getsockopt')
        self.kind, self.react, self.maxq, self.maxread, self.fails = kind, react or {}, maxq, maxread, fails
        self.conns = conns
        self.mode = mode
        w.setup()
        w.mkbuf('raw')
        if not raw:
            w.mkbuf('msg')
        if nfd:
            w.mkbuf('fd', nfd)
        if len(w.sts) != 1:
            raise run.Broken('%s: %d states after the setup' % (title, len(w.sts)))
        self.acts = []
        peer = {'server': 'peer', 'client': 'stream', 'dgram': 'dgram'}[kind]
        A = self.acts
        A.append(('start', self.start))
        if kind == 'server':
            A.append(('a connection comes in', self.accept))
        for k in range(conns):
            nm = 'connection %d ' % k if kind == 'server' else ''
            A.append((nm + 'readable', self.ev(peer, IN, k)))
            A.append((nm + 'writable', self.ev(peer, OUT, k)))
            A.append((nm + 'readable, writable, hung up', self.ev(peer, IN | OUT | HUP, k, react=False)))
            if k == 0:
                A.append((nm + 'in error', self.ev(peer, ERR, k, react=False, any=True)))
        A.append(('timer', self.timer))
        A.append(('idle call', self.idle))
        for o in ('stop',) + tuple(sends) + tuple(users):
            for k in range(conns if o in ('send', 'sendmsg', 'disconnect', 'suspend', 'resume') else 1):
                A.append(('%s%s' % (o, ' %d' % k if conns > 1 else ''), self.do(o, k)))
        A.append(('destroy', self.destroy))
        self.oom = oom

    def setmode(self, react=True, fails=None):
        w = self.w
        w.all(maxfail=self.fails if fails is None else fails, react=self.react if react else {})
        w.r.maxread = self.maxread
        w.r.nofail_alloc = not self.oom

    def start(self, w):
        st = w.sts[0]
        if get(st, 'started') or get(st, 'idle') or items(st, 'reg'):
            return False
        self.setmode()
        w.start(mode=self.mode)

    def accept(self, w):
        if nconn(w.sts[0]) >= self.conns:
            return False
        self.setmode()
        w.event('stream', IN)

    def ev(self, kind, ev, which, react=True, any=False):
        def f(w):
            fs = w.fds(w.sts[0], kind)
            if which >= len(fs):
                return False
            self.setmode(react, 0 if not react else None)
            w.event(kind, ev, which=which, raw=any)
        return f

    def timer(self, w):
        if not any(v[0] == 'armed' for k, v in items(w.sts[0], 'timer')):
            return False
        self.setmode()
        w.timer()

    def idle(self, w):
        if not get(w.sts[0], 'idle'):
            return False
        self.setmode()
        w.idle(1)

    def do(self, o, k):
        def f(w):
            st = w.sts[0]
            if 'send' in o and nq(st) >= self.maxq:
                return False
            if o == 'unref' and not get(st, 'held') and not get(st, 'heldmsg'):
                return False
            self.setmode()
            w.do(o, k)
        return f

    def destroy(self, w):
        st = w.sts[0]
        if get(st, 'started') or get(st, 'idle'):
            if get(st, 'started'):
                self.setmode(fails=0)
                w.do('destroy')
            return False
        w.final = True
        w.happy()
        w.each(w.finish)


RAW = dict(conn=['stop', 'disconnect', 'send'], disc=['stop', 'send'], raw=['stop', 'disconnect', 'send'],
           sent=['stop', 'disconnect', 'send'])
MSG = dict(conn=['stop', 'sendmsg'], disc=['stop', 'sendmsg'], msg=['stop', 'disconnect', 'sendmsg'],
           sent=['stop', 'disconnect', 'sendmsg'])
RD = dict(conn=['suspend', 'setlen'], raw=['stop', 'disconnect', 'suspend', 'setlen', 'ref', 'refsuspend'],
          msg=['stop', 'disconnect', 'suspend', 'setlen', 'keepmsg'], disc=['stop'])

WORLDS = {
    'client raw': lambda: World('client raw', 'client', raw=True, react=RAW, users=('disconnect',)),
    'client raw 2': lambda: World('client raw, two sends', 'client', raw=True, react=RAW, maxq=2, fails=0,
                                  users=('disconnect',)),
    'client read': lambda: World('client raw, reading', 'client', raw=True, react=RD, sends=(), maxread=2,
                                 users=('suspend', 'resume', 'disconnect', 'unref')),
    'client msg': lambda: World('client', 'client', react=dict(conn=['sendmsg'], msg=['stop', 'disconnect', 'sendmsg'],
                                sent=['sendmsg', 'stop']), stream=MSGS, maxcut=2, sends=('sendmsg',), fails=0),
    'client msg oom': lambda: World('client, failures', 'client', react=dict(msg=['sendmsg']), stream=MSGS, maxcut=2,
                                sends=('sendmsg',)),
    'client msg read': lambda: World('client, receiving', 'client', react=dict(msg=['stop', 'suspend', 'setlen']),
                                     stream=MSGS, sends=(), maxcut=3, users=('suspend', 'resume'), fails=0),
    'client msg keep': lambda: World('client, keeping messages', 'client', react=dict(msg=['stop', 'keepmsg']),
                                     stream=MSGS, sends=(), maxcut=3, users=('unref',)),
    'client fds': lambda: World('client, descriptors', 'client', family=AF_UNIX, stream=FDMSGS, maxcut=2,
                                sends=(), react=dict(msg=['stop', 'keepmsg']), users=('unref',), fails=0),
    'client fds oom': lambda: World('client, descriptors, failures', 'client', family=AF_UNIX, stream=FDMSGS,
                                    maxcut=2, sends=(), react=dict(msg=['stop'])),
    'client fds lie': lambda: World('client, wrong descriptors', 'client', family=AF_UNIX, stream=FDMSGS, maxcut=2,
                                    lie=1, sends=(), fails=0, oom=False),
    'client sendfd': lambda: World('client sending descriptors', 'client', family=AF_UNIX, sends=('sendfd', 'sendv'),
                                   maxq=2, nfd=2, fails=0),
    'client start': lambda: World('client starting', 'client', sends=(), sockcb=True, fails=2,
                                  react=dict(sock=['stop'], conn=['stop', 'disconnect'], disc=['stop'])),
    'client unix start': lambda: World('local client starting', 'client', family=AF_UNIX, sends=(), sockcb=True,
                                       react=dict(sock=['stop'], conn=['stop', 'disconnect'], disc=['stop']),
                                       extloop=False),
    'server raw': lambda: World('server raw', 'server', raw=True, react=RAW, users=('disconnect',)),
    'server 2': lambda: World('server, two connections', 'server', react=MSG, conns=2, fails=0,
                              sends=('sendmsg', 'ctxsendmsg'), users=('disconnect',)),
    'server msg': lambda: World('server', 'server', react=dict(msg=['stop', 'sendmsg', 'suspend']),
                                stream=MSGS, sends=(), users=('resume',), fails=0, maxcut=2),
    'server start': lambda: World('server starting', 'server', sends=(), sockcb=True, fails=2,
                                  react=dict(sock=['stop'], conn=['stop', 'disconnect'], disc=['stop'])),
    'server unix start': lambda: World('local server starting', 'server', family=AF_UNIX, sends=(), sockcb=True,
                                       mode=0o666, react=dict(sock=['stop'], conn=['stop'], disc=['stop']),
                                       extloop=False),
    'dgram raw': lambda: World('dgram raw', 'dgram', raw=True, react=dict(raw=['stop', 'send', 'suspend', 'ref'],
                               sent=['stop', 'sendto']), sends=('sendto',), maxq=2, users=('unref',), fails=0),
    'dgram msg': lambda: World('dgram', 'dgram', stream=MSGS, react=dict(msg=['stop', 'sendmsg'],
                               sent=['stop', 'sendmsgto']), sends=('sendmsgto',), fails=0),
    'dgram msg keep': lambda: World('dgram, receiving', 'dgram', stream=MSGS, react=dict(msg=['stop', 'keepmsg']),
                               sends=(), users=('unref',)),
    'dgram start': lambda: World('dgram starting', 'dgram', sends=(), sockcb=True, fails=2, react=dict(sock=['stop'])),
    'dgram unix start': lambda: World('local dgram starting', 'dgram', family=AF_UNIX, sends=('sendto',), raw=True,
                                      sockcb=True, react=dict(sock=['stop'])),
}


STARTS = ['client start', 'client unix start', 'server start', 'server unix start', 'dgram start', 'dgram unix start']
CHECKS = {
    'C10': (('fd', 'fdleak'), STARTS + ['client raw', 'server 2', 'client fds', 'client fds oom', 'client fds lie',
                                        'client sendfd']),
    'C11': (('mem', 'leak'), STARTS + ['client raw', 'client read', 'client msg read', 'client msg keep', 'client msg oom',
                                       'client fds oom', 'dgram msg keep']),
    'C12': (('send',), ['client raw', 'client raw 2', 'client sendfd', 'server 2', 'client msg', 'dgram raw']),
    'C13': (('bytes', 'txfd'), ['client raw 2', 'client sendfd', 'server 2', 'server msg', 'dgram raw', 'dgram msg',
                                'dgram unix start']),
    'C14': (('proto',), STARTS[:4] + ['client raw', 'client msg', 'server raw', 'server 2', 'server msg', 'dgram msg']),
    'C15': (('rx', 'rxfd'), ['client read', 'client msg read', 'client msg oom', 'client fds', 'client fds lie',
                             'server msg', 'dgram raw', 'dgram msg']),
    'C16': (('stop',), STARTS + ['client raw', 'client msg', 'server 2', 'server msg', 'dgram msg', 'dgram raw']),
    'C17': (('alive', 'stuck'), STARTS + ['client raw', 'client msg oom', 'server raw', 'dgram msg keep', 'dgram raw']),
    'C18': (('nonblock',), STARTS + ['client raw', 'server 2', 'dgram msg']),
}
WHAT = {
    'fd': 'use of a descriptor', 'fdleak': 'descriptors left at the end', 'mem': 'access to or release of a block',
    'leak': 'blocks left at the end', 'send': 'completion of a send', 'bytes': 'bytes written', 'txfd':
    'descriptors sent', 'proto': 'notification', 'rx': 'data received', 'rxfd': 'descriptors received',
    'stop': 'stop', 'alive': 'started context', 'stuck': 'endless loop', 'nonblock': 'non-blocking operation'}


def check(pid):
    import os
    rep = run.Report(pid)
    run.load()
    cats, names = CHECKS[pid]
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    if thorough:
        names = list(names) + [n for n in list(WORLDS) + list(DEEP) if n not in names]
    ws = []
    for n in names:
        w = (WORLDS.get(n) or DEEP[n])()
        ws.append((w.w, w.acts))
    x = explore.Explorer(ws, limit=40000, procs=8, time_limit=3000 if thorough else 500, stop=cats).run()
    crash = [e for e in x.errs if e.startswith('!')]
    if crash:
        raise RuntimeError(crash[0])
    for (c, k), text in x.viol.items():
        if c in cats:
            rep.violation('%s: %s' % (c, k), text)
    n = {c: x.nev.get(c, 0) for c in cats}
    if not rep.viol:
        if len(x.errs) > max(2, x.n // 50):
            raise run.Broken('%d of %d steps: %s' % (len(x.errs), x.n, x.errs[0]))
        dead = [c for c in cats if c not in ('fdleak', 'stuck') and not n[c] and (c != 'fd' and c != 'mem')]
        if dead:
            raise run.Broken('nothing examined about %s' % ', '.join(dead))
    for e in x.errs[:4]:
        print('NOT-ANALYSED: ' + e[:300].replace('\n', ' '))
    run.NOT_ANALYSED.extend(e[:300] for e in x.errs)
    rep.cov.update(worlds=[w.title for w, _ in ws], states=sum(len(t) for t in x.tabs), transitions=x.n,
                   complete=bool(x.complete), calls_analysed=x.stats.get('calls', 0),
                   paths=x.stats.get('paths', 0), functions_analysed=len(x.fns),
                   functions=sorted(x.fns), obligations={WHAT[c]: v for c, v in n.items()},
                   obligations_total=sum(n.values()),
                   rule='exhaustive exploration of the canonical abstract states of each world, judged by the rules '
                        'of rules/ctxconn.py and rules/rt.py of the categories: %s' % ', '.join(WHAT[c] for c in cats))
    rep.assume += ['system calls, the loop and the timers behave as modelled in rules/rt.py',
                   'worlds bounded as described in DESIGN.md (sends outstanding, reads and failures per event)']
    if not x.complete:
        rep.assume.append('the exploration was cut short by its time limit')
    return rep
DEEP = {
    'client raw deep': lambda: World('client raw, two sends, failures', 'client', raw=True, react=RAW, maxq=2, fails=2,
                                     users=('disconnect', 'suspend', 'resume'), maxread=2),
    'server raw deep': lambda: World('server raw, two sends', 'server', raw=True, react=RAW, maxq=2, fails=1, conns=2,
                                     users=('disconnect',)),
    'client msg deep': lambda: World('client, everything', 'client', react=dict(MSG, msg=RD['msg'] + ['sendmsg']),
                                     stream=MSGS, sends=('sendmsg', 'ctxsendmsg'), maxcut=4,
                                     users=('suspend', 'resume', 'disconnect', 'unref')),
    'server msg deep': lambda: World('server, everything', 'server', react=dict(RD, msg=RD['msg'] + ['sendmsg']),
                                     stream=MSGS, sends=('sendmsg',), users=('suspend', 'resume', 'unref')),
    'dgram deep': lambda: World('dgram, everything', 'dgram', stream=MSGS, react=dict(
        msg=['stop', 'sendmsg', 'keepmsg'], sent=['stop', 'sendmsgto']), sends=('sendmsgto',), users=('unref',)),
}
