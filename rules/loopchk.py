"""C19..: sessions on a loop explored, and the properties judged on them."""
import os
import run
import explore
import loops
from rt import IN, PRI, OUT, ERR, HUP
from loops import LW, colliding, ALL

F = colliding(10, 3)


def fdworld(cfg):
    a, b, c = F
    return LW('descriptors (%s)' % cfg, cfg,
              [('add', a, IN), ('add', b, IN | OUT), ('add', c, OUT), ('update', a, OUT), ('update2', b, OUT, IN),
               ('remove', a), ('remove', b), ('remove', c), ('has', a), ('wait', -1), ('wait', 10)],
              react=dict(fd=[('remove', 'self'), ('remove', a), ('remove', b), ('add', c, IN), ('readd', b, IN)]),
              fds=F, fails=1)


WORLDS = {}
for cfg in ('fd', 'posix'):
    WORLDS['fds ' + cfg] = lambda cfg=cfg: fdworld(cfg)
    WORLDS['ev ' + cfg] = lambda cfg=cfg: LW(
        'events of a descriptor (%s)' % cfg, cfg,
        [('add', 10, ALL), ('add', 10, IN), ('update', 10, PRI | OUT), ('update', 10, 0), ('update2', 10, IN | HUP, PRI),
         ('remove', 10), ('wait', 0), ('wait', 5), ('wakeup',), ('getfd',), ('badargs',), ('close', 10), ('open', 10)],
        react=dict(fd=[('remove', 'self'), ('update2', 10, 0, IN), ('wakeup',)]), fds=(10,), rdy='many', fails=1,
        opts=dict(new=1, busy=1))
    IDLE = [('idle', 'idlea', 'x'), ('idlec', 'idleb', 'y', 'k'), ('idlec', 'idlea', 'z', 'q'), ('idlerm', 'idlea', 'x'),
            ('idlermc', 'k'), ('flush',), ('flushc', 'k'), ('wait', 0), ('wait', -1)]
    WORLDS['idle ' + cfg] = lambda cfg=cfg: LW(
        'idle functions (%s)' % cfg, cfg, IDLE if cfg == 'fd' else IDLE[:2] + IDLE[3:6] + IDLE[7:],
        react=dict(idle=[('idle', 'idlea', 'x'), ('idlec', 'idleb', 'y', 'k'), ('idlerm', 'idlea', 'x'), ('idlermc', 'k'),
                         ('flush',), ('wakeup',)][0 if cfg == 'fd' else 1:5 if cfg == 'posix' else 6]), fails=1, opts=dict(maxidle=2, busy=1))
    WORLDS['wakeup mt ' + cfg] = lambda cfg=cfg: LW(
        'wakeup from another thread (%s)' % cfg, cfg, [('wakeup',), ('wait', -1), ('wait', 0)], inj=[('wakeup',)],
        fails=1, race=True, opts=dict(wakeups=1))
    WORLDS['idle mt ' + cfg] = lambda cfg=cfg: LW(
        'idle functions and another thread (%s)' % cfg, cfg,
        [('idle', 'idlea', 'x'), ('idlerm', 'idlea', 'x'), ('flush',), ('wait', -1), ('wait', 0)],
        inj=[('idle', 'idleb', 'w'), ('idlerm', 'idlea', 'x'), ('wakeup',)],
        fails=0, race=True, opts=dict(maxidle=1))
    WORLDS['cookies mt ' + cfg] = lambda cfg=cfg: LW(
        'idle functions with cookies and another thread (%s)' % cfg, cfg,
        [('idlec', 'idleb', 'y', 'k'), ('idlermc', 'k'), ('flushc', 'k'), ('wait', -1)],
        inj=[('idlec', 'idlea', 'z', 'q'), ('idlermc', 'k')],
        fails=0, race=True, opts=dict(maxidle=1))
    WORLDS['evt ' + cfg] = lambda cfg=cfg: LW(
        'events (%s)' % cfg, cfg,
        [('attach', 0), ('detach', 0), ('signal', 0), ('clear', 0), ('isatt', 0), ('evtdestroy', 0), ('evtnew', 0),
         ('attach', 1), ('signal', 1), ('detach', 1), ('wait', 0), ('wait', -1)],
        react=dict(evt=[('signal', 'self'), ('clear', 'self'), ('detach', 'self'), ('signal', 1), ('detach', 1), ('clear', 1)]),
        evts=2, fails=1, opts=dict(busy=1, pipecap=2))
    WORLDS['evt mt ' + cfg] = lambda cfg=cfg: LW(
        'events and another thread (%s)' % cfg, cfg,
        [('attach', 0), ('detach', 0), ('signal', 0), ('clear', 0), ('wait', 0), ('wait', -1)],
        inj=[('signal', 0), ('wakeup',)], evts=1, fails=0, race=True,
        opts=dict(pipecap=2))
    WORLDS['timer ' + cfg] = lambda cfg=cfg: LW(
        'timers (%s)' % cfg, cfg,
        [('timernew', 0), ('tset', 0, 1, 0), ('tset', 0, 1500, 999), ('tset', 0, 999, 4294968), ('tset', 0, 4294967, 0x7fffffff), ('tset', 0, 0xffffffff, 0xfffffffe), ('tset', 0, 1000, 0),
         ('tset', 0, 0, 0), ('tclear', 0), ('tdestroy', 0), ('wait', 0), ('wait', -1)],
        react=dict(timer=[('tclear', 'self'), ('tdestroy', 'self')]),
        timers=1, fails=1, opts=dict(busy=1, latetimer=1))
    WORLDS['timers ' + cfg] = lambda cfg=cfg: LW(
        'two timers (%s)' % cfg, cfg,
        [('tset', 0, 1, 0), ('tset', 0, 5, 7), ('tclear', 0), ('tset', 1, 1001, 0), ('tclear', 1), ('tdestroy', 1), ('wait', 0)],
        react=dict(timer=[('tset', 'self', 2, 0), ('tclear', 0), ('tclear', 1), ('tdestroy', 1)]), timers=2, fails=0)


BOTH = ('fd', 'posix')
CHECKS = {
    'C19': (('fd', 'mem', 'stuck', 'leak', 'api', 'table', 'dispatch', 'block', 'cloexec', 'lost', 'lock'), ['fds', 'ev']),
    'C20': (('idle', 'lost', 'mem', 'stuck', 'leak', 'api', 'lock', 'block'), ['idle']),
    'C21': (('evt', 'lost', 'mem', 'stuck', 'leak', 'fd', 'api', 'block', 'cloexec', 'table'), ['evt']),
    'C22': (('timer', 'lost', 'mem', 'stuck', 'leak', 'fd', 'api', 'block', 'cloexec', 'table'), ['timer', 'timers']),
    'C23': (('race', 'lock', 'idle', 'evt', 'lost', 'mem', 'stuck', 'leak', 'api', 'block'),
            ['wakeup mt', 'idle mt', 'cookies mt', 'evt mt']),
}
WHAT = {
    'stuck': 'end of a loop of the library',     'fd': 'use of a descriptor', 'mem': 'access to or release of a block', 'leak': 'end of a session',
    'api': 'result of a call', 'table': 'descriptors monitored', 'dispatch': 'events dispatched',
    'block': 'operation that must not block', 'cloexec': 'descriptor flags', 'lost': 'wait', 'lock': 'lock state',
    'idle': 'idle function called', 'evt': 'event notified', 'timer': 'timer set or notified', 'race':
    'access to data shared by threads'}
MAY = {'stuck', 'dispatch', 'fd', 'mem', 'cloexec', 'table', 'lock', 'block'}


def races(x):
    """Lockset: what another thread accesses, and somebody writes, is accessed under a lock everywhere."""
    acc = {}
    for k in x.nev:
        if isinstance(k, tuple) and k[0] == 'race':
            acc.setdefault(k[1:3], []).append(k[3:])
    out = {}
    n = 0
    for (cls, off), l in sorted(acc.items()):
        n += len(l)
        if not any(role == 'T' for role, w, h, fn in l) or not any(w for role, w, h, fn in l):
            continue
        free = sorted({fn for role, w, h, fn in l if not h and (w or any(w2 for r2, w2, h2, f2 in l))})
        # two accesses, one at least a write, at least one without the lock, by two threads
        if free and any(not h or not h2 for r, w, h, f in l for r2, w2, h2, f2 in l if r != r2 and (w or w2)):
            out['%s+%d' % (cls, off)] = (
                'the field at offset %d of the %s is accessed by another thread and written, without the lock, in %s' % (
                    off, cls, ', '.join(free)))
    return out, n


def explored(names, cats, thorough):
    dead = None
    for keep in (False, True):
        loops.LR.keeppoll = keep
        ws = []
        viol = {}
        for n in names:
            w = WORLDS[n]()
            if w.dead:
                dead = w
                viol.update(w.r.viol)
                continue
            ws.append((w, w.acts))
        if not ws:
            return None, viol, dead
        x = explore.Explorer(ws, limit=60000, procs=8, time_limit=3000 if thorough else 420, stop=cats).run()
        x.worlds_n = [w.title for w, _ in ws]
        if keep or not any('given to poll' in e for e in x.errs):
            break
    viol.update(x.viol)
    return x, viol, dead


def check(pid):
    rep = run.Report(pid)
    run.load()
    cats, kinds = CHECKS[pid]
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    names = ['%s %s' % (k, c) for k in kinds for c in BOTH]
    if thorough:
        names += ['%s %s' % (k, c) for k in DEEP.get(pid, ()) for c in BOTH]
    x, viol, dead = explored(names, cats, thorough)
    crash = [e for e in (x.errs if x else ()) if e.startswith('!')]
    if crash:
        raise RuntimeError(crash[0])
    for (c, k), text in viol.items():
        if c in cats:
            rep.violation('%s: %s' % (c, k), text)
    nrace = 0
    if 'race' in cats and x:
        r, nrace = races(x)
        for k, text in r.items():
            rep.violation('race: ' + k, text)
    if not rep.viol:
        if dead:
            raise run.Broken('%s: no state left after the setup' % dead.title)
        if len(x.errs) > max(2, x.n // 50):
            raise run.Broken('%d of %d steps: %s' % (len(x.errs), x.n, x.errs[0]))
        gone = [c for c in cats if c not in MAY and c != 'race' and not x.nev.get(c)]
        if gone:
            raise run.Broken('nothing examined about %s' % ', '.join(gone))
    n = {c: (x.nev.get(c, 0) if x else 0) for c in cats if c != 'race'}
    if 'race' in cats:
        n['race'] = nrace
    if x:
        for e in x.errs[:4]:
            print('NOT-ANALYSED: ' + e[:300].replace('\n', ' '))
        run.NOT_ANALYSED.extend(e[:300] for e in x.errs)
        rep.cov.update(worlds=x.worlds_n, states=sum(len(t) for t in x.tabs), transitions=x.n, complete=bool(x.complete),
                       calls_analysed=x.stats.get('calls', 0), paths=x.stats.get('paths', 0),
                       functions_analysed=len(x.fns), functions=sorted(x.fns))
        if not x.complete:
            rep.assume.append('the exploration was cut short by its time limit')
    rep.cov.update(obligations={WHAT[c]: v for c, v in n.items()}, obligations_total=sum(n.values()),
                   rule='exhaustive exploration of the canonical abstract states of each world, judged by the rules of '
                        'rules/loops.py of the categories: %s' % ', '.join(WHAT[c] for c in cats))
    rep.assume += ['epoll, poll, eventfd, pipe, timerfd, POSIX timers and mutexes behave as modelled in rules/loops.py',
                   'worlds bounded as described in DESIGN.md']
    return rep


DEEP = {}
