"""Running rules over entry points, in parallel, and reporting."""
import json
import os
import sys
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'rules')]
sys.setrecursionlimit(20000)

import frontend
import dom
import interp
import ir as IR

M = None          # the module under analysis
CFG = {}          # configuration name -> gvals


def load():
    global M
    M, info = frontend.build()
    build_configs()
    return M, info


def build_configs():
    """'fd': epoll/eventfd/timerfd; 'posix': poll/pipe/POSIX timers."""
    tables, sel = frontend.ops_configs(M)
    CFG.clear()
    dflt, alt = {}, {}
    for var, s in sel.items():
        cur = M.globals[var].init[1]
        dflt[var] = cur
        other = [t for t in tables[s] if t != cur]
        alt[var] = other[0] if other else cur
    CFG['fd'] = dflt
    CFG['posix'] = alt
    return CFG


def gvals(cfg, I):
    out = {}
    for var, t in CFG[cfg].items():
        out[(var, 0)] = dom.av(I.gatom(t))
    return out


def api(m=None):
    m = m or M
    return [f for f, fn in m.functions.items() if not fn.hidden and not fn.internal]


_job = None


def _one(args):
    i, spec = args
    t = time.time()
    try:
        rule, entry, cfg, setup = _job(spec)
        I = interp.Interp(M, rule)
        I.gvals = gvals(cfg, I)
        rule.entry_name = entry
        rule.cfg = cfg
        fargs, outs = I.entry(entry, setup)
        rule.at_exit(I, fargs, outs)
        st = dict(I.stats)
        st['functions'] = sorted(I.visited_fns)
        st['outs'] = len(outs)
        return i, 'ok', rule.result(), st, time.time() - t
    except interp.AnalysisError as e:
        return i, 'err', '%s: %s' % (spec, e), None, time.time() - t
    except Exception:
        return i, 'exc', '%s: %s' % (spec, traceback.format_exc()), None, time.time() - t


NOT_ANALYSED = []


class Broken(Exception):
    """The analysis could not be carried out (error exit)."""


def run_entries(job, specs, procs=8, verbose=False):
    """job(spec) -> (rule, entry function, config, setup).  Returns results."""
    global _job
    _job = job
    res = [None] * len(specs)
    tot = {'calls': 0, 'instrs': 0, 'paths': 0, 'loops': 0, 'merged': 0,
           'truncated': 0, 'infeasible': 0, 'outs': 0}
    fns = set()
    errs = []
    if not specs:
        return res, tot, fns
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(specs))) as pool:
        for i, kind, r, st, dt in pool.imap_unordered(_one, list(enumerate(specs)), chunksize=1):
            if verbose:
                print('%6.1fs %s %s' % (dt, specs[i], kind), file=sys.stderr, flush=True)
            if kind != 'ok':
                errs.append(r)
                continue
            res[i] = r
            for k in tot:
                tot[k] += st[k]
            fns |= set(st['functions'])
    if errs:
        short = errs if os.environ.get('VERIF_TB') else ['\n'.join([e.split('\n')[0]] + e.strip().split('\n')[-3:]) for e in errs]
        if len(errs) > max(1, len(specs) // 8):
            raise Broken('%d of %d entry points: ' % (len(errs), len(specs)) + '\n'.join(short[:2]))
        # a few entry points out of reach: say so, decide the others
        for e in short:
            print('NOT-ANALYSED: ' + e.replace('\n', ' | ')[-9000 if os.environ.get('VERIF_TB') else 0:][:9000 if os.environ.get('VERIF_TB') else 300])
        NOT_ANALYSED.extend(short)
        res = [{'obl': {}, 'unknown': {}} if r is None else r for r in res]
    return res, tot, fns


class Guard:
    """Runs parts of a check; parts the engine cannot carry out are counted, and
    break the check only when they are many and nothing else was found."""
    def __init__(self, rep):
        self.rep, self.n, self.bad = rep, 0, []

    def __call__(self, label, fn, *a, **k):
        self.n += 1
        try:
            return fn(*a, **k)
        except (interp.AnalysisError, RecursionError) as e:
            self.bad.append('%s: %s' % (label, e))
            return None

    def done(self):
        if self.bad and not self.rep.viol and len(self.bad) > max(1, self.n // 8):
            raise Broken('%d of %d parts: %s' % (len(self.bad), self.n, self.bad[0]))
        for e in self.bad:
            print('NOT-ANALYSED: ' + e[:300])
        NOT_ANALYSED.extend(self.bad)


CUR = None


class Report:
    def __init__(self, pid, level='other'):
        global CUR
        CUR = self
        self.pid = pid
        self.level = level
        self.viol = {}        # key -> text
        self.cov = {}
        self.assume = []
        self.t0 = time.time()

    def violation(self, key, text):
        self.viol.setdefault(key, text)

    def finish(self):
        if NOT_ANALYSED:
            self.cov['not_analysed'] = NOT_ANALYSED
        known = {}
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.pid):
                    # finding: property=ID key=<key> <what>
                    rest = line.split('key=', 1)[1]
                    key, _, what = rest.partition(' :: ')
                    known[key.strip()] = what.strip()
        new = {k: v for k, v in self.viol.items() if k not in known}
        evd = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(evd, exist_ok=True)
        ev = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick')
              if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': self.level, 'coverage': self.cov,
              'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.viol:
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        if new:
            p = os.path.join(evd, self.pid + '.violations.txt')
            with open(p, 'w') as f:
                for k, v in new.items():
                    f.write('[%s]\n%s\n\n' % (k, v))
            for k, v in list(new.items())[:20]:
                print('  %s: %s' % (k, v.split('\n')[0]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('OK property=%s %s' % (self.pid, json.dumps(
            {k: v for k, v in self.cov.items() if isinstance(v, (int, float))})))
        return 0
