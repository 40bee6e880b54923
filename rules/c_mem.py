"""C01 / C02: every access to message bytes and local arrays is in bounds."""
import run
import mem


DEC = ('decoder_', 'msg_read', 'msg_dump', 'msg_adump', 'prot_', 'buffer_read', 'buffer_cread')


def entries(which):
    m = run.M
    out = []
    for f in run.api():
        mod = f.split('_')[1]
        if mod not in ('buffer', 'msg', 'encoder', 'decoder', 'prot'):
            continue
        dec = any(f.startswith('pomp_' + d) for d in DEC)
        if dec != (which == 'dec'):
            continue
        out.append((f, None))
        ps = m.functions[f].params
        dt = m.param_types(m.functions[f])
        sn = [m.di_struct_name(t) if t is not None else None for t in dt[1:]]
        for i in range(len(ps)):
            for j in range(i):
                if sn[i] and sn[i] == sn[j] and sn[i] in ('pomp_buffer', 'pomp_msg'):
                    out.append((f, (i, j)))
    return out


def job(spec):
    f, alias = spec
    return mem.MemRule(), f, 'fd', mem.setup_regions(f, alias)


def check(pid):
    rep = run.Report(pid)
    _, info = run.load()
    which = 'dec' if pid == 'C01' else 'enc'
    specs = entries(which)
    if len(specs) < 25:
        raise run.Broken('only %d entry points' % len(specs))
    res, tot, fns = run.run_entries(job, specs)
    sites, nob, unk = {}, 0, {}
    for spec, r in zip(specs, res):
        for k, v in r['obl'].items():
            a = sites.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
            nob += v[0]
            if v[1]:
                rep.violation('%s/%s/%s' % (k[1], k[2], k[3]), '%s from %s: %s' % (k[0], spec[0], v[2]))
        for k, v in r['unknown'].items():
            unk[k] = v
    kinds = set((k[2], k[3]) for k in sites)
    if len(sites) < (6 if which == 'dec' else 8) or nob < 200:
        raise run.Broken('too few accesses analysed: %d sites' % len(sites))
    rep.cov = {
        'explanation': 'every load, store and memory copy whose target is message bytes, a caller supplied '
                       'region or a local/heap object is proved to lie inside it, for unconstrained arguments '
                       'and contents; loops are generalised to inductive facts',
        'entry_points': len(specs), 'access_sites': len(sites), 'obligations': nob,
        'discharged': nob - sum(v[1] for v in sites.values()),
        'functions_analysed': len(fns), 'paths': tot['paths'], 'loops': tot['loops'],
        'call_instances': tot['calls'], 'untracked_sites': unk,
        'units': info['units'], 'samples': ['%s %s of %s: %d instances' % (k[0], k[2], k[3], v[0])
                                            for k, v in sorted(sites.items())][:12],
    }
    rep.assume = ['sizes and positions are below 2^61', 'buffers handed in satisfy len <= capacity = allocated size '
                  '(re-proved at every exit)', 'distinct struct arguments do not alias except the pairs enumerated',
                  'argv strings and format strings are NUL-terminated']
    return rep
