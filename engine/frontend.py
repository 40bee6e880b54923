"""Front end: /repo's current C sources -> one LLVM IR module.

Every *.c under <repo>/src that no other source #includes is a translation
unit (the bundled back ends are pulled in by #include exactly as in the real
build).  They are compiled with the feature macros of the configured Linux
build, non-API symbols hidden so that the public API can be recognised, linked
at IR level, and locals are promoted to SSA.  Nothing is executed.
"""
import os
import re
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

import ir as IR

REPO = os.environ.get('VERIF_REPO', '/repo')

CONFIG = {
    'HAVE_CXX11': 1, 'HAVE_DLFCN_H': 1, 'HAVE_INTTYPES_H': 1, 'HAVE_NETDB_H': 1,
    'HAVE_NETINET_TCP_H': 1, 'HAVE_STDINT_H': 1, 'HAVE_STDIO_H': 1,
    'HAVE_STDLIB_H': 1, 'HAVE_STRINGS_H': 1, 'HAVE_STRING_H': 1,
    'HAVE_SYS_EPOLL_H': 1, 'HAVE_SYS_EVENTFD_H': 1, 'HAVE_SYS_PARAM_H': 1,
    'HAVE_SYS_POLL_H': 1, 'HAVE_SYS_SOCKET_H': 1, 'HAVE_SYS_STAT_H': 1,
    'HAVE_SYS_TIMERFD_H': 1, 'HAVE_SYS_TYPES_H': 1, 'HAVE_SYS_UN_H': 1,
    'HAVE_TIMER_CREATE': 1, 'HAVE_UNISTD_H': 1,
    'PACKAGE': '"libpomp"', 'VERSION': '"1.0.0"', 'STDC_HEADERS': 1,
}


class FrontendError(Exception):
    pass


def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise FrontendError('no %s' % names[0])


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise FrontendError('%s failed:\n%s' % (os.path.basename(cmd[0]),
                                                r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout.decode(errors='replace')


def units(repo=None):
    repo = repo or REPO
    src = os.path.join(repo, 'src')
    cs = sorted(f for f in os.listdir(src) if f.endswith('.c'))
    inc = set()
    for f in os.listdir(src):
        if f.endswith(('.c', '.h')):
            with open(os.path.join(src, f), errors='replace') as fh:
                inc |= set(re.findall(r'^\s*#\s*include\s+"([^"]+\.c)"', fh.read(), re.M))
    return [os.path.join(src, f) for f in cs if f not in inc]


def build(repo=None, keep=None):
    """Compile and load; returns (Module, info)."""
    repo = repo or REPO
    clang = tool('clang-18', 'clang')
    link = tool('llvm-link-18', 'llvm-link', '/usr/lib/llvm-18/bin/llvm-link')
    opt = tool('opt-18', 'opt', '/usr/lib/llvm-18/bin/opt')
    d = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        with open(os.path.join(d, 'config.h'), 'w') as f:
            for k, v in CONFIG.items():
                f.write('#define %s %s\n' % (k, v))
        us = units(repo)
        if len(us) < 10:
            raise FrontendError('only %d translation units found' % len(us))
        bcs = []

        def one(u):
            o = os.path.join(d, os.path.basename(u) + '.bc')
            run([clang, '-std=gnu11', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
                 '-fno-discard-value-names', '-fvisibility=hidden', '-w',
                 '-DHAVE_CONFIG_H', '-DPOMP_API_EXPORTS', '-D_GNU_SOURCE' if False else '-DVERIF_STATIC=0',
                 '-I' + d, '-I' + os.path.join(repo, 'include'),
                 '-I' + os.path.join(repo, 'src'), '-emit-llvm', '-c', u, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, us))
        run([link] + bcs + ['-o', os.path.join(d, 'all.bc')])
        run([opt, '-passes=function(mem2reg,simplifycfg)', os.path.join(d, 'all.bc'),
             '-S', '-o', os.path.join(d, 'all.ll')])
        with open(os.path.join(d, 'all.ll')) as f:
            txt = f.read()
        if keep:
            shutil.copy(os.path.join(d, 'all.ll'), keep)
        m = IR.Module(txt)
        return m, {'units': [os.path.relpath(u, repo) for u in us],
                   'functions': len(m.functions)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ops_configs(m):
    """Operation tables by struct type, and the variables that select one.

    Returns (tables: {struct name: [global name,...]},
             selectors: {global var: struct name})."""
    tables = {}
    for n, g in m.globals.items():
        if g.ty[0] == 'st' and g.ty[1].startswith('struct.') and g.init is not None:
            fields = g.init[1] if g.init[0] == 'agg' else []
            fns = [v for t, v in fields if v[0] == 'g' and v[1] in m.functions]
            if len(fns) >= 3:
                tables.setdefault(g.ty[1][7:], []).append(n)
    sel = {}
    inv = {n: s for s, l in tables.items() for n in l}
    for n, g in m.globals.items():
        if not g.const and g.init is not None and g.init[0] == 'g' and g.init[1] in inv:
            sel[n] = inv[g.init[1]]
    return tables, sel
