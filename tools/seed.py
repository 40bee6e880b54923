#!/usr/bin/env python3
"""seed.py FILE.py [ID...]: write seeded/<id>/ from a list of planted bugs and
try each in a scratch copy: demo passes before, fails after, check reports.
FILE.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo=C text
or None, sh=shell text (overrides), asan=bool, needs, breaks)]."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: the repository, built
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%s
timeout 60 "$t/demo"
'''
LIB = 'gcc -O1 -w -Iinclude -Isrc "$d/demo.c" _build/src/.libs/libpomp.a -o "$t/demo" -lpthread || exit 0'
ASAN = ('inc=$(grep -ho \'include "pomp_[a-z0-9_]*\\.c"\' src/*.c | sed \'s/.*"\\(.*\\)"/\\1/\' | sort -u)\n'
        'us=; for f in src/*.c; do case " $(echo $inc) " in *" $(basename $f) "*) ;; *) us="$us $f";; esac; done\n'
        'gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -DHAVE_CONFIG_H -DPOMP_API_EXPORTS '
        '-I_build -Iinclude -Isrc "$d/demo.c" $us -o "$t/demo" -lpthread || exit 0')


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if sys.argv[2:] and s['id'] not in sys.argv[2:]:
            continue
        out = os.path.join(V, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        if s.get('demo'):
            open(out + '/demo.c', 'w').write(s['demo'].lstrip())
        body = s.get('sh') or SH % (ASAN if s.get('asan') else LIB)
        open(out + '/demo.sh', 'w').write(body)
        os.chmod(out + '/demo.sh', 0o755)
        w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        try:
            subprocess.run(['cp', '-a', '/repo/.', w], check=True)
            sh('git checkout -q -- . ', cwd=w)
            def build():
                return sh('set -e; mkdir -p _build/src/.libs; rm -f /nonexist; cd _build/src/.libs; rm -f *.o libpomp.a; inc=$(grep -ho \'include "pomp_[a-z0-9_]*\\.c"\' ../../../src/*.c | sed \'s/.*"\\(.*\\)"/\\1/\'); for f in ../../../src/*.c; do case " $(echo $inc) " in *" $(basename $f) "*) ;; *) gcc -g -O2 -w -c -DHAVE_CONFIG_H -DPOMP_API_EXPORTS -I../.. -I../../../include $f;; esac; done; ar rcs libpomp.a *.o', cwd=w)
            b = build()
            r0 = sh('bash %s/demo.sh' % out, cwd=w)
            for f, o, n in s['edits']:
                p = os.path.join(w, f)
                t = open(p).read()
                if t.count(o) != 1:
                    print(s['id'], 'EDIT matches', t.count(o), repr(o)); break
                open(p, 'w').write(t.replace(o, n))
            else:
                d = sh('git diff', cwd=w).stdout
                open(out + '/patch.diff', 'w').write(d)
                b = build()
                if b.returncode:
                    print(s['id'], 'BUILD', b.stdout[-600:]); continue
                if 'warning' in b.stdout: print(s['id'], 'warnings', b.stdout[:300])
                r1 = sh('bash %s/demo.sh' % out, cwd=w)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(out + '/meta.json', 'w'), indent=1)
                tp = subprocess.Popen(['bash', V + '/tools/tst.sh', out + '/patch.diff'], stdout=subprocess.PIPE, text=True)
                env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + '/ev')
                c = sh('timeout 850 python3 %s/check.py %s' % (V, s['prop']), env=env)
                ok = r0.returncode == 0 and r1.returncode != 0
                print('%-4s %s demo %d->%d %s %s  check rc %d  %s' % (
                    s['id'], s['prop'], r0.returncode, r1.returncode, 'ok' if ok else 'BAD', tp.communicate()[0].strip(), c.returncode,
                    ' | '.join(l[:160] for l in c.stdout.splitlines() if l.strip())[:330]))
                sj = V + '/doc/seeds.json'
                db = json.load(open(sj)) if os.path.exists(sj) else {}
                db[s['id']] = {1: 'caught by ' + s['prop'], 0: 'missed'}.get(c.returncode, 'no answer')
                json.dump(db, open(sj, 'w'), indent=1, sort_keys=True)
                if not ok:
                    print('   before:', r0.stdout[-300:], '\n   after:', r1.stdout[-300:])
        finally:
            shutil.rmtree(w)


main()
