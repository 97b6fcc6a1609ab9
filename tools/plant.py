#!/usr/bin/env python3
"""Turn the planted-bug list of bugs.py into /verif/seeded/<id>/, after
confirming each one in a scratch copy of /repo: it applies, touches only lines
of the original code, builds, passes the stable tests, and its demonstration
passes without it and fails with it.   usage: plant.py [id ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
REPO, OUT = '/repo', '/verif/seeded'
BASE = '5833a18'
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: 0 = property holds, nonzero = broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
g++ -std=c++11 -g -I "$PWD/src/libcatnip" "$d/demo.cpp" $(find "$PWD/_build" -name 'lib*catnip*.a') -o "$t/demo" || exit 3
cd "$t" || exit 3
timeout 60 ./demo > out.txt 2> err.txt
rc=$?
tail -n 3 err.txt
exit $rc
'''

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def main():
    ids = sys.argv[1:] or list(BUGS)
    work = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    copy = os.path.join(work, 'repo')
    r = sh(f'cp -a {REPO} {copy} && rm -rf -- {copy}/_build && git -C {copy} status --short')
    assert r.returncode == 0, r.stdout
    def build():
        return sh(f'cmake -S {copy} -B {copy}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
                  f'-DENABLE_TESTS=ON -DENABLE_INTEGRATION_TESTS=OFF -DDOWNLOAD_TUTORIAL_FILES=OFF && ninja -C {copy}/_build')
    r = build(); assert r.returncode == 0, r.stdout[-2000:]
    stable = json.load(open('/opt/vp/BASELINE.json'))
    ok_all = True
    for bid in ids:
        b = BUGS[bid]
        d = os.path.join(work, 'seed', bid); os.makedirs(d)
        for f, old, new in b['edits']:
            p = f'{copy}/src/libcatnip/{f}'
            s = open(p).read()
            assert s.count(old) >= 1, (bid, 'text not found', old)
            n = b.get('nth', 0)
            if s.count(old) > 1 and 'nth' not in b: raise SystemExit(f'{bid}: {s.count(old)} matches of {old!r}')
            pos = -1
            for _ in range(n + 1): pos = s.index(old, pos + 1)
            open(p, 'w').write(s[:pos] + new + s[pos + len(old):])
        patch = sh('git diff', cwd=copy).stdout
        open(d + '/patch.diff', 'w').write(patch)
        src = '''#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <fstream>\n#include <iostream>\n#include <map>\n#include <memory>\n#include <set>\n#include <stdexcept>\n#include <string>\n#include <vector>\n#include <utility>\n''' + ''.join(f'#include "{x}"\n' for x in b['inc']) + '''using namespace catnip;
using namespace std;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "broken: %s\\n", #c); exit(1); } } while (0)
#define THROWS(e) do { bool t_ = false; try { e; } catch (exception &) { t_ = true; } if (!t_) { fprintf(stderr, "no exception: %s\\n", #e); exit(1); } } while (0)
static bool close_(double a, double b) { return fabs(a - b) < 1e-9; }
''' + b.get('pre', '') + '\nint main() {\n  (void)close_;\n' + b['demo'] + '\n  return 0;\n}\n'
        open(d + '/demo.cpp', 'w').write(src)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # changed lines belong to the original code
        bad = []
        cur = None; ln = 0
        for l in patch.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m: cur = m.group(1)
            m = re.match(r'@@ -(\d+)', l)
            if m: ln = int(m.group(1)); continue
            if l.startswith('-') and not l.startswith('---'):
                bl = sh(f'git blame -s -L{ln},{ln} HEAD -- {cur}', cwd=copy).stdout
                if not bl.startswith('^' + BASE): bad.append(bl.strip())
            if l[:1] in '- ' and not l.startswith('---'): ln += 1
        st = {}
        st['orig'] = 'ok' if not bad else 'NOT-ORIGINAL ' + '; '.join(bad)
        r = build(); st['build'] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        r = sh(f'ctest --test-dir {copy}/_build -j4 --timeout 60'); st['tests'] = 'pass' if '100% tests passed' in r.stdout else 'FAIL'
        if st['tests'] == 'FAIL':
            r2 = sh(f'ctest --test-dir {copy}/_build -j1 --timeout 60 --rerun-failed'); st['tests'] = 'pass' if '100% tests passed' in r2.stdout else 'FAIL'
            if st['tests'] == 'FAIL': st['tests'] += ' ' + ' '.join(re.findall(r'- (\S+) \(', r2.stdout))
        r = sh(d + '/demo.sh', cwd=copy); st['demo+'] = r.returncode; st['msg'] = r.stdout.strip()[-200:]
        sh('git checkout -q -- .', cwd=copy)
        rr = build(); assert rr.returncode == 0
        r = sh(d + '/demo.sh', cwd=copy); st['demo-'] = r.returncode
        if r.returncode: st['msg-'] = r.stdout.strip()[-800:]
        good = st['orig'] == 'ok' and st['build'] == 0 and st['tests'] == 'pass' and st['demo+'] not in (0, 3) and st['demo-'] == 0
        print('KEPT' if good else 'REJECTED', bid, b['prop'], st, flush=True)
        ok_all &= good
        if good:
            t = f'{OUT}/{bid}'
            if os.path.isdir(t): shutil.rmtree(t)
            shutil.copytree(d, t)
    shutil.rmtree(work)
    return 0 if ok_all else 1
sys.exit(main())
