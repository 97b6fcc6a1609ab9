"""Check runner: python3-vt -m ccv.run <property>  (environment VERIF_TIER, VERIF_SEED)."""
import sys, os, json, time, glob, subprocess, tempfile, shutil, hashlib, importlib, pickle, select, signal, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCV_REPO', '/repo')
sys.setrecursionlimit(20000)


def sources():
    base = REPO + '/src/libcatnip'
    out = []
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x != 'tests')
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.cpp')]
    return out


# --------------------------------------------------------------------------- configuration header
def generated_headers(tmp):
    """calcJconfig.hpp is generated by cmake; provide it when the build has not made it"""
    src = REPO + '/src/libcatnip/calcJconfig.hpp'
    if os.path.exists(src):
        return None
    d = os.path.join(tmp, 'gen', 'libcatnip')
    os.makedirs(d, exist_ok=True)
    txt = open(src + '.in').read()
    import re
    vers = {}
    try:
        for m in re.finditer(r'set\s*\(\s*(\w+)\s+"?([^")\s]+)"?\s*\)', open(REPO + '/CMakeLists.txt').read()):
            vers[m.group(1)] = m.group(2)
    except OSError:
        pass
    txt = re.sub(r'@(\w+)@', lambda m: vers.get(m.group(1), '0'), txt)
    for p in (os.path.join(d, 'calcJconfig.hpp'), os.path.join(tmp, 'gen', 'calcJconfig.hpp')):
        open(p, 'w').write(txt)
    return os.path.join(tmp, 'gen')


# --------------------------------------------------------------------------- bounded harness
FLAGS = ['-std=c++14', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-w',
         '-I' + REPO + '/src', '-I' + REPO + '/src/libcatnip', '-I' + VERIF + '/harness']


class Harness:
    def __init__(self, group, tmp, gen):
        self.group, self.tmp, self.gen = group, tmp, gen
        self.dir = os.path.join(tmp, 'h')
        os.makedirs(self.dir, exist_ok=True)
        self.log = os.path.join(self.dir, 'build.log')
        fl = FLAGS + (['-I' + gen, '-I' + gen + '/libcatnip'] if gen else [])
        mk = ['FL=' + ' '.join(fl), 'all: h']
        objs = []
        for i, s in enumerate(sources() + [VERIF + '/harness/h.cpp', VERIF + '/harness/%s.cpp' % group]):
            o = 'o%d_%s.o' % (i, os.path.basename(s)[:-4])
            objs.append(o)
            mk.append('%s: %s\n\tg++ $(FL) -c $< -o $@' % (o, s))
        mk.append('h: %s\n\tg++ $(FL) %s -Wl,--wrap=exit -o $@' % (' '.join(objs), ' '.join(objs)))
        open(os.path.join(self.dir, 'Makefile'), 'w').write('\n'.join(mk) + '\n')
        self.p = subprocess.Popen(['make', '-j4', '-s', 'h'], cwd=self.dir, stdout=open(self.log, 'w'), stderr=subprocess.STDOUT)

    def wait(self):
        self.p.wait()
        if self.p.returncode:
            raise RuntimeError('the harness does not build:\n' + open(self.log).read()[-3000:])

    def run(self, prop, seed, tier, timeout, only=None):
        cmd = [os.path.join(self.dir, 'h'), prop, str(seed), tier] + ([str(only)] if only else [])
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', env=dict(os.environ, H_TMP=self.dir))
        except subprocess.TimeoutExpired:
            return {'ok': None, 'text': 'harness time limit', 'cases': 0, 'nontrivial': 0}
        out = p.stdout.strip().split('\n')
        for l in out:
            if l.startswith('FAIL'):
                return {'ok': False, 'text': l, 'cases': 0, 'nontrivial': 0}
        for l in out:
            if l.startswith('OK'):
                kv = dict(x.split('=') for x in l.split()[1:])
                known = [x[6:] for x in out if x.startswith('KNOWN ')]
                return {'ok': True, 'text': l, 'cases': int(kv['cases']), 'nontrivial': int(kv['nontrivial']), 'known': known,
                        'samples': [x[7:] for x in out if x.startswith('SAMPLE ')]}
        return {'ok': None, 'text': 'harness ended with %d: %s' % (p.returncode, p.stdout[-500:] + p.stderr[-500:]), 'cases': 0, 'nontrivial': 0}


# --------------------------------------------------------------------------- proof jobs
def job(V, key, timeout, wfd):
    from . import smt, contract
    try:
        rep = V.verify(key)
        contract.discharge(rep.obls, timeout)
        slow = [o for o in rep.obls if not o.result.ok and o.result.model is None]
        if 0 < len(slow) <= 6:          # undecided: once more with more time (the machine may have been busy)
            for o in slow:
                o.result = smt.prove(o.assum, o.goal, 3 * timeout)
        obls = []
        for o in rep.obls:
            r = o.result
            d = {'label': o.label, 'where': o.where, 'ok': r.ok, 'by': r.backend, 'time': round(r.time, 3)}
            if not r.ok:
                d['detail'] = r.detail
                d['goal'] = str(o.goal)[:3000]
                d['assumptions'] = str(o.assum)[:6000]
                if r.model is not None:
                    d['model'] = str(r.model)[:4000]
            obls.append(d)
        res = {'key': key, 'status': rep.status, 'reason': rep.reason, 'obls': obls, 'loops': rep.loops, 'used': rep.used,
               'inlined': rep.inlined, 'trusted': rep.trusted, 'cases': rep.cases, 'outcomes': rep.outcomes,
               'time': rep.time, 'solver': smt.STATS.time, 'queries': smt.STATS.queries}
    except MemoryError:
        res = {'key': key, 'status': 'unsupported', 'reason': 'out of memory', 'obls': []}
    except Exception as e:
        res = {'key': key, 'status': 'unsupported', 'reason': 'internal: %s %s' % (type(e).__name__, str(e)[:200]), 'obls': [],
               'trace': traceback.format_exc()[-2000:]}
    with os.fdopen(wfd, 'wb') as f:
        pickle.dump(res, f)


def run_jobs(V, keys, contracts, timeout, limit, workers=6, budget=600):
    """verify the functions and, transitively, every contract they use"""
    t0 = time.time()
    todo, seen, res, live = list(keys), set(keys), {}, {}
    while todo or live:
        while todo and len(live) < workers:
            k = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                try:
                    job(V, k, timeout, w)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [pid, k, time.time(), b'']
        rd, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for r in list(live):
            pid, k, ts, buf = live[r]
            done = False
            if r in rd:
                d = os.read(r, 1 << 20)
                if d:
                    live[r][3] += d
                else:
                    done = True
            if not done and (now - ts > limit or now - t0 > budget):
                os.kill(pid, signal.SIGKILL)
                live[r][3] = b''
                done = True
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    x = pickle.loads(live[r][3])
                except Exception:
                    x = {'key': k, 'status': 'unsupported', 'reason': 'time limit', 'obls': []}
                del live[r]
                res[k] = x
                for u in sorted(x.get('used', {})):
                    if u not in seen and u in contracts and not contracts[u].trusted:
                        seen.add(u)
                        todo.append(u)
    return res


# --------------------------------------------------------------------------- main
def known_findings():
    out = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                kv = l[len('finding:'):].strip()
                m = kv.split(' ', 2)      # property=<id> key=<token> text
                out.setdefault(m[0].split('=')[1], {})[m[1].split('=')[1]] = m[2]
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from contracts import props
    cfg = props.PROPS[prop]
    evdir = os.environ.get('CCV_EVIDENCE', VERIF + '/evidence')
    os.makedirs(evdir + '/replay', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='ccv.')
    os.environ['CCV_TMP'] = tmp
    try:
        code = check(prop, cfg, tier, seed, evdir, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def check(prop, cfg, tier, seed, evdir, tmp, t0):
    gen = generated_headers(tmp)
    if gen:
        os.environ['CCV_GEN'] = gen
    H = Harness(cfg['harness'], tmp, gen)
    from . import cast, contract
    for m in cfg['modules']:
        importlib.import_module('contracts.' + m)
    roots = cfg['functions']
    reports = {}
    perr = None
    try:
        P = cast.Program(sources())
        V = contract.Verifier(P)
        to = 8000 if tier == 'quick' else 20000
        reports = run_jobs(V, roots, contract.CONTRACTS, to, 420 if tier == 'quick' else 900, budget=560 if tier == 'quick' else 3000)
    except cast.Unsupported as e:
        perr = 'extraction: ' + str(e)
    H.wait()
    runs = []
    seeds = [seed] if tier == 'quick' else [seed + i for i in range(6)]
    bad = None
    cases = nontriv = 0
    known = []
    for s in seeds:
        r = H.run(prop, s, tier, 240)
        r['seed'] = s
        runs.append(r)
        if r['ok'] is None:
            print('ERROR: ' + r['text'])
            return 2
        if not r['ok']:
            bad = r
            break
        cases += r['cases']
        nontriv += r['nontrivial']
        for k in r.get('known', []):
            if k not in known:
                known.append(k)
    # ---- obligations
    nob = ndis = 0
    by = {}
    failed, undecided, proved = [], [], []
    trusted, used, inl = {}, {}, {}
    solver = 0.0
    fl = []
    for k in sorted(reports):
        x = reports[k]
        solver += x.get('solver', 0.0)
        ok = x['status'] == 'ok'
        f = {'function': k, 'status': x['status'], 'obligations': len(x['obls']), 'discharged': sum(o['ok'] for o in x['obls']),
             'slowest_s': max([o['time'] for o in x['obls']] or [0]),
             'cases': x.get('cases', 0), 'outcomes': x.get('outcomes', 0), 'solver_s': round(x.get('solver', 0), 2),
             'loops': [{'line': l[1], 'components': [{'name': a, 'closed_form': b} for a, b in l[2]]} for l in x.get('loops', [])]}
        if x.get('inlined'):
            f['inlined'] = sorted(x['inlined'])
        if x.get('used'):
            f['contracts_used'] = sorted(x['used'])
        if not ok:
            f['reason'] = x['reason']
            undecided.append(f)
        else:
            nob += len(x['obls'])
            if not x['obls']:
                undecided.append(dict(f, reason='no obligations generated'))
            for o in x['obls']:
                if o['ok']:
                    ndis += 1
                    by[o['by'] or 'simplifier'] = by.get(o['by'] or 'simplifier', 0) + 1
                else:
                    failed.append((k, o))
            if all(o['ok'] for o in x['obls']):
                proved.append(k)
        fl.append(f)
        for t in x.get('trusted', {}):
            trusted[t] = trusted.get(t, 0) + x['trusted'][t]
        for u in x.get('used', {}):
            if u in contract.CONTRACTS and contract.CONTRACTS[u].trusted:
                trusted['contract of %s (assumed: %s)' % (u, contract.CONTRACTS[u].note)] = 1
    # ---- verdict
    violations = 0
    lines = []
    rp = '%s/replay/%s.json' % (evdir, prop)
    if os.path.exists(rp):
        os.unlink(rp)
    if bad is not None:
        violations = 1
        idx = bad['text'].split('case=')[1].split(' ')[0]
        again = H.run(prop, bad['seed'], tier, 240, idx)
        rec = {'property': prop, 'kind': 'failing input on the real code', 'report': bad['text'], 'seed': bad['seed'], 'tier': tier,
               'case': int(idx), 'reproduced_alone': again['ok'] is False,
               'rerun': 'VERIF_SEED=%d python3-vt -m ccv.replay %s' % (bad['seed'], rp),
               'failed_obligations': [dict(o, function=k) for k, o in failed[:10]]}
        json.dump(rec, open(rp, 'w'), indent=1)
        print('failing input: ' + bad['text'])
        for k, o in failed[:6]:
            print('failed obligation: %s [%s]' % (o['label'], o['where']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
    elif failed:
        violations = 1
        json.dump({'property': prop, 'kind': 'failed obligation, no failing input found',
                   'failed_obligations': [dict(o, function=k) for k, o in failed], 'searched_inputs': cases}, open(rp, 'w'), indent=1)
        for k, o in failed[:6]:
            print('failed obligation: %s [%s] %s' % (o['label'], o['where'], o.get('detail', '')))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    kf = known_findings().get(prop, {})
    for k in known:
        key = k.split(' ', 1)[0]
        if key in kf:
            lines.insert(0, 'KNOWN-FINDING: property=%s %s' % (prop, kf[key]))
        else:
            violations = 1
            json.dump({'property': prop, 'kind': 'failing input on the real code', 'report': k}, open(rp, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
    full = not undecided and not failed and not perr and len(reports) > 0
    assumptions = list(props_common()) + cfg.get('assumptions', [])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof'),
          'coverage': {
              'obligations': nob, 'discharged': ndis,
              'checker_cmd': './check %s %s' % (prop, tier),
              'trusted_base': ['symbolic execution of the clang AST, loop summarisation and VC generation in /verif/ccv',
                               'clang 18 front end (AST)', 'z3 %s (python), cvc5 1.1.2' % z3v()] + sorted('std: ' + t if not t.startswith('contract') else t for t in trusted),
              'backends': by, 'solver_s': round(solver, 2),
              'functions_under_contract': len(reports), 'functions_proved': len(proved),
              'functions': fl,
              'bounded': [{'function': f['function'], 'reason': f['reason'], 'stand_in': 'harness %s' % cfg['harness']} for f in undecided] +
                         [{'function': f, 'reason': r, 'stand_in': 'harness %s' % cfg['harness']} for f, r in cfg.get('bounded', [])],
              'evaluations': cases, 'distinct_nontrivial': nontriv,
              'rule': 'harness %s.cpp on the real code under ASan/UBSan; %s' % (cfg['harness'], cfg.get('rule', 'small sizes exhaustively plus seeded random cases; a case is non-trivial when it exercises the operation itself')),
              'samples': sum((r.get('samples', []) for r in runs), [])[:12] or [r['text'] for r in runs],
              'explanation': cfg.get('explanation', ''),
          },
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    if perr:
        ev['coverage']['extraction_error'] = perr
    if undecided and not violations:
        for f in undecided:
            print('undecided by proof (bounded check only): %s: %s' % (f['function'], f['reason']))
    if perr:
        print(perr)
    json.dump(ev, open('%s/%s.json' % (evdir, prop), 'w'), indent=1, default=str)
    print('%s: %d functions, %d/%d obligations discharged, %d harness cases, %.1f s%s' % (
        prop, len(reports), ndis, nob, cases, time.time() - t0, '' if full else ' (not everything decided by proof)'))
    for l in lines:
        print(l)
    return 1 if violations else 0


def z3v():
    import z3
    return z3.get_version_string()


def props_common():
    return ['int and size_t arithmetic is mathematical; element counts of matrices fit in int',
            'double is treated as the real numbers (no rounding, NaN or infinity)',
            'heap allocation succeeds', 'functions are called with objects that satisfy their type invariants']


if __name__ == '__main__':
    main()
