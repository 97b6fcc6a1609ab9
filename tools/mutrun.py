#!/usr/bin/env python3
"""Run the checks against planted changes in scratch copies.
usage: mutrun.py [-j N] [-p PROP] (seeded-id | patch.diff:PROP[,PROP]) ...   (default: every seeded bug)"""
import json, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(item):
    if ':' in item:
        patch, props = item.split(':'); props = props.split(',')
    else:
        patch = f'{V}/seeded/{item}/patch.diff'; props = [json.load(open(f'{V}/seeded/{item}/meta.json'))['property']]
    w = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    out = []
    try:
        subprocess.run(f'cp -a /repo {w}/repo && rm -rf -- {w}/repo/_build && git -C {w}/repo apply {os.path.abspath(patch)}', shell=True, check=True)
        for p in props:
            e = dict(os.environ, CCV_REPO=w + '/repo', CCV_EVIDENCE=w + '/ev')
            r = subprocess.run(['./check', p, 'quick'], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append((p, r.returncode, [l[:230] for l in r.stdout.split('\n') if l.startswith(('failing', 'failed', 'VIOL', 'undecided', 'extraction', 'ERROR'))][:6] or r.stdout[-300:]))
    finally:
        shutil.rmtree(w)
    return item, out
a = sys.argv[1:]; j = 3
if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
items = a or sorted(os.listdir(V + '/seeded'))
with cf.ThreadPoolExecutor(j) as ex:
    for item, out in ex.map(one, items):
        for p, rc, l in out:
            print(('CAUGHT ' if rc == 1 else 'quiet  ' if rc == 0 else 'ERROR  ') + item, p)
            for x in (l if isinstance(l, list) else [l]): print('      ', x)
        sys.stdout.flush()
