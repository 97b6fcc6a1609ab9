"""Re-run the failing case of a replay file against the current /repo: python3-vt -m ccv.replay <file>"""
import sys, json, tempfile, shutil
from . import run
from contracts import props


def main():
    r = json.load(open(sys.argv[1]))
    if 'case' not in r:
        print('no failing input in this file; failed obligations:')
        for o in r.get('failed_obligations', []):
            print(' ', o['label'], o['where'])
        return 1
    tmp = tempfile.mkdtemp(prefix='ccv.')
    try:
        H = run.Harness(props.PROPS[r['property']]['harness'], tmp, run.generated_headers(tmp))
        H.wait()
        x = H.run(r['property'], r['seed'], r['tier'], 240, r['case'])
        print(x['text'])
        return 0 if x['ok'] else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
