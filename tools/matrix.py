"""Which checks catch which planted bugs: python tools/matrix.py [ID...]

Each bug is applied to a scratch copy of /repo (never to /repo itself); the check of its property runs on the copy.
PROPS=C01,C02 selects other checks, ARGS passes options on, OUT=FILE keeps the result as JSON."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def one(bid):
    d = os.path.join(SEEDED, bid)
    with open(os.path.join(d, 'meta.json')) as f:
        prop = json.load(f)['property']
    copy = '/tmp/verif_matrix_%d' % os.getpid()
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    out = []
    try:
        subprocess.run(['git', '-C', copy, 'apply', os.path.join(d, 'patch.diff')], check=True)
        for p in os.environ.get('PROPS', prop).split(','):
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p, '--no-evidence', '--no-shrink']
                               + os.environ.get('ARGS', '').split(), cwd=HERE, text=True, check=False,
                               env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED=os.environ.get('VERIF_SEED', '1')),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            runs = [l for l in r.stdout.splitlines() if ' runs in ' in l]
            out.append({'bug': bid, 'check': p, 'property': prop, 'exit': r.returncode,
                        'seconds': round(time.time() - t), 'runs': runs[-1:] or r.stdout[-300:]})
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return out


def main():
    results = []
    for bid in sys.argv[1:] or sorted(os.listdir(SEEDED)):
        for r in one(bid):
            results.append(r)
            print('%(bug)-28s %(check)s exit %(exit)d %(seconds)3d s %(runs)s' % r, flush=True)
            if os.environ.get('OUT'):
                with open(os.environ['OUT'], 'w') as f:
                    json.dump(results, f, indent=1)


main()
