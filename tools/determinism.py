"""One seed is one execution: runs the same cases of each check twice - with other numbers of workers, in other places,
and under another hash seed - and compares the digests of all their events.  python tools/determinism.py [ID...]"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(pid, runs, workers, hashseed):
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'digests')
        subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), pid, '--runs', str(runs), '--workers',
                        str(workers), '--digests', path, '--no-evidence'], check=True, stdout=subprocess.DEVNULL,
                       env=dict(os.environ, VERIF_HASHSEED=hashseed, TMPDIR=d), cwd=HERE)
        with open(path) as f:
            return f.read()


def main():
    bad = 0
    pids = sys.argv[1:] or [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    for pid in pids:
        runs = int(os.environ.get('RUNS', '24'))
        first = digests(pid, runs, 8, '0')
        same = [digests(pid, runs, 5, '0') == first, digests(pid, runs, 7, '4711') == first]
        bad += not all(same)
        print('%s: %d cases, other workers %s, other hash seed %s' % (
            pid, runs, *('identical' if x else 'DIFFERENT' for x in same)), flush=True)
    return bad


sys.exit(main())
