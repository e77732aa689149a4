"""Runs the simulations of one property: seeds, parallel children, minimisation, replay, evidence.

    check.py <property> [--tier quick|thorough] [--replay FILE] [--runs N] [--only I] [--digests FILE]

Every simulated run happens in a forked child of its own and is a pure function of its case (a JSON value), which is
itself a pure function of (VERIF_SEED, property, index).  Exit: 0 held, 1 violation, 2 usage, 3 error of the check."""
import argparse
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_LIMIT = 240          # seconds of one run before it is taken for hung (normal: a few)
WALL = time.monotonic


def preload():
    """everything a child needs, imported once in the parent"""
    import numpy, scipy.io, scipy.interpolate, scipy.optimize, scipy.spatial  # noqa  pylint: disable=all
    import gsw, pymatreader, matplotlib  # noqa
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    from . import kernel, world
    kernel.install_finder()
    # the code of the repository is compiled once, in this process, from the working tree as it is now
    try:
        kernel.fresh_instance()
    except Exception as e:  # pylint: disable=broad-except
        print('ERROR: pyowc of %s does not import: %r' % (kernel.REPO, e))
        sys.exit(3)
    for name in kernel.pyowc_names():
        del sys.modules[name]
    world.wmo_table()


class Context:
    """what a run may use"""

    def __init__(self, scratch, topo, case):
        self.dir, self.topo, self.case = scratch, topo, case
        self.sessions = []
        self.probes = collections.Counter()
        self.nontrivial = False
        self.states = set()
        self.decisions = {}          # what was decided at random in the run, in the form a case can prescribe it

    def session(self, spec, seed, **kw):
        from .session import Session
        s = Session(os.path.join(self.dir, 'w%d' % len(self.sessions)), spec, self.topo, seed, **kw)
        self.sessions.append(s)
        return s

    def probe(self, name, n=1):
        self.probes[name] += n

    def grandchild(self, func):
        """value of func() computed in a forked process (nothing it does to this process remains)"""
        import pickle
        from .session import Violation
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                try:
                    out = ('ok', func())
                except Violation as e:
                    out = ('violation', (e.label, e.detail))
                except BaseException as e:  # pylint: disable=broad-except
                    out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError('grandchild died')
        status, value = pickle.loads(data)
        if status == 'violation':
            raise Violation(*value)
        if status == 'error':
            raise RuntimeError('in grandchild: ' + value)
        return value


def run_case(prop, case, scratch, topo):
    """execute one case in this process; returns a JSON-able result"""
    from .kernel import Budget
    from .session import Violation
    ctx = Context(scratch, topo, case)
    res = {'status': 'ok', 'label': None, 'detail': None}
    try:
        prop.execute(case, ctx)
    except Violation as e:
        res.update(status='violation', label=e.label, detail=str(e.detail)[:2000])
    except Budget as e:
        res.update(status='violation', label='progress', detail='run did not end: %s' % e)
    except Exception:  # pylint: disable=broad-except
        res.update(status='harness', detail=traceback.format_exc()[-3000:])
    stats, fired, h = collections.Counter(), [], hashlib.sha256()
    advanced, events, marks, tail = 0.0, 0, [], []
    for s in ctx.sessions:
        k = s.kernel
        stats.update(k.stats)
        fired.extend(k.fired)
        advanced += k.advanced
        events += k.n
        marks.extend(s.marks)
        h.update(k.hash.digest())
        tail = list(k.tail)
    res.update(digest=h.hexdigest()[:16], stats=dict(stats), fired=fired[:200], sim_time=advanced, events=events,
               marks=marks[:80], probes=dict(ctx.probes), nontrivial=bool(ctx.nontrivial),
               states=sorted(ctx.states)[:400],
               signature=hashlib.sha256(repr((marks, [(f['kind'], f['op'], f['cls'], f['path']) for f in fired],
                                              sorted(ctx.states))).encode()).hexdigest()[:16])
    if res['status'] != 'ok':
        res['tail'] = tail
        res['decisions'] = ctx.decisions
    return res


class Pool:
    """forked children, one per run"""

    def __init__(self, prop, base, topo, workers):
        self.prop, self.base, self.topo, self.workers = prop, base, topo, workers
        self.live = {}
        self.count = 0

    def start(self, key, case):
        self.count += 1
        scratch = os.path.join(self.base, 'run-%d' % self.count)
        os.makedirs(scratch)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1)
                if not os.environ.get('VERIF_DEBUG'):
                    os.dup2(null, 2)
                gc.disable()
                # what the interpreter does with entropy of its own is pinned before the run
                random.seed(1)
                import numpy as np
                np.random.seed(1)
                import warnings
                warnings.simplefilter('ignore')
                np.seterr(all='ignore')
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
                except (ImportError, ValueError):
                    pass
                res = run_case(self.prop, case, scratch, self.topo)
                data = json.dumps(res).encode()
            except BaseException:  # pylint: disable=broad-except
                data = json.dumps({'status': 'harness', 'detail': traceback.format_exc()[-3000:]}).encode()
            try:
                from .kernel import Real
                while data:
                    data = data[Real.os_write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = {'pid': pid, 'key': key, 'case': case, 'scratch': scratch, 'data': b'', 't0': WALL()}

    def wait(self, timeout=1.0):
        """finished runs: list of (key, case, result)"""
        out = []
        ready, _, _ = select.select(list(self.live), [], [], timeout)
        for r in ready:
            part = os.read(r, 1 << 20)
            if part:
                self.live[r]['data'] += part
                continue
            out.append(self._end(r))
        for r in [r for r, j in self.live.items() if WALL() - j['t0'] > RUN_LIMIT]:
            os.kill(self.live[r]['pid'], signal.SIGKILL)
            self.live[r]['hung'] = True
            out.append(self._end(r))
        return out

    def _end(self, r):
        j = self.live.pop(r)
        os.close(r)
        try:
            os.killpg(j['pid'], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        os.waitpid(j['pid'], 0)
        shutil.rmtree(j['scratch'], ignore_errors=True)
        if j.get('hung'):
            res = {'status': 'violation', 'label': 'progress', 'detail': 'no end after %d s' % RUN_LIMIT}
        else:
            try:
                res = json.loads(j['data'])
            except ValueError:
                res = {'status': 'harness', 'detail': 'the run died without a result'}
        res['wall'] = WALL() - j['t0']
        return j['key'], j['case'], res

    def one(self, case):
        self.start(None, case)
        while True:
            done = self.wait()
            if done:
                return done[0][2]

    def stop(self):
        for r in list(self.live):
            try:
                os.kill(self.live[r]['pid'], signal.SIGKILL)
            except ProcessLookupError:
                pass
            self._end(r)

    def map(self, cases):
        """results of several cases, in order"""
        out, todo = {}, list(enumerate(cases))
        while todo or self.live:
            while todo and len(self.live) < self.workers:
                self.start(*todo.pop(0))
            for key, _, res in self.wait():
                out[key] = res
        return [out[i] for i in range(len(cases))]


# ------------------------------------------------------------------------------------------ minimisation
def generic_shrinks(case):
    """simpler cases: fewer steps, fewer faults, smaller worlds"""
    for key in ('ops', 'steps', 'faults', 'workers'):
        seq = case.get(key)
        if not isinstance(seq, list) or not seq:
            continue
        n = len(seq)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                if size < n or key == 'faults':
                    yield dict(copy.deepcopy(case), **{key: copy.deepcopy(seq[:i] + seq[i + size:])})
            size //= 2
    for key in ('ops', 'steps', 'workers'):
        seq = case.get(key)
        for i, op in enumerate(seq if isinstance(seq, list) else []):
            if isinstance(op, dict):
                for sub in ('faults', 'line', 'fault', 'keep_one'):
                    if op.get(sub):
                        c = copy.deepcopy(case)
                        c[key][i][sub] = None if not isinstance(op[sub], list) else []
                        yield c
                        if isinstance(op[sub], list) and len(op[sub]) > 1:
                            for j in range(len(op[sub])):
                                c = copy.deepcopy(case)
                                del c[key][i][sub][j]
                                yield c
    if isinstance(case.get('preempt'), list):
        seq = case['preempt']
        size = max(1, len(seq) // 2)
        while size >= 1 and seq:
            for i in range(0, len(seq), size):
                yield dict(copy.deepcopy(case), preempt=seq[:i] + seq[i + size:])
            size //= 2
    spec = case.get('spec')
    if isinstance(spec, dict):
        for i in range(len(spec.get('boxes', []))):
            if not spec['boxes'][i].get('near'):
                c = copy.deepcopy(case)
                del c['spec']['boxes'][i]
                yield c
        for k, v in (('absent_flags', []), ('float_dir', '/')):
            if spec.get(k) != v:
                c = copy.deepcopy(case)
                c['spec'][k] = v
                yield c
        for k, v in (('MAP_USE_PV', 0), ('MAP_USE_SAF', 0), ('CONFIG_MAX_CASTS', 300)):
            if spec.get('config', {}).get(k) != v:
                c = copy.deepcopy(case)
                c['spec']['config'][k] = v
                yield c
        for i, f in enumerate(spec.get('floats', [])):
            if f.get('bad'):
                c = copy.deepcopy(case)
                c['spec']['floats'][i]['bad'] = []
                yield c


def minimise(prop, pool, case, res, seconds, tries):
    """greedy: take the first simpler case with the same class of violation, again and again"""
    t0, used = WALL(), 0
    label = res['label']
    shrinks = getattr(prop, 'shrink', None)
    improved = True
    while improved and WALL() - t0 < seconds and used < tries:
        improved = False
        batch, seen = [], set()

        def candidates():
            if res.get('decisions') and any(case.get(k) != v for k, v in res['decisions'].items()):
                yield dict(copy.deepcopy(case), **res['decisions'])
            if shrinks is not None:
                yield from shrinks(case)
            yield from generic_shrinks(case)
        gen = candidates()
        while True:
            batch = []
            for c in gen:
                text = json.dumps(c, sort_keys=True)
                if text not in seen and text != json.dumps(case, sort_keys=True):
                    seen.add(text)
                    batch.append(c)
                if len(batch) == pool.workers:
                    break
            if not batch or WALL() - t0 > seconds or used >= tries:
                break
            used += len(batch)
            results = pool.map(batch)
            good = [(c, r) for c, r in zip(batch, results) if r['status'] == 'violation' and r['label'] == label]
            if good:
                case, res = good[0]
                improved = True
                break
    return case, res, used


# ------------------------------------------------------------------------------------------ known findings
def known_findings(pid):
    import re
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', line.strip())
                if m and m.group(1) == pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ------------------------------------------------------------------------------------------ main
def case_of(prop, seed, i, tier):
    rng = random.Random('%d:%s:%d' % (seed, prop.ID, i))
    case = prop.generate(rng, i, tier)
    return json.loads(json.dumps(case))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--only', type=int)
    ap.add_argument('--digests')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-shrink', action='store_true')
    args = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    started = WALL()
    base = tempfile.mkdtemp(prefix='owcsim-')
    try:
        # the font list of matplotlib: a copy, so that nothing is ever written to the original
        os.makedirs(base + '/mpl')
        for f in os.listdir('/opt/vp/mplconfig') if os.path.isdir('/opt/vp/mplconfig') else []:
            if f.endswith('.json'):
                shutil.copy('/opt/vp/mplconfig/' + f, base + '/mpl')
        os.environ['MPLCONFIGDIR'] = base + '/mpl'
        preload()
        prop = importlib.import_module('props.' + args.property.lower())
        return _main(args, prop, seed, started, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(args, prop, seed, started, base):
    from . import world
    topo = os.path.join(base, 'tbase.int')
    world.write_topo(topo)
    pool = Pool(prop, base, topo, args.workers)
    if args.replay:
        return replay(args, prop, pool)
    if args.only is not None:
        case = case_of(prop, seed, args.only, args.tier)
        res = pool.one(case)
        print(json.dumps({'case': case, 'result': res}, indent=1))
        return {'ok': 0, 'violation': 1}.get(res['status'], 3)
    plan = args.runs or (prop.QUICK if args.tier == 'quick' else prop.THOROUGH)
    limit = 540 if args.tier == 'quick' else 3 * 3600
    todo = list(range(args.first, args.first + plan))
    results, bad, harness = {}, [], []
    twice = {i: None for i in todo[:3]}          # executed a second time at the end: same digest expected
    while todo or pool.live:
        stop = (bad or harness) and not args.keep_going
        while todo and len(pool.live) < pool.workers and not stop and WALL() - started < limit:
            i = todo.pop(0)
            pool.start(i, case_of(prop, seed, i, args.tier))
        if not pool.live:
            break
        for i, case, res in pool.wait():
            results[i] = res
            if res['status'] == 'violation':
                for pattern, _ in known_findings(prop.ID):
                    if pattern.search('%s: %s' % (res['label'], res['detail'])):
                        res['status'] = 'known'
                        break
                else:
                    bad.append((i, case, res))
                    if args.keep_going:
                        print('case %d: %s: %s' % (i, res['label'], res['detail'][:600]), flush=True)
            elif res['status'] == 'harness':
                harness.append((i, res))
                if args.keep_going:
                    print('case %d: HARNESS %s' % (i, res['detail']), flush=True)
    if args.digests:
        with open(args.digests, 'w') as f:
            for i in sorted(results):
                f.write('%d %s %s\n' % (i, results[i].get('digest'), results[i].get('status')))
    done = len(results)
    status, replays = 0, []
    if bad:
        bad.sort(key=lambda b: b[0])
        i, case, res = bad[0]
        print('%s: case %d (VERIF_SEED=%d): %s: %s' % (prop.ID, i, seed, res['label'], res['detail']), flush=True)
        # it has to happen again before anything is reported
        again = [res] if res['label'] == 'progress' and 'no end' in res['detail'] else pool.map([case] * 3)
        same = [r for r in again if r['status'] == 'violation' and r['label'] == res['label']]
        if not same:
            print('ERROR: the violation of case %d does not repeat: %s' % (i, [r.get('label') for r in again]))
            status = 3
        else:
            used = 0
            if not args.no_shrink and 'no end' not in res['detail']:
                budget = 90 if args.tier == 'quick' else 600
                case, res, used = minimise(prop, pool, case, res, budget, 400)
            path = write_replay(prop, seed, i, case, res, used)
            confirmed = confirm(prop.ID, path) if 'no end' not in res['detail'] else None
            print('minimised with %d further runs; replay in a fresh process %s'
                  % (used, {True: 'reproduces it', False: 'does NOT reproduce it', None: 'skipped'}[confirmed]))
            for f in res.get('fired', [])[:12]:
                print('   fault %(kind)s at %(op)s of %(path)s (event %(event)d)' % f)
            print('   %s: %s' % (res['label'], res['detail']))
            print('VIOLATION property=%s replay=%s' % (prop.ID, path), flush=True)
            status, replays = 1, [path]
    elif harness:
        print('ERROR: case %d: %s' % (harness[0][0], harness[0][1]['detail']))
        status = 3
    elif done < max(2, plan // 4):
        print('ERROR: only %d of %d runs were done in %d s' % (done, plan, WALL() - started))
        status = 3
    mismatch = 0
    if status == 0 and not args.no_evidence:
        for i in list(twice)[:3]:
            if i in results:
                r = pool.one(case_of(prop, seed, i, args.tier))
                mismatch += r.get('digest') != results[i].get('digest')
        if mismatch:
            print('note: %d of 3 repeated runs had another event log' % mismatch)
    for _, text in known_findings(prop.ID):
        print('KNOWN-FINDING: property=%s %s' % (prop.ID, text))
    wall = WALL() - started
    summary = evidence(args, prop, seed, results, plan, wall, bad, status, mismatch, replays)
    print('%s: %d runs in %.0f s (%d planned), %d faults injected, %s' % (
        prop.ID, done, wall, plan, summary['coverage']['faults_injected'],
        {0: 'held', 1: 'VIOLATED', 3: 'no answer'}[status]))
    return status


def write_replay(prop, seed, index, case, res, used):
    folder = os.path.join(HERE, 'replays')
    os.makedirs(folder, exist_ok=True)
    name = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(folder, '%s-%s.json' % (prop.ID, name))
    with open(path, 'w') as f:
        json.dump({'property': prop.ID, 'verif_seed': seed, 'index': index, 'label': res['label'],
                   'detail': res['detail'], 'digest': res.get('digest'), 'minimisation_runs': used, 'case': case,
                   'faults_fired': res.get('fired'), 'last_events': res.get('tail')}, f, indent=1)
    return path


def confirm(pid, path):
    env = dict(os.environ, VERIF_REEXEC='')
    p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), pid, '--replay', path], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, check=False)
    return p.returncode == 1


def replay(args, prop, pool):
    with open(args.replay) as f:
        rep = json.load(f)
    res = pool.one(rep['case'])
    print('result: %s %s: %s' % (res['status'], res.get('label'), res.get('detail')))
    for f in res.get('fired', [])[:20]:
        print('   fault %(kind)s at %(op)s of %(path)s (event %(event)d)' % f)
    for line in (res.get('tail') or [])[-15:]:
        print('   ' + line)
    if res['status'] == 'violation' and res['label'] == rep['label']:
        same = res.get('digest') == rep.get('digest')
        print('event log %s' % ('identical' if same else 'differs'))
        print('VIOLATION property=%s replay=%s' % (prop.ID, args.replay))
        return 1
    return 0 if res['status'] == 'ok' else 3


REAL = ['pyowc (all modules, unmodified, from the working tree)', 'NumPy, SciPy, gsw, pymatreader, Matplotlib (Agg)',
        'buffered I/O layers of Python', 'file contents on a scratch directory']
STUB = ['system calls on files below the world (open, read, write, seek, truncate, close, stat, list, rename, unlink, '
        'fsync): real effect behind a fault-injecting seam', 'durability (model of unsynced data and directory '
        'changes)', 'clocks, sleep, process number, temporary names', 'random state of each process',
        'process creation, death and scheduling']


def evidence(args, prop, seed, results, plan, wall, bad, status, mismatch, replays):
    stats, probes = collections.Counter(), collections.Counter()
    sim, events, signatures, nontrivial, samples = 0.0, 0, set(), set(), []
    states = set()
    fired_places = collections.Counter()
    for i in sorted(results):
        r = results[i]
        stats.update(r.get('stats', {}))
        probes.update(r.get('probes', {}))
        sim += r.get('sim_time', 0.0)
        events += r.get('events', 0)
        signatures.add(r.get('signature'))
        states.update(r.get('states', []))
        for f in r.get('fired', []):
            fired_places['%s at %s/%s' % (f['kind'], f['op'], f['cls'])] += 1
        if r.get('nontrivial'):
            nontrivial.add(r.get('signature'))
            if len(samples) < 4:
                samples.append({'index': i, 'case': _short(case_of(prop, seed, i, args.tier)),
                                'history': r.get('marks'), 'faults': r.get('fired', [])[:5], 'digest': r.get('digest')})
    faults = {k[6:]: v for k, v in stats.items() if k.startswith('fault:')}
    doc = {
        'property': prop.ID, 'tier': args.tier, 'seed': seed, 'level': prop.LEVEL, 'wall_s': round(wall, 1),
        'violations': 1 if status == 1 else 0,
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])),
        'coverage': {
            'evaluations': len(results), 'planned': plan, 'distinct_nontrivial': len(nontrivial), 'rule': prop.RULE,
            'samples': samples or [{'note': 'no run was non-trivial'}],
            'seeds': 'case i of the run is a pure function of (VERIF_SEED=%d, %s, i), i = %d..%d'
                     % (seed, prop.ID, args.first, args.first + plan - 1),
            'runs_per_hour': round(3600 * len(results) / max(wall, 0.1)),
            'simulated_seconds': round(sim, 1), 'file_system_events': events,
            'faults_injected': sum(faults.values()), 'fault_kinds': faults,
            'fault_places': dict(fired_places.most_common(60)),
            'context_switches': stats.get('switches', 0),
            'distinct_histories': len(signatures), 'distinct_states': len(states),
            'state_measure': getattr(prop, 'STATE_MEASURE', 'history of runs, their outcomes and the place of every '
                                     'fault (distinct_histories)'),
            'probes': dict(probes),
            'operations': {k[3:]: v for k, v in stats.items() if k.startswith('op:')},
            'determinism': {'repeated_runs': 3 if status == 0 else 0, 'different_event_logs': mismatch},
            'components_real': REAL, 'components_stubbed': STUB,
        }}
    if replays:
        doc['coverage']['replays'] = replays
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop.ID + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
    return doc


def _short(case):
    text = json.dumps(case)
    if len(text) < 3000:
        return case
    c = copy.deepcopy(case)
    if 'spec' in c:
        c['spec'] = {'region': c['spec'].get('region'), 'boxes': len(c['spec'].get('boxes', [])),
                     'floats': c['spec'].get('floats'), 'config': c['spec'].get('config')}
    return c if len(json.dumps(c)) < 6000 else {'text': json.dumps(c)[:3000]}
