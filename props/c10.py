"""C10: concurrent workers give the results of sequential work"""
import hashlib

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C10'
LEVEL = 'exploration'
QUICK, THOROUGH = 120, 4000
RULE = ('A case is a world with 1-3 floats (some with earlier, incomplete results), 2-4 simulated processes with their '
        'pipelines (mapping, settings, calibration; sometimes two processes on the same float), and a seeded schedule '
        'which may switch processes at every file operation, at a drawn rate.  In half of the cases one process is '
        'killed, its storage fails or is slow, or the machine loses power, at a drawn operation.  Afterwards results '
        'are compared with sequential runs, and floats of processes that died are processed again.  Non-trivial: at '
        'least five switches happened.  Distinct: by schedule (sequence of switches) and faults.')
ASSUMPTIONS = ['processes share the file system, not memory; they have different process numbers',
               'switches happen at file operations (nothing else is shared)']
STATE_MEASURE = 'distinct schedules: hash of the sequence of (preemption point, process)'


def generate(rng, i, tier):
    n = rng.choice([1, 2, 2, 3])
    spec = W.random_spec(rng, n_floats=n, nprof=(2, 3), n_boxes=(2, 3), levels=(4, 5), bad_rate=0.15,
                         max_casts=[300, 25], casts=[1, 3, 6])
    for b in spec['boxes']:
        if b['kind'] == 'argo':
            b['mix'] = 1
    floats = list(range(n)) + ([rng.randrange(n)] if n < 3 or rng.random() < 0.3 else [])
    k = min(len(floats), rng.randint(2, 4))
    workers = [[] for _ in range(k)]
    rng.shuffle(floats)
    for j, f in enumerate(floats):
        jobs = [['map', f], ['calseries', f], ['fit', f]]
        if rng.random() < 0.2:
            jobs.insert(rng.randint(0, 3), [rng.choice(['map', 'calseries']), f])
        workers[j % k].extend(jobs)
    faults = []
    r = rng.random()
    if r < 0.35:
        faults.append({'kind': rng.choice(['kill', 'kill', 'torn']), 'ops': None, 'cls': rng.choice([
            None, ['mapped', 'calib'], ['mapped', 'calib']]), 'nth': rng.randrange(400), 'count': 1,
            'arg': rng.randrange(1 << 20), 'worker': rng.randrange(k)})
        if faults[0]['kind'] == 'torn':
            faults[0].update(ops=['write'], cls=['mapped', 'calib'])
        if faults[0]['cls']:
            faults[0]['nth'] %= 150
    elif r < 0.5:
        f = draw_fault(rng, rng.choice(['storage', 'reference', 'noise']))
        f.update(worker=rng.randrange(k), nth=rng.randrange(60))
        faults.append(f)
    elif r < 0.56:
        faults.append({'kind': 'power', 'ops': None, 'cls': ['mapped', 'calib'], 'nth': rng.randrange(200), 'count': 1,
                       'arg': rng.randrange(1 << 20), 'worker': None})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'workers': workers, 'faults': faults,
            'schedule': rng.randrange(1 << 30), 'rate': rng.choice([0.02, 0.1, 0.3, 0.7]),
            'prepared': [rng.choice([0, 0, 1, 2, 3]) for _ in range(n)], 'preempt': None}


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    n = len(s.spec['floats'])
    start, want = [], []
    for i in range(n):
        total = s.spec['floats'][i]['nprof']
        if case['prepared'][i]:
            s.deliver(i, range(max(1, total - 1)))
            for what in ('map', 'calseries', 'fit')[:case['prepared'][i]]:
                must(s.do(what, i), 'preparation')
                if what == 'calseries':
                    edit_series(s, i, max_breaks=[[0]], use_pres_gt=[[60]])
            s.restart()
        s.deliver(i, range(total))
    for i in range(n):
        start.append(snapshot(s, i))
        side = s.side_cfg(tag='want%d' % i)
        copy_results(s, i, s.cfg, side)
        for what in ('map', 'calseries', 'fit'):
            must(s.do(what, i, cfg=side), 'the reference')
        s.restart()
        want.append({what: s.load_result(what, i, side) for what in ('map', 'calseries', 'fit')})
    outs, taken, fired, points = s.race([[tuple(j) for j in w] for w in case['workers']], case['schedule'],
                                        case['rate'], case['preempt'], case['faults'])
    ctx.decisions = {'preempt': taken}
    ctx.nontrivial = len(taken) >= 5
    ctx.states.add(hashlib.sha256(repr(taken).encode()).hexdigest()[:12])
    ctx.probe('workers', len(outs))
    ctx.probe('preemption points', points)
    hurt = {f.get('worker') for f in case['faults'] if fired and f['kind'] not in ('stall', 'clock_back')}
    if None in hurt:
        hurt = set(range(len(outs)))
    touched = [{j[1] for j in w} for w in case['workers']]
    for w, o in enumerate(outs):
        if w in hurt:
            ctx.probe('workers with a fault')
            continue
        for x, (_, i) in zip(o, case['workers'][w]):
            if not x.ok:
                raise Violation('worker', 'worker %d (without faults): its %s run of float %s ended with %r'
                                % (w, x.op, s.name(i), x.value))
        if len(o) != len(case['workers'][w]):
            raise Violation('worker', 'worker %d did %d of %d runs' % (w, len(o), len(case['workers'][w])))
    for i in range(n):
        # complete: some worker without faults did everything for this float
        complete = any(i in touched[w] for w in range(len(outs)) if w not in hurt)
        anyone = any(i in t for t in touched)
        for what in ('map', 'calseries', 'fit'):
            data = K.real_bytes(s.path_of(what, i))
            with judging('result'):
                if data == start[i][what] and (not complete or not anyone):
                    continue
                diff = same_result(what, S.parse(data), want[i][what])
            if diff:
                raise Violation('result' if complete else 'result:hurt', 'the %s result of float %s is not the one of '
                                'sequential work: %s' % (what, s.name(i), diff))
    left = s.stray()
    if left and not hurt:
        raise Violation('stray', 'files left without any fault: %s' % left)
    # ---- afterwards the floats of the processes that died are processed again
    s.restart()
    for i in sorted({i for w in hurt for i in touched[w]} if hurt else []):
        for what in ('map', 'calseries', 'fit'):
            out = s.do(what, i)
            if not out.ok:
                raise Violation('repeat', 'afterwards, the %s run of float %s ends with %r' % (what, s.name(i), out.value))
            with judging('repeat'):
                diff = same_result(what, s.load_result(what, i), want[i][what])
            if diff:
                raise Violation('repeat', 'afterwards, the %s result of float %s: %s' % (what, s.name(i), diff))
