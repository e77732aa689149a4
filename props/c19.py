"""C19: the starting script gives every float of its list what single runs give it"""
import hashlib
import os

from sim import batch as B

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C19'
LEVEL = 'exploration'
QUICK, THOROUGH = 64, 2500
RULE = ('A case is a list of 1-5 floats in any order, a machine with 1-8 processors, and the starting script of the '
        'repository (start_with_pycharm.py, the list put in where it says so) running in the simulator: its pool of '
        'workers is made of simulated processes, a seeded schedule switches between them at file operations, its '
        'chunks are those of the real pool.  Some floats have earlier results; in half of the cases storage or '
        'reference data fail somewhere, the machine loses power, a worker dies, the operator interrupts, a float of the '
        'list does not exist, or the clock jumps.  Results are compared with those of single runs per float, pictures '
        'with those of fresh processes; after a failure what is there must be whole, and the script is started again.  '
        'Non-trivial: at least two floats were processed.  Distinct: by schedule, faults and outcome.')
ASSUMPTIONS = ['the pool of processes is a model of multiprocessing.Pool (sim/batch.py): workers are new processes with '
               'the settings of the script', 'a script whose worker was killed is ended by the operator',
               'results of single runs are judged by the other checks']
STATE_MEASURE = 'distinct schedules: hash of the sequence of (preemption point, process)'


def generate(rng, i, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4] if tier == 'quick' else [1, 2, 3, 3, 4, 5])
    spec = W.random_spec(rng, n_floats=n, nprof=(2, 3) if i % 4 else (2, 5), n_boxes=(2, 3), levels=(4, 6), bad_rate=0.15,
                         max_casts=[300, 25], casts=[1, 3, 6], float_dirs=['/'])
    for b in spec['boxes']:
        if b['kind'] == 'argo':
            b['mix'] = 1
    order = list(range(n))
    rng.shuffle(order)
    faults, r = [], rng.random()
    if r < 0.1:
        faults.append({'kind': rng.choice(['power', 'kill', 'torn']), 'ops': None, 'cls': rng.choice([
            None, ['mapped', 'calib'], ['mapped', 'calib']]), 'nth': rng.randrange(100 * n), 'count': 1})
        if faults[0]['kind'] == 'torn':
            faults[0].update(ops=['write'], cls=['mapped', 'calib'], nth=rng.randrange(20 * n))
        faults[0]['arg'] = rng.randrange(1 << 20)
    elif r < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            f = draw_fault(rng, rng.choice(['storage', 'reference', 'noise']))
            f['nth'] = int((f['frac'] ** 2) * 60 * n)
            faults.append(f)
    earlier = [0, 0, 1, 2, 3]
    if 0.4 <= r < 0.65:
        # a mapping that fails, and what earlier work has left would do for the rest of the script
        f = draw_fault(rng, 'reference', cls=['clim'])
        f['nth'] = rng.randrange(6 * n) if f['ops'] in (['open_r'], ['stat']) else rng.randrange(40 * n)
        faults, earlier = [f], [1, 2, 3]
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'order': order, 'cpus': rng.choice([1, 2, 2, 3, 4, 8]),
            'faults': faults, 'absent': rng.randrange(n + 1) if rng.random() < 0.12 else None,
            'prepared': [rng.choice(earlier) for _ in range(n)], 'jumps': rng.random() < 0.2,
            'schedule': rng.randrange(1 << 30), 'rate': rng.choice([0.02, 0.1, 0.3, 0.7]), 'preempt': None}


def prepare(s, case, i):
    """what earlier work has left of this float"""
    total = s.spec['floats'][i]['nprof']
    if case['prepared'][i]:
        s.deliver(i, range(max(1, total - 1)))
        for what in ('map', 'calseries', 'fit')[:case['prepared'][i]]:
            must(s.do(what, i), 'preparation')
            if what == 'calseries':
                edit_series(s, i, max_breaks=[[0]], use_pres_gt=[[60]])
        s.restart()
    s.deliver(i, range(total))


def start(s, case, machine, code, faults=()):
    """the script, in a new process"""
    k = s.kernel
    s.restart()
    k.settle()
    before = len(k.fired)
    if faults:
        k.arm(list(faults))
    try:
        status, value = k.run(s.proc, machine.run(code, s.cfg))
    finally:
        k.disarm()
    if isinstance(value, HarnessError):
        raise value
    out = S.Outcome('script', status, value, k.fired[before:])
    for p in k.procs:
        p.dead = True
    s.restart()
    s.marks.append('script:%s:%s:%d' % (out.name(), '+'.join('%s@%s/%s' % (f['kind'], f['op'], f['cls'])
                                                             for f in out.fired), len(machine.taken)))
    k.hash.update(s.marks[-1].encode())
    return out


def judge(s, want, label, ctx, drawn, pictures, plots):
    """the results, and the pictures, are those of single runs"""
    from sim.pictures import same  # pylint: disable=import-outside-toplevel
    for i, w in enumerate(want):
        for what in ('map', 'calseries', 'fit'):
            with judging(label):
                diff = same_result(what, s.load_result(what, i), w[what])
            if diff:
                raise Violation(label, 'the %s result of float %s is not the one of single runs: %s' % (what, s.name(i), diff))
        if not plots:
            continue
        side = s.side_cfg()
        copy_results(s, i, s.cfg, side)
        s.restart()
        must(s.do('plot', i, cfg=side), 'the reference')
        expected = dict(pictures.take())
        for name, figure in expected.items():
            if not K.real_bytes(os.path.join(s.cfg['FLOAT_PLOTS_DIRECTORY'], name)):
                raise Violation(label + ':pictures', 'picture %s is missing' % name)
            with judging(label):
                diff = same(drawn.get(name), figure, name)
            if diff:
                raise Violation(label + ':pictures', diff)
    ctx.probe('floats judged', len(want))


def execute(case, ctx):
    from sim.pictures import Pictures  # pylint: disable=import-outside-toplevel
    s = ctx.session(case['spec'], case['seed'], deliver=False, shapes=True)
    pictures = Pictures().install()
    n = len(s.spec['floats'])
    order = [i for i in case['order'] if i < n]
    names = [s.name(i) for i in order]
    code = B.load(W.REPO, names)
    if code is None:
        ctx.probe('no script')
        return
    begin, want, drawable = [], [], True
    for i in range(n):
        prepare(s, case, i)
    for i in range(n):
        begin.append(snapshot(s, i))
        side = s.side_cfg(tag='want%d' % i)
        copy_results(s, i, s.cfg, side)
        for what in ('map', 'calseries', 'fit'):
            must(s.do(what, i, cfg=side), 'the reference')
        s.restart()
        drawable &= s.do('plot', i, cfg=side).ok
        s.restart()
        want.append({what: s.load_result(what, i, side) for what in ('map', 'calseries', 'fit')})
    pictures.take()
    if not drawable:
        ctx.probe('a float cannot be plotted')
    machine = B.Machine(s.kernel, case['cpus'], case['schedule'], case['rate'],
                        None if case['preempt'] is None else {int(a): b for a, b in case['preempt']})
    first = code
    if case['absent'] is not None:
        first = B.load(W.REPO, names[:case['absent']] + ['9999999'] + names[case['absent']:])
    if case['jumps']:
        k = s.kernel
        k.jumps = lambda: k.clock_rng.choice([0, 0, -3600, 7, -1e6])
    out = start(s, case, machine, first, case['faults'])
    s.kernel.jumps = None
    drawn = dict(pictures.take())
    ctx.decisions = {'preempt': machine.taken}
    ctx.states.add(hashlib.sha256(repr(machine.taken).encode()).hexdigest()[:12])
    ctx.nontrivial = n > 1
    ctx.probe('script %s' % out.name().split(':')[0])
    ctx.probe('workers', sum(machine.workers))
    ctx.probe('preemption points', machine.points)
    harmless = all(f['kind'] in ('stall', 'clock_back') for f in out.fired)
    if case['absent'] is not None and out.ok:
        raise Violation('absent', 'a float of the list does not exist, and the script ended well')
    if harmless and case['absent'] is None and drawable and not out.ok:
        raise Violation('script', 'nothing failed (%d processors, floats %s), and the script ended with %r'
                        % (case['cpus'], names, out.value))
    if out.ok:
        judge(s, want, 'result', ctx, drawn, pictures, drawable)
        left = s.stray([r for r in s.tree() if r.startswith('float_plots/')])
        if left and harmless:
            raise Violation('stray', 'files left without any fault: %s' % left)
        return
    for i in range(n):
        for what in ('map', 'calseries', 'fit'):
            data = K.real_bytes(s.path_of(what, i))
            if data == begin[i][what]:
                continue
            with judging('after'):
                diff = same_result(what, S.parse(data), want[i][what])
            if diff:
                raise Violation('after', 'after a script that ended with %s, the %s result of float %s is neither the one '
                                'before nor the new one: %s' % (out.name(), what, s.name(i), diff))
    # ---- the cause is gone, and the script is started again
    pictures.take()
    again = start(s, case, B.Machine(s.kernel, case['cpus'], case['schedule'] + 1, case['rate']), code)
    drawn = dict(pictures.take())
    if not again.ok and drawable:
        raise Violation('again', 'started again after %s, the script ends with %r' % (out.name(), again.value))
    if again.ok:
        judge(s, want, 'again', ctx, drawn, pictures, drawable)
