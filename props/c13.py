"""C13: results are reproducible whatever the entropy around the run"""
import json
import os
import random
import subprocess
import sys

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C13'
LEVEL = 'exploration'
QUICK, THOROUGH = 54, 2500
RULE = ('A case is a world with one float (often more historical casts than may be used, so that the random third of the '
        'selection matters), a choice of series and break points, and 3-5 repetitions of mapping, settings and '
        'calibration in directories of their own.  Each repetition starts with other random states, and meets one or '
        'more of: the first process going on, a clock set back (once, or whenever it is read), stalls, short transfers, another process number, other file times, garbage in fresh '
        'memory (np.empty), numpy and Python generators seeded or drawn from between the runs; one in five runs in a '
        'real interpreter with another hash seed, allocator filling, time zone, working directory and number of '
        'threads.  All results are compared with those of the first run.  Non-trivial: a repetition with at least one '
        'perturbation.  Distinct: by kinds of perturbation, outcomes and faults.')
ASSUMPTIONS = ['equal means: to 1e-7 relative (linear algebra libraries do not promise more)',
               'the random error estimates of a calibration (cal_SAL_err, cal_COND_err, pcond_factor_err, '
               'time_deriv_err) are not reproducible by design and not named by the property']
KINDS = ['clock', 'stall', 'pid', 'times', 'memory', 'draw', 'short']


def generate(rng, i, tier):
    spec = W.random_spec(rng, nprof=(3, 7), levels=(5, 9), bad_rate=0.2, max_casts=[25, 15, 10, 40, 300])
    again = []
    for _ in range(rng.randint(3, 5)):
        how = rng.sample(KINDS, rng.choice([1, 2, 3]))
        again.append({'how': how, 'seed': rng.randrange(1 << 30), 'rng': rng.choice(['any', 'any', 'zero', 'same', 'python']),
                      'on': rng.random() < 0.4})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'breaks': rng.choice([-1, 0, 1, 2, 3]),
            'split': rng.random() < 0.3, 'again': again,
            'plain': rng.randrange(1 << 30) if rng.random() < 0.2 else None}


def settings(s, case, cfg):
    from scipy.io import savemat  # pylint: disable=import-outside-toplevel
    d = s.load_result('calseries', 0, cfg)
    n = d['calseries'].size
    if case['split'] and n >= 5:
        d['calseries'] = np.where(np.ravel(d['calseries']) == 0, 0.0, np.where(np.arange(n) < n // 2, 1.0, 2.0)).reshape(1, -1)
    d['max_breaks'] = np.array([[float(case['breaks'])]])
    savemat(s.calseries_path(0, cfg), d)
    s.outside(s.calseries_path(0, cfg))


def one(s, case, cfg, proc, faults=None, between=None):
    out = []
    for what in ('map', 'calseries', 'fit'):
        if what == 'fit':
            settings(s, case, cfg)
        if between:
            between(proc)
        for _ in range(3):
            o = s.do(what, 0, cfg=cfg, proc=proc, faults=faults)
            # a short transfer may be refused; it may not change anything
            if o.ok or not any(f['kind'] == 'short' for f in o.fired):
                break
        must(o, 'repetition' if between else 'the first run')
        out.append(s.load_result(what, 0, cfg))
    return out


def compare(want, got, how):
    for what, w, g in zip(('map', 'calseries', 'fit'), want, got):
        with judging('reproducible'):
            diff = same_result(what, g, w)
        if diff:
            raise Violation('reproducible', 'the %s run repeated with %s gives another result: %s' % (what, how, diff))


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'])
    k = s.kernel
    cfg = s.side_cfg(tag='first')
    want = one(s, case, cfg, s.restart())
    proc = s.proc
    empty = np.empty
    for n, again in enumerate(case['again']):
        how, rs = again['how'], random.Random(again['seed'])
        cfg = s.side_cfg(tag='again%d' % n)
        state = {'any': again['seed'] % (1 << 31), 'zero': 0, 'same': 12345, 'python': 7}[again['rng']]
        if not again.get('on'):
            proc = k.spawn(np_seed=state)       # or the process goes on
        if 'pid' in how:
            proc.pid = rs.choice([1, 2, 32768, 4194303, s.proc.pid])
        if 'times' in how:
            for base, _, files in os.walk(s.root):
                for f in sorted(files):
                    if f != 'tbase.int' and 'side' not in base:
                        t = rs.choice([0, 1, 4e9, k.now, k.now - 1e5 * rs.random()])
                        os.utime(os.path.join(base, f), (t, t))
        if 'clock' in how:
            k.now += rs.choice([-1e9, -86400 * 400, -3600, 86400 * 3000, 31536000, 0.5])
        faults = []
        for kind, name in (('clock', 'clock_back'), ('stall', 'stall'), ('short', 'short')):
            if kind in how:
                faults.append({'kind': name, 'ops': ['read'] if name == 'short' else None, 'cls': None,
                               'nth': rs.randrange(rs.choice([30, 300, 2000])), 'count': rs.choice([1, 3, 200]) if name != 'short' else 1,
                               'arg': rs.randrange(1 << 20)})

        def between(proc, rs=rs, how=how):
            def user():
                if 'draw' in how:
                    np.random.seed(rs.randrange(1 << 32))
                    np.random.rand(rs.randrange(1000))
                    random.seed(rs.random())
            k.run(proc, user)

        def garbage(shape, dtype=float, *a, rs=rs, **kw):
            out = empty(shape, dtype, *a, **kw)
            if out.dtype.kind == 'f':
                out[...] = rs.choice([np.nan, 1e300, -1.0, 35.0, rs.random()])
            elif out.dtype.kind in 'iu':
                out[...] = rs.randrange(100)
            return out
        if 'memory' in how:
            np.empty = garbage
        if 'clock' in how:
            # somebody keeps setting the clock
            k.jumps = lambda rs=rs, rate=rs.choice([0, 0.1, 0.5]): rs.uniform(-9e3, 9e3) if rs.random() < rate else 0.0
        try:
            got = one(s, case, cfg, proc, faults, between)
        finally:
            np.empty, k.jumps = empty, None
        compare(want, got, '+'.join(how))
        ctx.nontrivial = True
        ctx.states.add('%s/%s' % ('+'.join(sorted(how)), again['rng']))
        for h in how:
            ctx.probe('perturbed: ' + h)
    if case['plain'] is not None:
        plain(s, case, ctx, want)


def plain(s, case, ctx, want):
    rs = random.Random(case['plain'])
    cfg = s.side_cfg(tag='plain')
    work = os.path.join(s.root, 'side', 'elsewhere')
    os.makedirs(work)
    env = dict(os.environ, PYTHONHASHSEED=str(rs.randrange(1, 1 << 32)), MALLOC_PERTURB_=str(rs.randrange(1, 256)),
               TZ=rs.choice(['UTC', 'Asia/Tokyo', 'America/Anchorage']), OPENBLAS_NUM_THREADS=str(rs.choice([1, 2, 4])),
               LC_ALL=rs.choice(['C', 'C.UTF-8']), PYTHONDONTWRITEBYTECODE='1', COLUMNS=str(rs.randrange(20, 200)))
    for n, runs in enumerate((['map', 'calseries'], ['fit'])):
        if n:
            got = [s.load_result('map', 0, cfg), s.load_result('calseries', 0, cfg)]
            settings(s, case, cfg)
        job = os.path.join(work, 'job%d.json' % n)
        with open(job, 'w') as f:
            json.dump({'repo': W.REPO, 'cfg': cfg, 'dir': s.spec['float_dir'], 'name': s.name(0), 'runs': runs}, f)
        p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(W.__file__), 'plain.py'), job], env=env,
                           cwd=work, capture_output=True, text=True, timeout=120, check=False)
        if p.returncode != 0:
            raise Violation('run-failed', 'repeated in another interpreter: %s' % p.stderr[-600:])
    compare(want, got + [s.load_result('fit', 0, cfg)], 'another interpreter')
    ctx.probe('other interpreter')
    ctx.states.add('plain')
