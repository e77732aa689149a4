"""C09: results do not depend on what the process did before"""
import copy
import os

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C09'
LEVEL = 'exploration'
QUICK, THOROUGH = 84, 2500
RULE = ('A case is a world with 2-3 floats and the past of a process: 2-6 runs (mapping, settings, calibration with and '
        'without break points, plots) of any float with any configuration (also with the directories of somebody else, who has other boxes, topography and profiles), also failing, interrupted or out of memory, '
        'and user code (drawing or seeding random numbers, print and warning options, changing configurations obtained '
        'earlier, calling numerical functions).  Then the mapping, settings and calibration of one float in this '
        'process are compared with the same in an operating system process forked before any of it; configurations '
        'passed are compared before and after each run, and so are the results of all other floats.  Non-trivial: at '
        'least two things happened before.  Distinct: by history, outcomes and places of faults.')
ASSUMPTIONS = ['boxes do not change while a process runs (box files are remembered)',
               'user code does not turn numerical warnings into errors']
# lines executed in a run of this kind, and different lines executed
LINES = {'map': (3000, 400), 'calseries': (60, 40), 'fit': (900, 300), 'plot': (900, 300)}
USER = ['seed', 'draw', 'print', 'config', 'warnings', 'load', 'fit']


def generate(rng, i, tier):
    n = rng.randint(2, 3)
    spec = W.random_spec(rng, n_floats=n, nprof=(2, 4), n_boxes=(3, 4), bad_rate=0.2, levels=(5, 7))
    for b in spec['boxes']:
        if b['kind'] == 'argo':
            b['mix'] = 1
    past, target = [], rng.randrange(n)
    for _ in range(rng.randint(2, 6 if tier == 'quick' else 10)):
        r = rng.random()
        if r < 0.3:
            past.append({'op': 'user', 'what': rng.choice(USER), 'seed': rng.randrange(1 << 30)})
            continue
        what = rng.choice(['map', 'map', 'calseries', 'fit', 'fit', 'plot'])
        op = {'op': what, 'i': rng.randrange(n), 'cfg': draw_cfg(rng) if rng.random() < 0.6 else {}}
        if rng.random() < 0.35 and what != 'plot':
            op['second'] = rng.sample(['clim', 'const', 'source'], rng.choice([1, 2, 3, 3]))
            op['i'] = target if rng.random() < 0.7 else op['i']
            op['cfg'] = {} if rng.random() < 0.6 else op['cfg']
        if what == 'fit':
            op['breaks'] = rng.choice([-1, 0, 1, 2, 3])
        r = rng.random()
        if r < 0.25 and what != 'plot':
            op['faults'] = [draw_fault(rng, rng.choice(['storage', 'reference']))]
        elif r < 0.45:
            op['line'] = draw_line(rng, ['interrupt', 'memory'])
        if what == 'map' and rng.random() < 0.6:
            op['again'] = 1     # as if it had never been mapped
        past.append(op)
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': past, 'target': target,
            'cfg': draw_cfg(rng) if rng.random() < 0.3 else {}, 'breaks': rng.choice([0, 0, 1, 2, -1]),
            'split': rng.choice([0, 0, 1]), 'prepared': [rng.choice([0, 2, 3, 3]) for _ in range(n)]}


def target_runs(s, t, cfg, case):
    """the runs of interest: outcomes and results"""
    edit_series_at(s, t, cfg, None)
    out = [s.do('map', t, cfg=cfg)]
    out.append(s.do('calseries', t, cfg=cfg))
    edit_series_at(s, t, cfg, case)
    out.append(s.do('fit', t, cfg=cfg))
    return [(o.name(), s.load_result(o.op, t, cfg)) for o in out]


def edit_series_at(s, t, cfg, case):
    from scipy.io import savemat  # pylint: disable=import-outside-toplevel
    if case is None:
        return
    d = s.load_result('calseries', t, cfg)
    if not isinstance(d, dict):
        return
    if case['split'] and d['calseries'].size > 2:
        d['calseries'] = np.concatenate(([1.0, 1.0], 2.0 * np.ones(d['calseries'].size - 2))).reshape(1, -1)
    d['max_breaks'] = np.array([[float(case['breaks'])]])
    savemat(s.calseries_path(t, cfg), d)
    s.outside(s.calseries_path(t, cfg))


def user_code(s, op, handed_out, pristine):
    import random  # pylint: disable=import-outside-toplevel
    import warnings  # pylint: disable=import-outside-toplevel
    import sys  # pylint: disable=import-outside-toplevel
    what = op['what']
    if what == 'seed':
        np.random.seed(op['seed'] % (1 << 32))
        random.seed(op['seed'])
    elif what == 'draw':
        np.random.standard_normal(op['seed'] % 977)
        random.random()
    elif what == 'print':
        np.set_printoptions(precision=2, suppress=True, threshold=3)
    elif what == 'warnings':
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
    elif what in ('config', 'load'):
        cfg = sys.modules['pyowc.configuration'].load()
        if cfg != pristine:
            raise Violation('config:default', 'the default configuration handed out is not the pristine one: %s'
                            % sorted(k for k in set(cfg) | set(pristine) if cfg.get(k) != pristine.get(k)))
        if what == 'config':
            for k in list(cfg):
                if isinstance(cfg[k], list):
                    cfg[k][0][0] = 99
                    cfg[k].append('changed by the user')
                else:
                    cfg[k] = 'changed by the user'
            cfg['NEW'] = 1
            handed_out.append(cfg)
    elif what == 'fit':
        stats = sys.modules['pyowc.core.stats']
        rs = np.random.RandomState(op['seed'] % 1000)
        x = np.tile(np.arange(1.0, 9.0), (10, 1))
        stats.fit_cond(x, 1 + 0.001 * rs.randn(10, 8), 0.001 * np.ones((10, 8)), np.eye(80), 'max_no_breaks', 2)


def execute(case, ctx):
    from sim.pictures import Pictures  # pylint: disable=import-outside-toplevel
    import sys  # pylint: disable=import-outside-toplevel
    plots = any(op['op'] == 'plot' for op in case['ops'])
    s = ctx.session(case['spec'], case['seed'], shapes=plots)
    if plots:
        Pictures().install()
    t = case['target']
    n = len(s.spec['floats'])
    target_cfg = s.side_cfg(tag='target', base=with_cfg(s, case['cfg']))

    def fresh():
        cfg = s.side_cfg(tag='fresh', base=with_cfg(s, case['cfg']))
        _, pristine = s.user(lambda: copy.deepcopy(sys.modules['pyowc.configuration'].load()))
        s.restart()
        return target_runs(s, t, cfg, case), pristine
    want, pristine = ctx.grandchild(fresh)
    for name, _ in want:
        if name != 'ok' and not name.startswith('error:'):
            raise HarnessError('reference runs: %s' % want)

    def prepare():
        # results of earlier processes; the first run of a float may also happen in this one
        for i in range(n):
            for what in ('map', 'calseries', 'fit')[:case['prepared'][i]]:
                must(s.do(what, i), 'preparation')
    ctx.grandchild(prepare)
    # ---- the past of the process
    s.restart()
    proc, handed_out, done = s.proc, [], 0
    places = Places(s)
    second = s.second() if any(op.get('second') for op in case['ops']) else None
    for op in case['ops']:
        if op['op'] == 'user':
            status, value = s.user(lambda op=op: user_code(s, op, handed_out, pristine), proc)
            if isinstance(value, Violation):
                raise value
            if status != 'ok':
                raise HarnessError('user code: %r' % (value,))
            s.marks.append('user:' + op['what'])
            done += 1
            continue
        i, cfg = op['i'], with_cfg(s, op['cfg'])
        if op.get('second'):
            # the same float name among the files of somebody else
            for what in op['second'] + ['results']:
                cfg.update(second[what])
            if op['op'] != 'map':
                s.do('map', i, cfg=cfg, proc=proc)
            if op['op'] == 'fit':
                s.do('calseries', i, cfg=cfg, proc=proc)
        if op['op'] == 'fit' and not op.get('second') and K.real_bytes(s.calseries_path(i)) is not None:
            edit_series(s, i, max_breaks=[[op['breaks']]])
        before, held = s.tree(skip=()), copy.deepcopy(cfg)
        if op.get('again') and K.real_bytes(s.map_path(i, cfg)) is not None:
            K.Real.unlink(s.map_path(i, cfg))
        places.memo.clear()
        faults, line = [], None
        if op.get('faults'):
            faults, line = resolve(s, places, dict(op, line=None), i, op['op'])
        if op.get('line'):
            most = LINES[op['op']][op['line']['new']]
            line = dict(op['line'], at=1 + int(op['line']['frac'] * most))
        before = s.tree(skip=())
        out = s.do(op['op'], i, cfg=cfg, faults=faults, line=line, proc=proc)
        if cfg != held:
            raise Violation('config:changed', 'a %s run changed the configuration passed to it: %s' % (
                op['op'], sorted(k for k in set(cfg) | set(held) if cfg.get(k) != held.get(k))))
        after = s.tree(skip=())
        own = os.path.relpath(s.path_of(op['op'], i, cfg), s.root) if op['op'] != 'plot' else None
        stray = s.stray()
        other = [r for r in set(before) | set(after) if before.get(r) != after.get(r) and r != own
                 and not r.startswith('float_plots/' + s.name(i) + '_') and not (not out.ok and r not in before and r in stray)]
        if other:
            raise Violation('others', 'a %s run of float %s changed %s' % (op['op'], s.name(i), other))
        done += 1
    ctx.nontrivial = done > 1
    ctx.probe('things done before', done)
    ctx.probe('floats', n)
    # ---- the runs of interest
    held = copy.deepcopy(target_cfg)
    s.proc = proc
    got = target_runs(s, t, target_cfg, case)
    if target_cfg != held:
        raise Violation('config:changed', 'a run changed the configuration passed to it')
    _, now = s.user(lambda: sys.modules['pyowc.configuration'].load(), proc)
    if now != pristine:
        raise Violation('config:default', 'the default configuration handed out is not the pristine one')
    for what, (name, res), (w_name, w_res) in zip(('map', 'calseries', 'fit'), got, want):
        ctx.states.add('%s/%s/%d' % (what, name, done))
        if name != w_name:
            raise Violation('history:outcome', 'the %s run ends with %s, in a fresh process with %s' % (what, name, w_name))
        with judging('history'):
            diff = same_result(what, res, w_res) if w_res is not None or res is not None else None
        if diff:
            raise Violation('history', 'the %s result is not the one of a fresh process: %s' % (what, diff))
