"""C05: storage errors surface, damage nothing, and a retry succeeds"""
import os

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C05'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 96, 2500
RULE = ('A case is a random world with two floats, a kind of run (mapping, settings, calibration), previous results or '
        'none, and 6-10 storage faults (errors, full disk, short transfers, truncated files, out of memory, interrupt) '
        'at drawn operations on sources, settings and results, single, repeated or persisting.  After each the outcome '
        'is judged against an undisturbed run, all other files are compared, and the run is repeated in the same or a '
        'new process.  Non-trivial: a fault fired.  Distinct: by kind of run, outcomes and places of faults.')
ASSUMPTIONS = ['after a fault while a temporary file is removed, that file may stay']
STATE_MEASURE = 'kind of run / previous result / fault and operation / outcome'


def generate(rng, i, tier):
    what = ['map', 'fit', 'calseries'][i % 3]
    spec = W.random_spec(rng, nprof=(3, 4), n_boxes=(2, 3), max_casts=[300, 25], n_floats=2,
                         region=rng.choice(['atlantic', 'pacific', 'indian', 'southern', 'equator']))
    steps = []
    for _ in range(rng.randint(6, 10)):
        if rng.random() < 0.12:
            f = {'kind': rng.choice(['EIO', 'EACCES', 'ESTALE', 'ETIMEDOUT']), 'ops': ['stat'], 'cls': ['mapped', 'calib'],
                 'frac': round(rng.random(), 4), 'count': 1, 'arg': 0}
        elif rng.random() < 0.1:
            f = {'kind': rng.choice(['EIO', 'EACCES']), 'ops': ['unlink', 'stat', 'write'], 'cls': ['mapped', 'calib'],
                 'frac': round(rng.random(), 4), 'count': rng.choice([1, 2, 1000000]), 'arg': 0}
        else:
            f = draw_fault(rng, 'storage')
        steps.append({'faults': [f], 'again': rng.choice(['same', 'new', 'same pid'])})
        if rng.random() < 0.2:
            steps[-1]['faults'].append(draw_fault(rng, 'storage'))
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'what': what, 'old': rng.random() < 0.7, 'steps': steps,
            'breaks': rng.choice([-1, 0, 0, 1]), 'over': draw_cfg(rng) if rng.random() < 0.8 else {}}


def execute(case, ctx):
    what = case['what']
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    n = case['spec']['floats'][0]['nprof']
    every = list(range(n))
    s.deliver(1, [0, 1])
    # another float has results of every kind (their content does not matter here)
    for op in ('map', 'calseries', 'fit'):
        put(s.path_of(op, 1), b'results of another float: ' + op.encode())
    if what == 'fit':
        s.deliver(0, every)
        must(s.do('map', 0), 'preparation')
        must(s.do('calseries', 0), 'preparation')
        edit_series(s, 0, max_breaks=[[-1]])
        if case['old']:
            must(s.do('fit', 0), 'preparation')
        edit_series(s, 0, max_breaks=[[case['breaks']]])
    else:
        if case['old']:
            s.deliver(0, every[:-1])
            must(s.do(what, 0), 'preparation')
            if what == 'calseries':
                edit_series(s, 0, max_breaks=[[1]], use_pres_gt=[[300]])
            else:
                # results made again with today's settings are told from those which were kept
                s.cfg.update({k: v for k, v in case['over'].items()
                              if k != 'MAP_USE_PV' or case['spec']['region'] != 'equator'})
        s.deliver(0, every)
    start = snapshot(s, 0)
    places = Places(s)
    out, _, _ = places.get(what, 0)
    must(out, 'the reference')
    side = s.side_cfg(tag='want')
    copy_results(s, 0, s.cfg, side)
    out, _ = s.trace(what, 0, side)
    must(out, 'the reference')
    new = s.load_result(what, 0, side)
    path = s.path_of(what, 0)
    own = os.path.relpath(path, s.root)
    tree = s.tree()
    tree.pop(own, None)

    for c in case['steps']:
        restore(s, 0, start)
        sweep(s)
        faults, _ = resolve(s, places, c, 0, what)
        out = s.do(what, 0, faults=faults)
        got = K.real_bytes(path)
        if out.fired:
            ctx.nontrivial = True
        else:
            must(out, 'a run without faults')
        places_hit = sorted({'%s@%s' % (f['kind'], f['op']) for f in out.fired})
        ctx.states.add('%s/%s/%s/%s' % (what, 'old' if start[what] else 'none', '+'.join(places_hit), out.name()))
        ctx.probe('run fails' if not out.ok else 'run succeeds')
        with judging('surface'):
            if out.ok:
                diff = same_result(what, S.parse(got), new)
                if diff:
                    raise Violation('surface', 'the %s run met %s, reported success, and its result is not the '
                                    'undisturbed one: %s' % (what, places_hit, diff))
            elif got != start[what]:
                diff = same_result(what, S.parse(got), new)
                if diff:
                    raise Violation('damage', 'the %s run met %s, failed with %r, and left neither the previous nor '
                                    'the complete new result: %s' % (what, places_hit, out.value, diff))
        now = s.tree()
        now.pop(own, None)
        stray = set(s.stray())
        for r in sorted(set(tree) | set(now)):
            if tree.get(r) == now.get(r):
                continue
            if r in stray and any(f['op'] in ('stat', 'unlink') for f in out.fired):
                continue
            if r in stray:
                raise Violation('stray', 'the %s run met %s and left the file %s' % (what, places_hit, r))
            raise Violation('others', 'the %s run met %s and changed %s' % (what, places_hit, r))
        if c['again'] != 'same':
            s.restart(same_pid=c['again'] == 'same pid')
        again = s.do(what, 0)
        if not again.ok:
            raise Violation('retry', 'after a %s run that met %s, the same run without faults ends with %r'
                            % (what, places_hit, again.value))
        with judging('retry'):
            diff = same_result(what, s.load_result(what, 0), new)
        if diff:
            raise Violation('retry', 'after a %s run that met %s, the same run without faults gives: %s'
                            % (what, places_hit, diff))
