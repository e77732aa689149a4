"""C02: later mapping runs never alter what earlier runs stored"""
from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C02'
LEVEL = 'exploration'
QUICK, THOROUGH = 90, 3000
RULE = ('A case is a random world and a history of 3-8 mapping runs of one float between which the operator changes '
        'the configuration, boxes are replaced, added or removed, profiles arrive (in any order, also deeper ones), '
        'processes restart, and runs fail, are interrupted or killed.  Non-trivial: a mapping existed before a run '
        'that followed such a change.  Distinct: by history, outcomes and places of faults.')
ASSUMPTIONS = ['profiles already mapped do not disappear from the float source (the levels they are given at may)']


def generate(rng, i, tier):
    spec = W.random_spec(rng, nprof=(3, 6))
    n = spec['floats'][0]['nprof']
    ops, arrival = [], list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(arrival)
    have = rng.randint(1, n - 1)
    shallow = rng.choice([None, None, 3, 4])
    ops += [{'op': 'deliver', 'keep': sorted(arrival[:have]), 'levels': shallow}, {'op': 'map', 'cfg': draw_cfg(rng)}]
    if rng.random() < 0.3:
        ops[-1]['cfg'].update(nothing(rng))         # nothing can be mapped at first
    for _ in range(rng.randint(2, 6 if tier == 'quick' else 9)):
        r = rng.random()
        if r < 0.45 and have < n:
            have += rng.choice([1, 1, 2])
            keep = arrival[:have]
            if rng.random() < 0.6:
                keep = sorted(keep)
            ops.append({'op': 'deliver', 'keep': withdrawn(rng, keep), 'levels': rng.choice([shallow, None, 2, 4])})
        elif r < 0.55:
            ops.append({'op': 'deliver', 'keep': withdrawn(rng, sorted(arrival[:have]), 0.4), 'levels': rng.choice([None, 3, 4])})
        elif r < 0.75:
            ops.append({'op': 'boxes', 'seed': rng.randrange(1 << 30), 'what': rng.choice(['replace', 'remove', 'all'])})
        run = {'op': 'map', 'cfg': draw_cfg(rng) if rng.random() < 0.7 else {}}
        if rng.random() < 0.1:
            run['cfg'] = dict(run['cfg'], **nothing(rng))
        r = rng.random()
        if r < 0.25:
            run['faults'] = [draw_fault(rng, rng.choice(['crash', 'storage', 'reference']))]
        elif r < 0.32:
            run['line'] = draw_line(rng)
        ops.append(run)
        if rng.random() < 0.5:
            ops.append({'op': 'restart'})
        if rng.random() < 0.06:
            ops.append({'op': 'legacy'})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops}


def nothing(rng):
    """configurations in which no or few levels find any data"""
    return rng.choice([{'MAP_P_EXCLUDE': 5000}, {'MAP_P_EXCLUDE': 800},
                       {'MAPSCALE_LONGITUDE_LARGE': 0.02, 'MAPSCALE_LATITUDE_LARGE': 0.02,
                        'MAPSCALE_LONGITUDE_SMALL': 0.01, 'MAPSCALE_LATITUDE_SMALL': 0.01}])


def change_boxes(s, op):
    import random  # pylint: disable=import-outside-toplevel
    rng = random.Random(op['seed'])
    home = [b for b in s.spec['boxes'] if b.get('near')]
    for b in s.spec['boxes']:
        key = (b['lon_bin'], b['lat_bin'], b['kind'])
        if key not in s.boxes:
            continue
        if op['what'] == 'remove':
            if b not in home and rng.random() < 0.4:
                s.set_box(key, None)
        elif op['what'] == 'all' or rng.random() < 0.4:
            nb = dict(b, seed=rng.randrange(1 << 30))
            s.set_box(key, W.make_box(s.spec, nb), nb)


def legacy(s):
    """the mapping becomes one of a version which knew no Subantarctic front"""
    got = s.load_result('map', 0)
    if isinstance(got, dict) and 'use_saf' in got and not np.any(np.ravel(got['use_saf']) == 1):
        from scipy.io import savemat  # pylint: disable=import-outside-toplevel
        del got['use_saf']
        savemat(s.map_path(0), got)
        s.outside(s.map_path(0))
        return True
    return False


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    places = Places(s)
    touched = False
    for op in case['ops']:
        if op['op'] == 'deliver':
            s.deliver(0, op['keep'], op.get('levels'))
            places.memo.clear()
            touched = True
        elif op['op'] == 'boxes':
            change_boxes(s, op)
            places.memo.clear()
            touched = True
        elif op['op'] == 'restart':
            s.restart()
        elif op['op'] == 'legacy':
            if legacy(s):
                ctx.probe('mappings of an older version')
        else:
            if s.source[0] is None:
                raise HarnessError('a run before any delivery')
            places.memo.clear()
            before = s.load_result('map', 0)
            if isinstance(before, dict) and 'use_saf' not in before:
                before['use_saf'] = np.zeros(before['use_pv'].shape)
            faults, line = resolve(s, places, op, 0, 'map')
            out = s.do('map', 0, cfg=with_cfg(s, op.get('cfg')), faults=faults, line=line)
            if out.status == 'error' and 'NO DATA FOUND' in str(out.value) and \
                    (op.get('cfg') or {}).get('MAPSCALE_LONGITUDE_LARGE') == 0.02:
                ctx.probe('no data within these scales')      # (the run is refused)
            elif not out.fired:
                must(out, 'a run without faults')
            after = s.load_result('map', 0)
            if isinstance(after, dict) and 'use_saf' not in after:
                after['use_saf'] = np.zeros(after['use_pv'].shape)     # (the run has stored nothing)
            touched = touched or bool(op.get('cfg'))
            if before is not None and touched:
                ctx.nontrivial = True
            with judging('stored'):
                check_kept(before, after, 'stored')
                if before is not None:
                    old = set(columns_of(before))
                    fresh = [v for v in s.source[0]['PROFILE_NO'] if int(v) not in old]
                    ctx.probe('runs with new profiles' if fresh else 'runs without new profiles')
                    if not fresh:
                        levels = s.source[0]['SAL'].shape[0]
                        if levels <= before['la_mapped_sal'].shape[0]:
                            diff = difference(after, before, keys=keys_of_map())
                            if diff:
                                raise Violation('stored:idle', 'a run without new profiles: ' + diff)
            state_note(ctx, s, 0)
