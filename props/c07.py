"""C07: historical casts keep their own data, position, date and depth"""
from .c02 import change_boxes
from .c03 import Expected
from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C07'
LEVEL = 'exploration'
QUICK, THOROUGH = 96, 3000
RULE = ('A case is a world with many odd boxes (single stations, single levels, transposed bottle data, empty casts, '
        'casts below the float, listed but missing files), potential vorticity in use so that depths matter, small '
        'limits of casts so that the selection is a permutation, and a history of mapping runs of two floats: boxes '
        'appear, vanish or are replaced between processes, processes restart, reads of boxes fail in between.  One '
        'case in five is a float wandering around the globe through more than 128 boxes in one process (more than the '
        'readers remember), and back.  After each run all columns and selected points are compared with the reference '
        'model.  Non-trivial: at least one level was mapped.  Distinct: by history, outcomes and places of faults.')
ASSUMPTIONS = ['reference model sim/model.py (independent implementation, no shared code) is right',
               'boxes change only while no process runs']
PLACES = [(32.0, 331.0), (18.0, 205.0), (-22.0, 84.0), (-12.0, 4.5), (28.0, 176.0), (-31.0, 141.0), (45.0, 320.0)]


def generate(rng, i, tier):
    wide = i % 5 == 4
    region = rng.choice([r for r in W.REGIONS if r != 'equator'])
    if wide:
        region = 'atlantic'
    spec = W.random_spec(rng, region=region, pv=[1, 1, 1, 0], n_boxes=(2, 3) if wide else (5, 9), n_floats=2,
                         nprof=(1, 1) if wide else (1, 3), casts=[1, 1, 2, 3, 5, 8], bad_rate=0.15,
                         max_casts=[300, 40, 25, 15, 15], levels=(5, 6) if wide else (5, 8))
    for b in spec['boxes']:
        if rng.random() < 0.35:
            b['nan_casts'] = 1
        if rng.random() < 0.25:
            b['deep_casts'] = 1
        if rng.random() < 0.15 and not b.get('near') and 'front' not in spec:
            b['levels'] = 1
    ops = []
    if wide:
        flt = spec['floats'][0]
        places = rng.sample(PLACES, 6)
        flt['track'] = [list(p) for p in places + [places[0], places[1]]]
        flt['nprof'] = len(flt['track'])
        flt['bad'] = []
        spec['boxes'], spec['absent_flags'] = [], []
        for lat, lon in places:
            home = W.box_of(lat, lon)
            for lb, tb in W.neighbour_boxes(lat, lon, 2):
                box = {'lon_bin': lb, 'lat_bin': tb, 'kind': 'ctd', 'n': rng.choice([1, 2, 3]),
                       'levels': rng.choice([1, 6, 9]), 'seed': rng.randrange(1 << 30), 'at': [lat, lon]}
                if (lb, tb) == home:
                    box.update(near=1, n=18, levels=14)
                spec['boxes'].append(box)
                if rng.random() < 0.1:
                    spec['boxes'].append(dict(box, kind=rng.choice(['bot', 'argo']), n=3, near=0, own=0.4,
                                              levels=rng.choice([1, 7])))
        near = {(b['lon_bin'], b['lat_bin']) for b in spec['boxes'] if b.get('near')}
        spec['boxes'] = W._merge_boxes([b for b in spec['boxes'] if b.get('near') or b['kind'] != 'ctd'
                                        or (b['lon_bin'], b['lat_bin']) not in near])
        # one profile after the other in the same process
        for n in range(2, flt['nprof'] + 1, rng.choice([1, 2, 3])):
            ops.append({'op': 'deliver', 'i': 0, 'keep': list(range(n))})
            ops.append({'op': 'map', 'i': 0})
        ops.append({'op': 'deliver', 'i': 0, 'keep': list(range(flt['nprof']))})
        ops.append({'op': 'map', 'i': 0})
        return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops, 'wide': True}
    sets = [orders(rng, f['nprof'], rng.random() < 0.5) for f in spec['floats']]
    while any(sets):
        j = rng.choice([k for k in (0, 1) if sets[k]])
        ops.append({'op': 'deliver', 'i': j, 'keep': sets[j].pop(0)})
        if rng.random() < 0.3:
            ops.append({'op': 'boxes', 'seed': rng.randrange(1 << 30),
                        'what': rng.choice(['replace', 'remove', 'all', 'restore', 'restore'])})
        if rng.random() < 0.15:
            ops.append({'op': 'restart'})
        run = {'op': 'map', 'i': j, 'cfg': draw_cfg(rng) if rng.random() < 0.4 else {}}
        if rng.random() < 0.25:
            ops.append(dict(run, faults=[draw_fault(rng, 'reference')]))
        ops.append(run)
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops, 'wide': False}


def restore_boxes(s, op):
    import random  # pylint: disable=import-outside-toplevel
    rng = random.Random(op['seed'])
    for b in s.spec['boxes']:
        key = (b['lon_bin'], b['lat_bin'], b['kind'])
        if key not in s.boxes and rng.random() < 0.6:
            nb = dict(b, seed=rng.randrange(1 << 30), n=rng.choice([1, 2, b['n']]))
            s.set_box(key, W.make_box(s.spec, nb), nb)


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    places = Places(s)
    exps = [Expected(s, i) for i in range(len(s.spec['floats']))]
    for op in case['ops']:
        if op['op'] == 'deliver':
            s.deliver(op['i'], op['keep'])
        elif op['op'] == 'boxes':
            s.restart()
            (restore_boxes if op['what'] == 'restore' else change_boxes)(s, op)
        elif op['op'] == 'restart':
            s.restart()
        else:
            i = op['i']
            if s.source[i] is None:
                continue
            cfg = with_cfg(s, op.get('cfg'))
            places.memo.clear()
            faults, line = resolve(s, places, op, i, 'map')
            out = s.do('map', i, cfg=cfg, faults=faults, line=line)
            if not out.ok and not out.fired:
                if exps[i].refused(cfg):
                    ctx.probe('no data')
                    continue
                must(out, 'a run without faults')
            with judging('cast'):
                exps[i].after(out, cfg, 'cast')
            ctx.states.add('%s/%s/%d' % (out.name(), sorted((k[2], d['lat'].size, d['pres'].shape[0])
                                                            for k, d in s.boxes.items())[:40], s.proc.pid))
    cols = [c for e in exps for c in e.cols.values()]
    ctx.nontrivial = any(c['mapped'] for c in cols)
    ctx.probe('columns', len(cols))
    ctx.probe('mapped columns', sum(c['mapped'] for c in cols))
    ctx.probe('casts used', sum(len(set(c['used'])) for c in cols))
    if case['wide']:
        ctx.probe('boxes of the wide world', len(s.boxes))
