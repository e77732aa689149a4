"""C08: a float is never mapped against its own profiles"""
from .c03 import Expected
from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C08'
LEVEL = 'exploration'
QUICK, THOROUGH = 100, 3000
RULE = ('A case is a world with 2-4 floats whose casts are mixed in the same historical Argo boxes, and a sequence of '
        'mapping runs of these floats in any order, mostly in one process, in instalments, with runs failing on box '
        'reads or interrupted in between, restarts, and one float without own casts.  After each run the columns and '
        'selected points are compared with the reference model, and no selected point may be the position of an own '
        'cast.  Non-trivial: two different floats were mapped in one process from a box holding casts of both.  '
        'Distinct: by history, outcomes and places of faults.')
ASSUMPTIONS = ['reference model sim/model.py (independent implementation, no shared code) is right',
               'the name of a float is not part of the source label of a cast of another float']
LABELS = ['argo_%s_%s', 'D%s_%s.nc', 'meds/%s/profiles/R%s', '(%s) %s', '%s%s']
NAMES = ['3901960', '6900123', '1901456', '5904999', '13857', '4900777']


def generate(rng, i, tier):
    n = rng.randint(2, 4)
    spec = W.random_spec(rng, n_floats=n, names=rng.sample(NAMES, n), nprof=(1, 3), n_boxes=(3, 5), casts=[3, 6, 9, 14],
                         bad_rate=0.1, levels=(4, 6))
    for b in spec['boxes']:
        if b['kind'] == 'argo':
            b['mix'] = 1
            if rng.random() < 0.4:
                b['labels'] = rng.choice(LABELS)
    keys = {(b['lon_bin'], b['lat_bin'], b['kind']) for b in spec['boxes']}
    home = [b for b in spec['boxes'] if b.get('near')][0]
    # most of the data around the floats comes from floats
    if (home['lon_bin'], home['lat_bin'], 'argo') not in keys:
        spec['boxes'].append(dict(home, kind='argo', n=0, mix=1, seed=rng.randrange(1 << 30)))
    for b in spec['boxes']:
        if b['kind'] == 'argo' and (b['lon_bin'], b['lat_bin']) == (home['lon_bin'], home['lat_bin']):
            b.update(n=rng.choice([12, 20]), near=1, levels=12)
            b.pop('own', None)
    ops, sets = [], [orders(rng, f['nprof'], True) for f in spec['floats']]
    while any(sets):
        j = rng.choice([k for k in range(n) if sets[k]])
        ops.append({'op': 'deliver', 'i': j, 'keep': sets[j].pop(0)})
        run = {'op': 'map', 'i': j, 'cfg': draw_cfg(rng) if rng.random() < 0.25 else {}}
        r = rng.random()
        if r < 0.2:
            ops.append(dict(run, faults=[draw_fault(rng, 'reference')]))
        elif r < 0.3:
            ops.append(dict(run, line=draw_line(rng, ['interrupt', 'memory'])))
        ops.append(run)
        if rng.random() < 0.1:
            ops.append({'op': 'restart'})
        if rng.random() < 0.15:
            ops.append({'op': 'map', 'i': rng.randrange(n), 'cfg': {}})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops}


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    places = Places(s)
    exps = [Expected(s, i) for i in range(len(s.spec['floats']))]
    own = []
    for i in range(len(exps)):
        mine, others = set(), set()                  # (a place may be visited by several)
        for key, d in s.boxes.items():
            for j in range(d['lat'].size):
                at = (round(float(d['lat'][0, j]), 5), round(float(d['long'][0, j]) % 360, 5))
                (mine if key[2] == 'argo' and s.name(i) in str(d['source'][0][j]) else others).add(at)
        own.append(mine - others)
    here = []
    for op in case['ops']:
        if op['op'] == 'deliver':
            s.deliver(op['i'], op['keep'])
        elif op['op'] == 'restart':
            s.restart()
            here = []
        else:
            i = op['i']
            if s.source[i] is None:
                continue
            cfg = with_cfg(s, op.get('cfg'))
            places.memo.clear()
            faults, line = resolve(s, places, op, i, 'map')
            pid = s.proc.pid
            out = s.do('map', i, cfg=cfg, faults=faults, line=line)
            if s.proc.pid != pid:
                here = []
            if not out.ok and not out.fired:
                if exps[i].refused(cfg):
                    ctx.probe('no data')
                    continue
                must(out, 'a run without faults')
            with judging('own'):
                got = s.load_result('map', i)
                for lon, lat, num in selected_of(got) if isinstance(got, dict) else []:
                    if (round(lat, 5), round(lon % 360, 5)) in own[i]:
                        raise Violation('own', 'float %s was mapped against its own cast at (%r, %r)'
                                        % (s.name(i), lon, lat))
                exps[i].after(out, cfg, 'other')
            if out.ok and own[i] and i not in here:
                here.append(i)
            if len(here) > 1:
                ctx.nontrivial = True
                ctx.states.add('-'.join(map(str, here)) + '/' + out.name())
    ctx.probe('own casts', sum(len(o) for o in own))
    ctx.probe('mapped columns', sum(c['mapped'] for e in exps for c in e.cols.values()))
