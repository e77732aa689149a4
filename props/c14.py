"""C14: ocean depths are those of the topography file, or an error is raised"""
import math
import sys

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C14'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 150, 6000
RULE = ('A case is 8-16 windows (inside, across Greenwich given as negative or as more than 360 degrees, across the date '
        'line, at and beyond the poles, a single point, wide, on and just beside the grid), read one after the other in '
        'one process, most of them under a fault of the topography file (error at open, seek or read, short reads, file '
        'cut inside the window, no memory, interrupt), then read again without it; or a calibration or mapping under '
        'such faults.  Every value is compared with the content of the file at its position.  Non-trivial: a fault '
        'fired and a window was read after it.  Distinct: by kinds of window, faults and outcomes.')
ASSUMPTIONS = ['the layout of the file (5 minutes, rows from the North Pole, columns from Greenwich) is that of tbase.int',
               'windows are narrower than the globe']
STATE_MEASURE = 'kind of window / fault and operation / outcome'


def draw_window(rng):
    kind = rng.choice(['inside', 'inside', 'negative', 'beyond', 'dateline', 'north', 'south', 'point', 'wide', 'grid',
                       'edge'])
    w, h = rng.choice([0.3, 2, 2, 7]), rng.choice([0.3, 2, 2, 5])
    lat = rng.uniform(-85, 80)
    if kind == 'negative':
        lon = -rng.uniform(0, w)
    elif kind == 'beyond':
        lon = 360 - rng.uniform(0, w)
    elif kind == 'dateline':
        lon = rng.choice([180, -180]) - rng.uniform(0, w)
    else:
        lon = rng.choice([rng.uniform(0, 350), rng.uniform(-170, -8)])
    if kind == 'north':
        lat = rng.uniform(86, 89.9)
        h = min(h, 93 - lat)
    elif kind == 'south':
        lat = rng.uniform(-93, -88)
        h = max(h, -88.5 - lat)
    elif kind == 'point':
        w = h = 0
    elif kind == 'wide':
        w, h = rng.uniform(20, 50), rng.uniform(1, 6)
    elif kind == 'grid':
        lon, lat = round(lon * 12) / 12, round(lat * 12) / 12
        w, h = round(w * 12) / 12, round(h * 12) / 12
    elif kind == 'edge':
        lon = rng.choice([0.0, -1 / 12, 1 / 12, 360.0, 359.9166, 359.9167, 360.05, -0.0001, 358.5])
        w = rng.choice([0, 1 / 12, 1, 1.4166])
    return {'kind': kind, 'lon': [round(lon, 6), round(lon + w, 6)], 'lat': [round(lat, 6), round(lat + h, 6)]}


def generate(rng, i, tier):
    ops = []
    runs = i % 4 == 3
    if runs:
        spec = W.random_spec(rng, nprof=(2, 4), levels=(5, 7), n_boxes=(2, 3), bad_rate=0.2,
                             region=rng.choice(['greenwich_e', 'greenwich_w', 'dateline_e', 'dateline_w', 'arctic',
                                                'antarctic', 'equator']))
        for _ in range(rng.randint(3, 5)):
            ops.append({'op': rng.choice(['fit', 'fit', 'map']), 'fault': fault(rng), 'frac': round(rng.random(), 4)})
    else:
        spec = W.random_spec(rng, nprof=(1, 1), levels=(3, 3), n_boxes=(1, 1))
        for _ in range(rng.randint(8, 16)):
            op = dict(draw_window(rng), op='window')
            if rng.random() < 0.7:
                op['fault'], op['frac'] = fault(rng), round(rng.random(), 4)
            ops.append(op)
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops}


def fault(rng):
    kinds, ops = rng.choice([(['EIO', 'EMFILE', 'EACCES', 'memory', 'interrupt'], ['open_r']),
                             (['EIO', 'short', 'memory', 'interrupt', 'ESTALE'], ['read']),
                             (['EIO', 'ESTALE', 'interrupt'], ['seek']), (['truncate'], ['open_r']),
                             (['truncate'], ['open_r']), (['short', 'stall'], ['read'])])
    return {'kind': rng.choice(kinds), 'ops': ops, 'cls': ['topo'], 'arg': rng.randrange(1 << 20),
            'count': rng.choice([1, 1, 2, 1000])}


def rows_cols(op):
    """first and last row and column of a window, as the file has them (columns not wrapped)"""
    top = max(0, math.floor((90 - op['lat'][1]) * 12 + 1e-9))
    bottom = min(2159, math.ceil((90 - op['lat'][0]) * 12 - 1e-9))
    return top, bottom, math.floor(op['lon'][0] * 12 + 1e-9), math.ceil(op['lon'][1] * 12 - 1e-9)


def check_window(op, value):
    topo, longs, lats = (np.asarray(v, dtype=float) for v in value)
    if not topo.shape == longs.shape == lats.shape or topo.ndim != 2:
        raise Violation('window:shape', 'depths %s at %s longitudes and %s latitudes' % (topo.shape, longs.shape, lats.shape))
    top, bottom, left, right = rows_cols(op)
    rows, cols = (90 - lats) * 12, longs * 12
    if np.max(np.abs(rows - np.round(rows))) > 1e-6 or np.max(np.abs(cols - np.round(cols))) > 1e-6:
        raise Violation('window:positions', 'depths are not at the positions of the grid')
    r, c = np.round(rows).astype(int), np.round(cols).astype(int)
    if r.min() > top or r.max() < bottom or c.min() > left or c.max() < right:
        raise Violation('window:cover', 'rows %d to %d, columns %d to %d do not cover rows %d to %d, columns %d to %d' % (
            r.min(), r.max(), c.min(), c.max(), top, bottom, left, right))
    if len({(int(a), int(b)) for a, b in zip(r.ravel(), c.ravel())}) != (r.max() - r.min() + 1) * (c.max() - c.min() + 1):
        raise Violation('window:holes', 'positions are missing or repeated')
    want = W.topo_cells(r, c % W.TOPO_COLS)
    bad = np.argwhere(topo != want)
    if bad.size:
        i = tuple(bad[0])
        raise Violation('window:depth', 'the depth at %.4f, %.4f is %r, the file holds %r (%d of %d differ)' % (
            lats[i], longs[i], float(topo[i]), float(want[i]), len(bad), topo.size))


def windows(case, ctx):
    s = ctx.session(case['spec'], case['seed'])
    k = s.kernel
    met = False
    for op in case['ops']:
        def read(op=op):
            return sys.modules['pyowc.data.fetchers'].get_topo_grid(op['lon'][0], op['lon'][1], op['lat'][0],
                                                                    op['lat'][1], s.cfg)
        name = 'none'
        if op.get('fault'):
            k.trace = []
            status, value = s.user(read)
            trace, k.trace = k.trace, None
            if status != 'ok':
                raise Violation('window:refused', 'reading %s ends with %r' % (op, value))
            f = dict(op['fault'], frac=op['frac'])
            if f['kind'] == 'truncate':
                top, bottom, left, right = rows_cols(op)
                r = top + int(op['frac'] * (bottom - top + 1))
                f['arg'] = max(0, (r * 4320 + (left + f['arg'] % (right - left + 2)) % 4320) * 2 + f['arg'] % 3 - 1)
                f['frac'], f['count'] = 0.0, 1000
            g, count = s.locate(f, trace)
            if not count:
                raise Violation('window:unread', 'the topography file was not read')
            before = len(k.fired)
            k.arm([g])
            try:
                status, value = s.user(read)
            finally:
                k.disarm()
            fired = k.fired[before:]
            met = met or bool(fired)
            name = '+'.join(sorted({'%s@%s' % (f['kind'], f['op']) for f in fired}))
            with judging('window'):
                if status == 'ok':
                    check_window(op, value)
            if status == 'error' and not fired:
                raise Violation('window:refused', 'reading %s ends with %r' % (op, value))
            ctx.states.add('%s/%s/%s' % (op['kind'], name, status))
            s.marks.append('window:%s:%s' % (status, name))
            value = None
            if k.open_files:
                raise Violation('window:open', 'after %s %s stays open' % (name, sorted(k.open_files.values())))
        status, value = s.user(read)
        if status != 'ok':
            raise Violation('window:refused', 'reading %s ends with %r' % (op, value))
        with judging('window'):
            check_window(op, value)
        if k.open_files:
            raise Violation('window:open', '%s stays open' % sorted(k.open_files.values()))
        ctx.states.add('%s/none/ok' % op['kind'])
        if met:
            ctx.nontrivial = True
        ctx.probe('windows')


def execute(case, ctx):
    if case['ops'] and case['ops'][0]['op'] == 'window':
        windows(case, ctx)
        return
    s = ctx.session(case['spec'], case['seed'])
    places = Places(s)
    must(s.do('map', 0), 'preparation')
    must(s.do('calseries', 0), 'preparation')
    edit_series(s, 0, max_breaks=[[0]])
    start = snapshot(s, 0, ('map', 'fit'))
    for op in case['ops']:
        restore(s, 0, start if op['op'] == 'fit' else {'map': None, 'fit': start['fit']})
        s.restart()
        places.memo.clear()
        out, trace, _ = places.get(op['op'], 0)
        must(out, 'the reference')
        side = s.side_cfg()
        copy_results(s, 0, s.cfg, side)
        must(s.trace(op['op'], 0, side)[0], 'the reference')
        want = s.load_result(op['op'], 0, side)
        f, _ = s.locate(dict(op['fault'], frac=op['frac']), trace)
        if f['kind'] == 'truncate':
            f['arg'] = int(op['frac'] * 2160) * 8640 + f['arg'] % 8640
            f['nth'], f['count'] = 0, 1000
        before = K.real_bytes(s.path_of(op['op'], 0))
        out = s.do(op['op'], 0, faults=[f])
        after = K.real_bytes(s.path_of(op['op'], 0))
        if out.ok:
            with judging('run'):
                diff = same_result(op['op'], S.parse(after), want)
            if diff:
                raise Violation('run', 'a %s run met %s and its result is not the undisturbed one: %s'
                                % (op['op'], out.fired[:2], diff))
        elif not out.fired:
            must(out, 'a run without faults')
        elif after != before:
            raise Violation('run:stored', 'a %s run met %s, failed, and changed its result' % (op['op'], out.fired[:2]))
        if s.kernel.open_files:
            raise Violation('run:open', '%s stays open' % sorted(s.kernel.open_files.values()))
        again = s.do(op['op'], 0)
        must(again, 'repeated run')
        with judging('run'):
            diff = same_result(op['op'], s.load_result(op['op'], 0), want)
        if diff:
            raise Violation('run:again', 'repeated after %s: %s' % (out.fired[:2], diff))
        ctx.nontrivial = ctx.nontrivial or bool(out.fired)
        ctx.states.add('%s/%s/%s' % (op['op'], '+'.join(sorted({'%s@%s' % (f['kind'], f['op']) for f in out.fired})),
                                     out.name()))
