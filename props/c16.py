"""C16: diagnostics of a float do not depend on what was plotted before"""
import os

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C16'
LEVEL = 'exploration'
QUICK, THOROUGH = 64, 2500
RULE = ('A case is a world with 1-3 floats (names may contain each other), one or two calibrations of each (other '
        'series, break points and bounds) and 2-6 plot runs in one process: of any float and calibration, with any '
        'number of theta levels, theta bounds and picture format, some under faults (pictures that cannot be written, '
        'results that cannot be read), interrupts or lack of memory, with user code (open or closed figures) between '
        'them.  Every figure is recorded when it is saved; the figures of a plot run that ends well are compared with '
        'those of a process that plots nothing else, and the curves in them with the files of the float.  Non-trivial: '
        'a plot run ended well after something else was plotted.  Distinct: by runs, outcomes and places of faults.')
ASSUMPTIONS = ['the user does not change the style settings of the plotting library',
               'pictures are rendered in one case of sixteen; elsewhere a stub writes the file']
BOUNDS = [[[0, 5], [5, 20]], [[0, 5], [5, 20]], [[2, 9]], [[0, 3], [3, 8], [8, 20]]]


def generate(rng, i, tier):
    n = rng.choice([1, 2, 2, 3])
    names = rng.choice([None, None, ['3901960', '390196', '13901960']])
    spec = W.random_spec(rng, n_floats=n, nprof=(3, 6), levels=(6, 9), n_boxes=(2, 3), bad_rate=0.12,
                         names=names and names[:n])
    real = i % 16 == 5
    variants = [[{'breaks': rng.choice([0, 0, -1, 1]), 'split': rng.random() < 0.25, 'drop': rng.random() < 0.2,
                  'bounds': rng.choice([None, None, 'theta_lt', 'theta_gt', 'pres_lt', 'pres_gt', 'theta'])}
                 for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
    ops = []
    for _ in range(2 if real else rng.randint(2, 5 if tier == 'quick' else 9)):
        r = rng.random()
        if r < 0.2:
            ops.append({'op': 'user', 'what': rng.choice(['figure', 'close', 'draw', 'axes'])})
            continue
        i2 = rng.randrange(n)
        op = {'op': 'plot', 'i': i2, 'v': rng.randrange(len(variants[i2])), 'levels': rng.choice([2, 2, 1, 3]),
              'bounds': rng.randrange(len(BOUNDS)), 'format': rng.choice(['eps', 'png', 'pdf', 'svg'])}
        r = rng.random()
        if r < 0.3:
            op['faults'] = [{'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'interrupt', 'memory']),
                             'ops': rng.choice([['open_w'], ['write'], ['close_w']]), 'cls': ['plots'],
                             'frac': round(rng.random(), 4), 'count': rng.choice([1, 1, 1000]),
                             'arg': rng.randrange(1 << 20)}]
        elif r < 0.4:
            op['faults'] = [{'kind': rng.choice(['EIO', 'short', 'truncate', 'ESTALE']),
                             'ops': rng.choice([['open_r'], ['read']]), 'cls': None,
                             'frac': round(rng.random(), 4), 'count': 1, 'arg': rng.randrange(1 << 9)}]
            if op['faults'][0]['kind'] == 'truncate':
                op['faults'][0].update(ops=['open_r'], count=1000000)
        elif r < 0.55:
            op['line'] = draw_line(rng, ['interrupt', 'memory'])
        ops.append(op)
    last = rng.randrange(n)
    ops.append({'op': 'plot', 'i': last, 'v': rng.randrange(len(variants[last])), 'levels': rng.choice([2, 3, 1]),
                'bounds': rng.randrange(len(BOUNDS)), 'format': rng.choice(['eps', 'png'])})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops, 'variants': variants, 'real': real}


def prepare(s, variants):
    """results of earlier processes: {float: [snapshot of its files for each variant, or None]}"""
    out = []
    for i in range(len(s.spec['floats'])):
        must(s.do('map', i), 'preparation')
        must(s.do('calseries', i), 'preparation')
        first = K.real_bytes(s.calseries_path(i))
        mine = []
        for v in variants[i]:
            put(s.calseries_path(i), first)
            d = s.load_result('calseries', i)
            flags = d['calseries'].astype(float).copy()
            if v['split'] and flags.size > 3:
                flags[0, flags.size // 2:] = 2
            if v['drop'] and flags.size > 3:
                flags[0, 0] = 0
            ch = {'calseries': flags, 'max_breaks': [[v['breaks']]] if not v['split'] else [[0], [v['breaks']]]}
            ptmp, pres = s.source[i]['PTMP'], s.source[i]['PRES']
            if v['bounds'] == 'theta_lt':
                ch['use_theta_lt'] = [[round(float(np.nanpercentile(ptmp, 80)), 2)]]
            elif v['bounds'] == 'theta_gt':
                ch['use_theta_gt'] = [[round(float(np.nanpercentile(ptmp, 15)), 2)]]
            elif v['bounds'] == 'pres_lt':
                ch['use_pres_lt'] = [[round(float(np.nanpercentile(pres, 85)))]]
            elif v['bounds'] == 'pres_gt':
                ch['use_pres_gt'] = [[round(float(np.nanpercentile(pres, 20)))]]
            elif v['bounds'] == 'theta':
                ch['use_theta_lt'] = [[round(float(np.nanpercentile(ptmp, 90)), 2)]]
                ch['use_theta_gt'] = [[round(float(np.nanpercentile(ptmp, 10)), 2)]]
            edit_series(s, i, **ch)
            out_fit = s.do('fit', i)
            mine.append(snapshot(s, i) if out_fit.ok else None)
        out.append(mine)
    return out


def config_of(s, op):
    return dict(s.cfg, THETA_BOUNDS=[list(b) for b in BOUNDS[op['bounds']]], FLOAT_PLOTS_FORMAT=op['format'])


def execute(case, ctx):
    import copy  # pylint: disable=import-outside-toplevel
    from sim.pictures import Pictures, same  # pylint: disable=import-outside-toplevel
    s = ctx.session(case['spec'], case['seed'], shapes=True)
    pictures = Pictures(render=case['real']).install()
    snaps = ctx.grandchild(lambda: prepare(s, case['variants']))
    fresh = {}

    def key_of(op):
        return op['i'], op['v'], op['levels'], op['bounds'], op['format']

    def alone(op):
        restore(s, op['i'], snaps[op['i']][op['v']])
        s.restart()
        out = s.do('plot', op['i'], cfg=config_of(s, op), levels=op['levels'])
        ctx2 = {'out': out.name(), 'value': repr(out.value)[:300], 'figures': pictures.take(),
                'ops': [s.kernel.stats.get(k, 0) for k in ('x',)]}
        return ctx2
    for op in case['ops']:
        if op['op'] == 'plot' and snaps[op['i']][op['v']] is not None and key_of(op) not in fresh:
            def run(op=op):
                k = s.kernel
                k.trace = []
                k.lines_on()
                got = alone(op)
                got['trace'], got['lines'] = list(k.trace), (k.line_count, len(k.line_seen))
                return got
            fresh[key_of(op)] = ctx.grandchild(run)
    s.restart()
    proc, before_it = s.proc, 0
    for op in case['ops']:
        if op['op'] == 'user':
            s.user(lambda op=op: user_code(op['what']), proc)
            s.marks.append('user:' + op['what'])
            continue
        if snaps[op['i']][op['v']] is None:
            continue
        i, want = op['i'], fresh[key_of(op)]
        restore(s, i, snaps[i][op['v']])
        cfg = config_of(s, op)
        held = copy.deepcopy(cfg)
        faults, line = [], None
        for f in op.get('faults', []):
            faults.append(s.locate(f, want['trace'])[0])
        if op.get('line'):
            line = dict(op['line'], at=1 + int(op['line']['frac'] * max(want['lines'][op['line']['new']] - 1, 1)))
        before = s.tree(skip=())
        pictures.take()
        out = s.do('plot', i, cfg=cfg, faults=faults, line=line, proc=proc, levels=op['levels'])
        figures = pictures.take()
        after = s.tree(skip=())
        if cfg != held:
            raise Violation('config', 'a plot run changed the configuration')
        ctx.probe('plot %s' % ('ok' if out.ok else 'failed'))
        ctx.states.add('%s/%d/%s/%s' % (out.name(), before_it, case['variants'][i][op['v']]['bounds'], '+'.join(
            sorted({'%s@%s/%s' % (f['kind'], f['op'], f['cls']) for f in out.fired}))))
        changed = [r for r in sorted(set(before) | set(after)) if before.get(r) != after.get(r)]
        names = {r for r in after if r.startswith('float_plots/')}
        for r in changed:
            if not r.startswith('float_plots/%s_' % s.name(i)):
                raise Violation('files', 'a plot run of float %s changed %s' % (s.name(i), r))
        if want['out'] != 'ok':
            if out.ok:
                raise Violation('history:outcome', 'the plot run of float %s ends well, in a fresh process it ends with %s'
                                % (s.name(i), want['value']))
            before_it += 1
            continue
        broken = [f for f in out.fired if f['kind'] in ('EIO', 'ENOSPC', 'EACCES', 'interrupt', 'memory', 'ESTALE')
                  and f['op'] in ('open_w', 'write', 'close_w') and f['cls'] == 'plots']
        if out.ok and broken:
            raise Violation('reported', 'a picture of float %s could not be written (%s), and the run ended well'
                            % (s.name(i), broken[0]))
        if not out.ok:
            if not out.fired:
                raise Violation('history:outcome', 'the plot run of float %s ends with %r, in a fresh process it ends '
                                'well' % (s.name(i), out.value))
            # what was drawn until then is what belongs there
            with judging('history'):
                for (n1, f1), (n2, f2) in zip(figures, want['figures']):
                    diff = same(f1, f2, n1) if n1 == n2 else 'picture %s, expected %s' % (n1, n2)
                    if diff and not any(f['op'] in ('open_r', 'read') for f in out.fired):
                        raise Violation('history', 'after %d others: %s' % (before_it, diff))
            before_it += 1
            continue
        with judging('figures'):
            if [f[0] for f in figures] != [f[0] for f in want['figures']]:
                raise Violation('history:pictures', 'pictures %s, in a fresh process %s' % (
                    [f[0] for f in figures], [f[0] for f in want['figures']]))
            for (n1, f1), (_, f2) in zip(figures, want['figures']):
                diff = same(f1, f2, n1)
                if diff:
                    raise Violation('history', 'after %d other things: %s' % (before_it, diff))
            check_figures(s, i, cfg, op['levels'], figures, ctx)
        for n1, _ in figures:
            if 'float_plots/' + n1 not in names:
                raise Violation('pictures', 'the picture %s does not exist' % n1)
            if os.path.getsize(os.path.join(s.root, 'float_plots', n1)) == 0:
                raise Violation('pictures', 'the picture %s is empty' % n1)
        if before_it:
            ctx.nontrivial = True
        before_it += 1


def user_code(what):
    import matplotlib.pyplot as plt  # pylint: disable=import-outside-toplevel
    if what == 'figure':
        plt.figure()
        plt.plot([1, 2, 3], [5, 4, 3], label='mine')
        plt.title('mine')
    elif what == 'close':
        plt.close('all')
    elif what == 'draw':
        plt.plot([0, 1], [1, 0])
    elif what == 'axes':
        plt.figure(1)
        plt.subplot(211)


# ------------------------------------------------------------------------------------------- what must be drawn
def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=1e-10, equal_nan=True))


def west(lon):
    lon = np.array(lon, dtype=float)
    lon[lon > 180] -= 360
    return lon


def need(cond, label, text, *args):
    if not cond:
        raise Violation('drawn:' + label, text % args)


def lines_of(fig):
    return [(label, x, y) for ax in fig for label, x, y in ax['lines']]


def expect_lines(where, ax, wanted, others=None):
    """each wanted curve is drawn, and nothing else unless `others` says so"""
    left = [(x, y) for _, x, y in ax['lines']]
    for k, (wx, wy) in enumerate(wanted):
        hit = [n for n, (x, y) in enumerate(left) if close(x, wx) and close(y, wy)]
        need(hit, where, '%s: curve %d of the float is not drawn', where, k)
        left.pop(hit[0])
    for x, y in left:
        need(others is not None and others(x, y), where, '%s: a curve of %d points is drawn which is not of this '
             'float (%s ... / %s ...)', where, len(x), np.asarray(x)[:3], np.asarray(y)[:3])


def check_figures(s, i, cfg, levels, figures, ctx):
    from scipy.io import loadmat  # pylint: disable=import-outside-toplevel
    name = s.name(i)
    src = s.load(s.source_path(i))
    m, cal, series = (s.load_result(w, i) for w in ('map', 'fit', 'calseries'))
    fmt = cfg['FLOAT_PLOTS_FORMAT']
    by = {}
    for n1, f in figures:
        need(n1 not in by, 'pictures', 'picture %s is saved twice', n1)
        by[n1] = f
    wanted = ['trajectory', 'uncalibrated_theta_sal', 'calibrated_theta_sal', 'salinity_profile']
    wanted += ['salinity_variance_%d' % (k + 1) for k in range(levels)]
    wanted += ['%s_salinity_anomaly_%s' % (t, b) for t in ('uncalibrated', 'calibrated') for b in cfg['THETA_BOUNDS']]
    if np.any(np.isfinite(cal['cal_SAL'])):
        wanted.append('salinity_curve')
    wanted = {'%s_%s.%s' % (name, w, fmt) for w in wanted}
    need(set(by) == wanted, 'pictures', 'pictures missing: %s, unexpected: %s', sorted(wanted - set(by)),
         sorted(set(by) - wanted))
    get = lambda w: by['%s_%s.%s' % (name, w, fmt)]  # noqa: E731
    numbers = np.ravel(src['PROFILE_NO']).astype(float)
    sal, ptmp, pres = src['SAL'], src['PTMP'], src['PRES']
    nprof = len(numbers)
    # trajectory
    ax = get('trajectory')[0]
    sel = np.asarray(m['selected_hist'], dtype=float)
    expect_lines('trajectory', ax, [(west(np.ravel(src['LONG'])), np.ravel(src['LAT'])), (west(sel[:, 0]), sel[:, 1])])
    texts = {float(t) for t in ax['texts']}
    need(texts <= set(numbers) and numbers[0] in texts and numbers[-1] in texts, 'trajectory',
         'trajectory: annotated with %s', sorted(texts))
    need(name in ax['title'], 'trajectory', 'trajectory: title %r', ax['title'])
    # theta-salinity diagrams
    pairs = {(float(a), float(b)) for a, b in zip(np.ravel(m['la_mapped_sal']), np.ravel(m['la_ptmp']))}
    for title, values in (('uncalibrated', sal), ('calibrated', cal['cal_SAL'])):
        expect_lines(title + '_theta_sal', get(title + '_theta_sal')[0],
                     [(values[:, c], ptmp[:, c]) for c in range(nprof)],
                     lambda x, y: all((float(a), float(b)) in pairs or np.isnan(a) or np.isnan(b)
                                      for a, b in zip(np.ravel(x), np.ravel(y))))
    # profiles
    flat = lambda x, y: len(np.ravel(y)) == 2 and np.ravel(y)[0] == np.ravel(y)[1]  # noqa: E731
    drawn = [ax for ax in get('salinity_profile')]
    need(len(drawn) == 4, 'profile', 'salinity_profile: %d panels', len(drawn))
    for k, (x, y) in enumerate(((sal, ptmp), (ptmp, -pres), (sal, -pres))):
        ok = [ax for ax in drawn if all(any(close(lx, x[:, c]) and close(ly, y[:, c]) for _, lx, ly in ax['lines'])
                                        for c in range(nprof))]
        need(ok, 'profile', 'salinity_profile: no panel shows %s of all profiles', ('salinity against temperature',
             'temperature against pressure', 'salinity against pressure')[k])
        expect_lines('salinity_profile', ok[0], [(x[:, c], y[:, c]) for c in range(nprof)], flat)
    need(any(name in ax['title'] for ax in drawn), 'profile', 'salinity_profile: float not named')
    # corrections
    if np.any(np.isfinite(cal['cal_SAL'])):
        top, low = get('salinity_curve')[:2]
        need(name in top['title'] and name in low['title'], 'curve', 'salinity_curve: titles %r, %r', top['title'],
             low['title'])
        factor = cal['pcond_factor'][0]
        need(any(close(x, numbers) and close(y, factor) for _, x, y in top['lines']), 'curve',
             'salinity_curve: the fitted factor is not drawn')
        d = cal['cal_SAL'] - sal
        mean = np.array([np.mean(d[np.isfinite(d[:, c]), c]) if np.any(np.isfinite(d[:, c])) else np.nan
                         for c in range(nprof)])
        need(any(close(x, numbers) and close(y, mean) for _, x, y in low['lines']), 'curve',
             'salinity_curve: the mean correction of salinity is not drawn')
        ok1 = np.isfinite(cal['sta_mean'][0])
        need(any(close(x, numbers[ok1]) and close(y, cal['sta_mean'][0][ok1]) for _, x, y in top['lines']), 'curve',
             'salinity_curve: the factors of single profiles are not drawn')
        for ax, mid in ((top, 1), (low, 0)):
            for _, x, y in ax['lines']:
                x = np.ravel(x)
                need(set(x) <= set(numbers) or (len(x) == 2 and set(np.ravel(y)) == {mid}), 'curve',
                     'salinity_curve: a curve at %s, profiles are %s', x[:5], numbers)
    # salinity on theta levels
    check_levels(get, levels, name, numbers, sal, ptmp, pres, m, cal, series, ctx)
    # anomalies
    for title, values in (('uncalibrated', sal), ('calibrated', cal['cal_SAL'])):
        for b in cfg['THETA_BOUNDS']:
            fig = get('%s_salinity_anomaly_%s' % (title, b))
            ax = fig[0]
            need(name in ax['title'] and title in ax['title'], 'anomaly', 'salinity anomaly: title %r', ax['title'])
            need(ax['ylim'] == (b[0], b[1]), 'anomaly', 'salinity anomaly: temperatures %s, expected %s', ax['ylim'], b)
            contours(ax, values, ptmp, numbers, title)
    del loadmat


def allowed(ptmp, pres, m, series):
    """measurements that may be used: mapped, and inside the operator's bounds"""
    ok = np.isfinite(m['la_ptmp'])
    ok = ok[:ptmp.shape[0], :ptmp.shape[1]]
    for v, lt, gt in ((ptmp, 'use_theta_lt', 'use_theta_gt'), (pres, 'use_pres_lt', 'use_pres_gt')):
        lo, hi = np.ravel(series[gt]), np.ravel(series[lt])
        with np.errstate(invalid='ignore'):
            if lo.size and hi.size:
                if hi[0] < lo[0]:
                    ok = ok & ~((v < lo[0]) & (v > hi[0]))
                else:
                    ok = ok & ~((v < lo[0]) | (v > hi[0]))
            elif lo.size:
                ok = ok & ~(v < lo[0])
            elif hi.size:
                ok = ok & ~(v > hi[0])
    return ok & np.isfinite(ptmp)


def check_levels(get, levels, name, numbers, sal, ptmp, pres, m, cal, series, ctx):
    import re  # pylint: disable=import-outside-toplevel
    ok = allowed(ptmp, pres, m, series)
    fields = {'uncalibrated': sal, 'mapped': m['la_mapped_sal'][:sal.shape[0]], 'calibrated': cal['cal_SAL']}
    for k in range(levels):
        ax = get('salinity_variance_%d' % (k + 1))[0]
        need(name in ax['title'], 'levels', 'salinity_variance: title %r', ax['title'])
        found = re.search(r'=\s*(-?[0-9.]+|nan)', ax['title'])
        need(found, 'levels', 'salinity_variance: no level in %r', ax['title'])
        level = float(found.group(1))
        for label, field in fields.items():
            curves = [y for lab, x, y in ax['lines'] if label in lab.split(' float')[0].split() and close(x, numbers)]
            need(curves, 'levels', 'salinity_variance: no %s curve over the profiles', label)
            for y in curves:
                for c in range(len(numbers)):
                    judge_level(label, field, y[c], level, c, numbers, ptmp, ok, ctx)


def judge_level(label, field, v, level, c, numbers, ptmp, ok, ctx):
    use = np.flatnonzero(ok[:, c])
    t = ptmp[use, c]
    inside = len(t) > 0 and np.nanmin(t) + 1e-4 < level < np.nanmax(t) - 1e-4
    outside = len(t) == 0 or level < np.nanmin(t) - 1e-4 or level > np.nanmax(t) + 1e-4 or np.isnan(level)
    if outside:
        need(np.isnan(v), 'levels', 'salinity_variance: %s salinity %r at %r degrees for profile %d, which does '
             'not reach it', label, v, level, numbers[c])
        return
    if not inside:
        return
    # between two neighbouring measurements around the level, or the nearest of them
    j = int(use[np.argmin(np.abs(t - level))])
    near = [r for r in (j - 1, j, j + 1) if 0 <= r < len(ptmp) and ok[r, c]]
    vals = [field[r, c] for r in near if np.isfinite(field[r, c])]
    if np.isfinite(v):
        need(vals and min(vals) - 1e-9 <= v <= max(vals) + 1e-9, 'levels', 'salinity_variance: %s salinity of profile '
             '%d at %r degrees is %r; measurements around it are %s', label, numbers[c], level, v, vals)
        ctx.probe('values on levels')
    else:
        # a gap only where the measurement itself is one, or equally near ones are
        dist = np.sort(np.abs(t - level))
        unique = len(dist) < 2 or dist[1] - dist[0] > 1e-4
        need(not (unique and np.isfinite(field[j, c])), 'levels', 'salinity_variance: %s salinity of profile %d at %r '
             'degrees is missing', label, numbers[c], level)


def contours(ax, values, ptmp, numbers, title):
    """the anomalies drawn are those of this float: contours of independently computed anomalies are the same"""
    from matplotlib.figure import Figure  # pylint: disable=import-outside-toplevel
    base = np.arange(0.1, 30.1, 0.1)
    grid = np.full((len(base), len(numbers)), np.nan)
    for c in range(len(numbers)):
        t, v = ptmp[:, c], values[:, c]
        u, first = np.unique(t, return_index=True)
        v = v[first]
        good = np.isfinite(u) & np.isfinite(v)
        if good.sum() >= 3:
            grid[:, c] = np.interp(base, u[good], v[good], left=np.nan, right=np.nan)
    with np.errstate(all='ignore'):
        some = np.any(np.isfinite(grid), axis=1)
        med = np.full(len(base), np.nan)
        med[some] = np.nanmedian(grid[some], axis=1)
    anom = grid - med[:, None]
    levels = [-0.1, -0.06, -0.04, -0.02, -0.01, -0.005, 0.005, 0.01, 0.02, 0.04, 0.06, 0.1]
    import warnings  # pylint: disable=import-outside-toplevel
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cs = Figure().subplots().contourf(numbers, base, anom, levels=levels)
    want = [np.array(p.vertices) for p in cs.get_paths()]
    sets = [c for c in ax['collections'] if 'Contour' in c[0]]
    need(sets, 'anomaly', 'salinity anomaly: nothing is drawn')
    for _, paths, _ in sets:
        if len(paths) == len(want) and all(p.shape == w.shape and np.allclose(p, w, atol=1e-6) for p, w in zip(paths, want)):
            return
    raise Violation('drawn:anomaly', 'salinity anomaly (%s): the coloured regions are not those of the anomalies of '
                    'this float' % title)
