"""C18: a calibration is the weighted fit its data prescribe, with the errors that follow from them"""
import math

from sim import fit as F

from .c12 import Inputs, close, edit, late_start
from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C18'
LEVEL = 'exploration'
QUICK, THOROUGH = 150, 5000
RULE = ('A case is a float of 3-14 profiles and a history of growth, mapping, settings and calibration runs (also faulty, '
        'killed, interrupted, repeated), restarts and edits by the operator as in C12, with any scales of correlation; '
        'then calibrations in side directories against climatologies with noise, trends, a break, errors which differ '
        'between levels and profiles, profiles or levels which are not mapped, other bounds and shares of profiles.  '
        'Each saved calibration is compared with the reference model sim/fit.py: levels used, points, weights, '
        'effective degrees of freedom, choice between offset, trend and break points, factors and their errors, and '
        'errors of the calibrated values.  Non-trivial: a series was compared.  Distinct: by history, outcomes and '
        'faults.')
ASSUMPTIONS = ['the conversion functions of gsw are right', 'profiles are in ascending order in the source, and mapped '
               'and listed in the settings before they are calibrated',
               'errors of trends come from 200 random trials: they are compared within 35 %',
               'a search for break points may end in a local optimum: of searched break points, the fit for those '
               'reported is judged, and that neither an offset nor a trend would have been chosen; a single '
               'break point which lowers the criterion by more than 60 must not be missed altogether',
               'sim/fit.py follows the published method where the published method is peculiar (see there)']


def generate(rng, i, tier):
    spec = W.random_spec(rng, nprof=(3, 9) if i % 4 else (9, 14), levels=(6, 14), bad_rate=0.4, n_boxes=(1, 3),
                         max_casts=[300, 25], pv=[0, 0, 1])
    flt = spec['floats'][0]
    flt['offset'] = rng.choice([0.0, 0.02, 0.12, -0.15])
    if rng.random() < 0.3:
        flt['gap'] = [rng.randrange(1, flt['nprof']), rng.choice([1, 2, 10])]
    n, ops, have = flt['nprof'], [], 0
    while have < n or not ops:
        have = n if rng.random() < 0.6 else min(n, have + rng.randint(2, 4))
        ops.append({'op': 'deliver', 'keep': list(range(have))})
        ops.append({'op': 'map'})
        ops.append({'op': 'calseries'})
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.85:
                ops.append({'op': 'edit', 'what': [rng.choice(['series', 'fit', 'fit', 'bounds', 'percent', 'reset'])
                                                   for _ in range(rng.choice([1, 2]))], 'seed': rng.randrange(1 << 30)})
            cfg = {}
            if rng.random() < 0.7:
                scale = rng.choice([0.004, 0.1, 0.5, 1.5])
                cfg = {'MAPSCALE_LONGITUDE_SMALL': scale, 'MAPSCALE_LATITUDE_SMALL': scale * rng.choice([0.5, 1, 2]),
                       'MAPSCALE_PHI_SMALL': rng.choice([0.1, 0.02]), 'MAP_USE_PV': rng.choice([0, 0, 1])}
            fit = {'op': 'fit', 'cfg': cfg}
            r = rng.random()
            if r < 0.12:
                fit['faults'] = [draw_fault(rng, rng.choice(['storage', 'crash', 'noise', 'reference']))]
            elif r < 0.17:
                fit['line'] = draw_line(rng)
            ops.append(fit)
            if fit.get('faults') or fit.get('line'):
                ops.append(dict(op='fit', cfg=cfg))
        if rng.random() < 0.3:
            ops.append({'op': 'restart'})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops, 'probes': rng.choice([2, 3, 4])}


def near(a, b, rel=1e-6, tiny=1e-10):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tiny + rel * np.abs(b)))


def errors(inp, got, label):
    """the errors of the calibrated values follow from those of the factors"""
    import gsw  # pylint: disable=import-outside-toplevel
    cond = gsw.C_from_SP(inp.source['SAL'], inp.source['PTMP'], 0.0)
    pairs = [('cal_COND_err', np.ravel(got['pcond_factor_err']) * cond)]
    pairs.append(('cal_SAL_err', np.abs(got['cal_SAL'] - gsw.SP_from_C(got['cal_COND'] + pairs[0][1], inp.source['PTMP'], 0.0))))
    sta = np.ravel(got['sta_mean']) * cond
    pairs.append(('sta_SAL', gsw.SP_from_C(sta, inp.source['PTMP'], 0.0)))
    pairs.append(('sta_SAL_err', np.abs(pairs[2][1] - gsw.SP_from_C(sta + np.ravel(got['sta_rms']) * cond, inp.source['PTMP'], 0.0))))
    for k, want in pairs:
        if not close(got[k], want, 1e-8):
            bad = np.argwhere(~((np.abs(got[k] - want) <= 1e-8) | (np.isnan(got[k]) & np.isnan(want))))[0]
            raise Violation(label + ':errors', '%s of profile %g, level %d is %r, expected %r'
                            % (k, inp.x[bad[1]], bad[0], float(got[k][tuple(bad)]), float(want[tuple(bad)])))


def judge(inp, got, cfg, ctx, label='fit'):
    """a saved calibration against the model; returns the number of series compared"""
    factor, error = np.ravel(got['pcond_factor']), np.ravel(got['pcond_factor_err'])
    limits, given = inp.limits()
    rows = [np.ravel(r)[np.isfinite(np.ravel(r))] for r in np.atleast_2d(got['fbreaks'])] if got['fbreaks'].size else []
    rows = [r for r in rows if r.size]
    errors(inp, got, label)
    count = 0
    for j, name in enumerate(inp.names):
        w = np.flatnonzero(inp.flags == name)
        if w.size == 0:
            continue
        res = F.series(inp, name, cfg)
        if res is None:
            if not np.isnan(factor[w]).all():
                raise Violation(label + ':nothing', 'series %g has nothing to be calibrated with, its factors are %s'
                                % (name, factor[w].tolist()))
            continue
        fit, gap = res
        if gap < 1e-6:
            ctx.probe('levels too close to call')
            continue
        if np.isnan(factor[w]).any():
            raise Violation(label + ':undefined', 'series %g has %d points at %s to be calibrated with, its factors are %s'
                            % (name, fit.n, sorted(set(fit.x.tolist())), factor[w].tolist()))
        prescribed = given[j] is not None and given[j].size > 0
        if prescribed:
            if given[j].size < limits[j]:
                continue
            options = [(given[j].size, given[j])]
        else:
            most = fit.most(limits[j])
            options = [(-1, None)] + ([(0, [])] if most >= 0 else [])
        try:
            solved = [(k, *fit.solve(knots)) for k, knots in options]
        except np.linalg.LinAlgError:
            solved = [(-1, *fit.solve(None))] if not prescribed else []
        values = [(fit.criterion(s[3], s[0]), s) for s in solved]
        best = values[0] if len(values) == 1 or not values[1][0] < values[0][0] else values[1]
        clear = len(values) == 1 or abs(values[1][0] - values[0][0]) > 1e-6 * (1 + abs(values[0][0]))
        is_one = [near(factor[w], s[1], 1e-7) for _, s in values]
        searched = not prescribed and fit.most(limits[j]) > 0
        count += 1
        ctx.probe('series compared')
        if searched:
            missed(fit, factor[w], name, rows, values, is_one, ctx, label)
        if any(is_one) and (not clear or is_one[values.index(best)]):
            _, s = values[is_one.index(True)]
            if not clear:
                continue
            ctx.probe('chosen: %s' % {-1: 'offset', 0: 'trend'}.get(s[0], 'prescribed break points'))
            tol = 1e-6 if s[0] < 0 else 0.35
            ok = np.isfinite(s[2])
            if ok.any() and not near(error[w][ok], s[2][ok], tol, 1e-9):
                raise Violation(label + ':error', 'the errors of the factors of series %g (%s) are %s, expected %s'
                                % (name, s[0], error[w].tolist(), s[2].tolist()))
            continue
        if searched and not any(is_one):
            tried = []
            for row in rows:
                if row.size > fit.most(limits[j]):
                    continue
                try:
                    f, _, rss = fit.solve(row)
                except np.linalg.LinAlgError:
                    continue
                value = fit.criterion(rss, row.size)
                tried.append((f.tolist(), float(value)))
                if near(factor[w], f, 1e-6):
                    ctx.probe('chosen: searched break points')
                    if value > best[0] + 1e-6 * (1 + abs(best[0])):
                        raise Violation(label + ':choice', 'series %g: %d break points are chosen (criterion %g) although '
                                        'it is %g without' % (name, row.size, value, best[0]))
                    break
            else:
                raise Violation(label + ':value', 'the factors of series %g are %s, those of the weighted fit with the '
                                'break points reported (%s) are %s' % (name, factor[w].tolist(), rows, tried))
            continue
        raise Violation(label + ':value', 'the factors of series %g (%d points, %.3f degrees of freedom, limit %g, '
                        'prescribed %s) are %s, expected %s (criterion %s)' % (
                            name, fit.n, fit.dof, limits[j], given[j], factor[w].tolist(), best[1][1].tolist(),
                            [(v[1][0], float(v[0])) for v in values]))
    return count


def missed(fit, found, name, rows, values, is_one, ctx, label):
    """a break point which everybody can see must not be missed"""
    places = np.unique(fit.x)
    if places.size < 4:
        return
    taken = [v for (v, _), one in zip(values, is_one) if one]
    best, where = math.inf, None
    for knots in rows + [[k] for k in np.linspace(places[1], places[-2], 41)]:
        try:
            f, _, rss = fit.solve(knots)
        except np.linalg.LinAlgError:
            continue
        value = fit.criterion(rss, len(knots))
        if near(found, f, 1e-6):
            taken.append(value)
        if len(knots) == 1 and value < best:
            best, where = value, knots[0]
    without = min(v for v, _ in values)
    if taken and without > best + 60:
        ctx.probe('obvious break point')
        if min(taken) > without - 0.02 * (without - best):
            raise Violation(label + ':missed', 'series %g has an obvious break point near %g (criterion %g, without %g); the '
                            'criterion of the calibration is %g' % (name, where, best, without, min(taken)))


def noisy(s, inp, rs):
    """other mappings and settings of the same float"""
    import gsw  # pylint: disable=import-outside-toplevel
    two = inp.copy()
    n, m = inp.x.size, inp.source['SAL'].shape[0]
    flags = np.ones(n)
    if n > 5 and rs.rand() < 0.4:
        flags[rs.randint(2, n - 1):] = 2
    flags[rs.rand(n) < 0.1] = 0
    two.flags, two.names = flags, [v for v in np.unique(flags) if v]
    two.series['calseries'] = flags.reshape(1, -1)
    two.series['breaks'] = np.zeros((0, 0))
    limit = rs.choice([-1.0, 0.0, 0.0, 1.0, 2.0])
    two.series['max_breaks'] = np.array([[limit]])
    for k in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt'):
        if rs.rand() < 0.7:
            two.series[k] = np.zeros((0, 0))
    two.series['use_percent_gt'] = np.array([[round(float(rs.uniform(0.2, 0.9)), 2)]])
    x = (inp.x - inp.x[0]) / max(1.0, inp.x[-1] - inp.x[0])
    factor = 1 + rs.uniform(-0.003, 0.003) + rs.choice([0, 0, 1]) * rs.uniform(-0.002, 0.002) * x \
        + rs.choice([0, 0, 1]) * rs.uniform(-0.004, 0.004) * np.maximum(0, x - rs.uniform(0.3, 0.7))
    factor = factor + rs.choice([0, 1e-5, 1e-4, 1e-3]) * rs.randn(n)
    cond = gsw.C_from_SP(inp.source['SAL'], inp.source['PTMP'], 0.0)
    sal = gsw.SP_from_C(cond * factor, inp.source['PTMP'], 0.0)
    sal = sal + rs.choice([1e-5, 1e-4, 1e-3, 1e-2]) * rs.randn(*sal.shape)
    mapped = np.isfinite(sal) & np.isfinite(inp.source['PRES'])
    if rs.rand() < 0.5:
        mapped &= np.isfinite(inp.map['la_mapped_sal'][:m])
    if rs.rand() < 0.4:
        mapped &= rs.rand(*mapped.shape) < rs.choice([0.5, 0.9])
    late_start(mapped, flags, rs)
    err = rs.choice([0.001, 0.01]) * (1 + rs.choice([0, 1, 10]) * rs.rand(*sal.shape))
    for k, v in (('la_mapped_sal', sal), ('la_mapsalerrors', err), ('la_ptmp', inp.source['PTMP'])):
        full = np.full(inp.map['la_mapped_sal'].shape, np.nan)
        full[:m] = np.where(mapped, v, np.nan)
        two.map[k] = full
    if not two.map['selected_hist'].size:
        two.map['selected_hist'] = np.array([[inp.source['LONG'][0], inp.source['LAT'][0], inp.x[0]]])
    if rs.rand() < 0.1:
        two.map['la_mapped_sal'][:] = np.nan
    scale = rs.choice([0.004, 0.004, 0.004, 0.02, 0.1, 0.5])
    cfg = dict(s.cfg, MAPSCALE_LONGITUDE_SMALL=scale, MAPSCALE_LATITUDE_SMALL=scale * rs.choice([0.5, 1, 2]),
               MAPSCALE_PHI_SMALL=rs.choice([0.1, 0.02]), MAP_USE_PV=rs.choice([0, 0, 1]))
    return two, cfg


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    gap = case['spec']['floats'][0].get('gap')
    if gap:
        s.full[0]['PROFILE_NO'][gap[0]:] += gap[1]
    places, rs = Places(s), np.random.RandomState(case['seed'] % (1 << 31))
    inp, compared = None, 0
    for op in case['ops']:
        if op['op'] == 'deliver':
            s.deliver(0, op['keep'])
        elif op['op'] == 'restart':
            s.restart()
        elif op['op'] == 'edit':
            if K.real_bytes(s.calseries_path(0)) is not None:
                edit(s, op)
        elif op['op'] in ('map', 'calseries'):
            if s.source[0] is not None:
                must(s.do(op['op'], 0), 'preparation')
        else:
            if K.real_bytes(s.calseries_path(0)) is None or K.real_bytes(s.map_path(0)) is None:
                continue
            inp = Inputs(s)
            if not inp.aligned():
                inp = None
                continue
            cfg = with_cfg(s, op['cfg'])
            places.memo.clear()
            faults, line = resolve(s, places, op, 0, 'fit')
            before = K.real_bytes(s.cal_path(0))
            out = s.do('fit', 0, cfg=cfg, faults=faults, line=line)
            if not out.ok and not out.fired:
                if not inp.determined():
                    ctx.probe('undetermined break points')
                    continue
                must(out, 'a run without faults')
            if not out.ok or not inp.determined() or K.real_bytes(s.cal_path(0)) == before:
                continue
            with judging('fit'):
                got = s.load_result('fit', 0)
                if not isinstance(got, dict):
                    raise Violation('fit', 'the calibration is %s' % S.kind_of(got))
                compared += judge(inp, got, cfg, ctx)
            limits, given = inp.limits()
            ctx.states.add('%s, %s, %s, %d' % (limits.tolist(), [None if g is None else g.size for g in given],
                                               inp.inside().all(), inp.x.size))
    if inp is not None and inp.x.size > 1:
        for _ in range(case['probes']):
            two, cfg = noisy(s, inp, rs)
            out, got = two.side(s, cfg)
            must(out, 'calibration against another climatology')
            with judging('fit'):
                compared += judge(two, got, cfg, ctx, 'side')
    ctx.nontrivial = compared > 0
