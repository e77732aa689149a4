"""C12: calibration is applied consistently and keeps series apart"""
import os

from sim import fit as F

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C12'
LEVEL = 'exploration'
QUICK, THOROUGH = 180, 6000
RULE = ('A case is a float of 4-12 profiles (sensor offset, drift, gaps, profiles without data) and a history of growth, '
        'mapping, settings and calibration runs (also faulty, killed, interrupted, repeated), restarts and edits by the '
        'operator: series, excluded profiles, offset/trend/searched/prescribed break points, bounds.  After every '
        'calibration the saved file is judged against the inputs it was made of (independent salinity-conductivity '
        'conversion, shape of the factor, slope), and, in side directories, against calibrations in which only one '
        'series is left, the other profiles were measured elsewhere, measurements outside the bounds are changed, series have different limits, the float is moved across the Greenwich meridian, or the climatology is an exact offset, trend or '
        'broken line away from the float.  Non-trivial: a calibration with a fitted series.  Distinct: by history, '
        'outcomes and faults.')
ASSUMPTIONS = ['the conversion functions of gsw are right', 'profiles are in ascending order in the source, and mapped '
               'and listed in the settings before they are calibrated',
               'random error estimates are not judged (C13 names the reproducible variables)']


def generate(rng, i, tier):
    spec = W.random_spec(rng, nprof=(4, 12) if i % 4 else (11, 15), levels=(6, 11), bad_rate=0.5, n_boxes=(1, 3), max_casts=[300, 25],
                         pv=[0, 0, 1])
    flt = spec['floats'][0]
    flt['offset'] = rng.choice([0.0, 0.02, 0.12, -0.15, 0.3])
    if rng.random() < 0.3:
        flt['gap'] = [rng.randrange(1, flt['nprof']), rng.choice([1, 2, 10])]
    n, ops, have = flt['nprof'], [], 0
    while have < n or not ops:
        have = n if rng.random() < 0.5 else min(n, have + rng.randint(2, 4))
        late = rng.randrange(have) if rng.random() < 0.2 and have < n else None
        ops.append({'op': 'deliver', 'keep': [k for k in range(have) if k != late]})
        ops.append({'op': 'map'})
        ops.append({'op': 'calseries'})
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.85:
                ops.append({'op': 'edit', 'what': [rng.choice(['series', 'fit', 'fit', 'bounds', 'percent', 'reset'])
                                                   for _ in range(rng.choice([1, 2]))], 'seed': rng.randrange(1 << 30)})
            fit = {'op': 'fit'}
            r = rng.random()
            if r < 0.15:
                fit['faults'] = [draw_fault(rng, rng.choice(['storage', 'crash', 'noise', 'reference']))]
            elif r < 0.2:
                fit['line'] = draw_line(rng)
            ops.append(fit)
            if fit.get('faults') or fit.get('line'):
                ops.append({'op': 'fit'})
        if rng.random() < 0.3:
            ops.append({'op': 'restart'})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops,
            'probe': [rng.choice(['alone', 'bounds', 'line', 'line', 'limits', 'longitude', 'others']) for _ in range(4)]}


# ---------------------------------------------------------------------------------------------- inputs and judgement
class Inputs:
    """what a calibration is made of"""

    def __init__(self, s):
        self.source = {k: np.array(v) for k, v in s.source[0].items()}
        self.map, self.series = s.load_result('map', 0), s.load_result('calseries', 0)
        self.x = np.array(self.source['PROFILE_NO'], dtype=float)
        self.flags = np.ravel(self.series['calseries']).astype(float)
        self.names = [v for v in np.unique(self.flags) if v != 0]

    def aligned(self):
        numbers = [int(v) for v in self.source['PROFILE_NO']]
        return [int(v) for v in np.ravel(self.map['la_profile_no'])] == numbers and \
            [int(v) for v in np.ravel(self.series['calib_profile_no'])] == numbers

    def limits(self):
        """number of break points allowed for each series; and those prescribed"""
        mb = np.atleast_2d(self.series['max_breaks'])
        mb = np.repeat(mb[:1, 0], len(self.names)) if mb.shape[0] == 1 else mb[:, 0]
        b = np.asarray(self.series['breaks'], dtype=float)
        given = [np.sort(b[j][np.isfinite(b[j])]) if b.size else None for j in range(len(self.names))]
        return mb, given

    def inside(self):
        """the levels the operator allows"""
        t, p = self.source['PTMP'], self.source['PRES']
        out = np.ones(t.shape, dtype=bool)
        for v, lt, gt in ((t, 'use_theta_lt', 'use_theta_gt'), (p, 'use_pres_lt', 'use_pres_gt')):
            lo = float(np.ravel(self.series[gt])[0]) if self.series[gt].size else None
            hi = float(np.ravel(self.series[lt])[0]) if self.series[lt].size else None
            with np.errstate(invalid='ignore'):
                if lo is not None and hi is not None and hi < lo:
                    out &= ~((v > hi) & (v < lo))     # the middle band is left out
                else:
                    out &= ~(v < lo) if lo is not None else True
                    out &= ~(v > hi) if hi is not None else True
        return out

    def determined(self):
        """are there measurements on all sides of the prescribed break points?"""
        for name, b in zip(self.names, self.limits()[1]):
            if b is not None and b.size:
                found = F.points(self, name)
                if found is None:
                    continue
                x = np.unique(found[0]) if found[-1] > 1e-6 else np.zeros(0)
                edges = np.concatenate(([-np.inf], b, [np.inf]))
                if any(np.sum((x > lo) & (x < hi)) < 2 for lo, hi in zip(edges, edges[1:])):
                    return False
        return True

    def side(self, s, cfg=None, np_seed=None):
        """calibrate these inputs elsewhere: (outcome, result)"""
        from scipy.io import savemat  # pylint: disable=import-outside-toplevel
        side = s.side_cfg(base=cfg)
        base = os.path.dirname(side['FLOAT_MAPPED_DIRECTORY'])
        side['FLOAT_SOURCE_DIRECTORY'] = os.path.join(base, 'float_source')
        W.write_source(W.source_path(side, s.spec, s.name(0)), self.source)
        savemat(s.map_path(0, side), self.map)
        savemat(s.calseries_path(0, side), self.series)
        for path in (W.source_path(side, s.spec, s.name(0)), s.map_path(0, side), s.calseries_path(0, side)):
            s.outside(path)
        proc = s.kernel.spawn(np_seed)
        status, value = s.kernel.run(proc, s.call('fit', 0, side))
        proc.dead = True
        return S.Outcome('fit', status, value, []), s.load_result('fit', 0, side)

    def copy(self):
        out = Inputs.__new__(Inputs)
        out.source = {k: np.array(v) for k, v in self.source.items()}
        out.map = {k: np.array(v) for k, v in self.map.items()}
        out.series = {k: np.array(v) for k, v in self.series.items()}
        out.x, out.flags, out.names = self.x, self.flags, self.names
        return out


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))


def judge(inp, got, label='calibration'):
    """a saved calibration against its inputs; returns the fitted series"""
    import gsw  # pylint: disable=import-outside-toplevel
    m, n = inp.source['SAL'].shape
    for k in ('cal_SAL', 'cal_COND', 'cal_SAL_err', 'cal_COND_err', 'sta_SAL', 'sta_SAL_err'):
        if got[k].shape != (m, n):
            raise Violation(label + ':shape', '%s has shape %s, the float %s' % (k, got[k].shape, (m, n)))
    if [int(v) for v in np.ravel(got['PROFILE_NO'])] != [int(v) for v in inp.x]:
        raise Violation(label + ':profiles', 'PROFILE_NO is %s' % np.ravel(got['PROFILE_NO']))
    factor, slope = np.ravel(got['pcond_factor']), np.ravel(got['time_deriv'])
    if factor.size != n or slope.size != n:
        raise Violation(label + ':shape', '%d factors for %d profiles' % (factor.size, n))
    cond = gsw.C_from_SP(inp.source['SAL'], inp.source['PTMP'], 0.0)
    if not close(got['cal_COND'], factor * cond, 1e-8):
        raise Violation(label + ':conductivity', worst('cal_COND', got['cal_COND'], factor * cond, inp))
    want = gsw.SP_from_C(got['cal_COND'], inp.source['PTMP'], 0.0)
    if not close(got['cal_SAL'], want, 1e-8):
        raise Violation(label + ':salinity', worst('cal_SAL', got['cal_SAL'], want, inp))
    out = inp.flags == 0
    for k in ('cal_SAL', 'cal_COND', 'cal_SAL_err', 'pcond_factor', 'pcond_factor_err', 'time_deriv', 'sta_SAL'):
        if not nan_all(got[k][:, out]):
            raise Violation(label + ':excluded', '%s of an excluded profile is not undefined' % k)
    limits, given = inp.limits()
    rows = [np.ravel(r)[np.isfinite(np.ravel(r))] for r in np.atleast_2d(got['fbreaks'])] if got['fbreaks'].size else []
    rows = [r for r in rows if r.size]
    fitted = []
    for j, name in enumerate(inp.names):
        w = np.flatnonzero(inp.flags == name)
        f, x, d = factor[w], inp.x[w], slope[w]
        if np.isnan(f).any():
            if not nan_all(f) or not nan_all(got['cal_SAL'][:, w]):
                raise Violation(label + ':partial', 'series %g is calibrated in part: %s' % (name, f))
            continue
        fitted.append(name)
        prescribed = given[j] is not None and given[j].size > 0
        if prescribed and given[j].size < limits[j]:
            continue                    # a mixture of prescribed and searched break points is not judged
        knots = [np.empty(0)] if limits[j] <= 0 and not prescribed else \
            [given[j]] if prescribed else [np.empty(0)] + rows
        if not any(is_broken_line(x, f, k, limits[j] == -1 and not prescribed) for k in knots):
            raise Violation(label + ':form', 'the factor of series %g (break points allowed %g, prescribed %s, reported '
                            '%s) has another form: %s at %s' % (name, limits[j], given[j], rows, f.tolist(), x.tolist()))
        if prescribed and not any(close(r, given[j], 1e-6) for r in rows):
            raise Violation(label + ':prescribed', 'prescribed %s, reported %s' % (given[j], rows))
        if limits[j] > 0 and not prescribed and any(len(r) > limits[j] for r in rows) and len(inp.names) == 1:
            raise Violation(label + ':limit', '%s break points, allowed are %g' % (rows, limits[j]))
        every = np.concatenate([r for r in rows] + [[np.inf]])
        for a in range(len(w) - 1):
            if not np.any((every >= x[a] - 1e-4) & (every <= x[a + 1] + 1e-4)):
                step = (f[a + 1] - f[a]) / (x[a + 1] - x[a])
                if abs(step - d[a]) > 1e-9:
                    raise Violation(label + ':slope', 'change per profile %r at profile %g, the factor changes by %r'
                                    % (float(d[a]), x[a], float(step)))
    return fitted


def worst(name, a, b, inp):
    bad = np.argwhere(~((np.abs(a - b) <= 1e-8) | (np.isnan(a) & np.isnan(b))))[0]
    return '%s of profile %g, level %d is %r, expected %r' % (name, inp.x[bad[1]], bad[0], float(a[tuple(bad)]),
                                                              float(b[tuple(bad)]))


def is_broken_line(x, f, knots, constant):
    if constant:
        return bool(np.ptp(f) < 1e-10)
    base = [np.ones(len(x)), x - x[0]] + [np.maximum(0, x - k) for k in knots]
    base = np.array(base).T
    sol = np.linalg.lstsq(base / (1 + np.abs(base).max(axis=0)), f, rcond=None)[0]
    return bool(np.max(np.abs(base / (1 + np.abs(base).max(axis=0)) @ sol - f)) < 1e-9)


# ---------------------------------------------------------------------------------------------- relations between runs
def elsewhere(s, inp, rs):
    """the same float at another longitude: across the Greenwich meridian, or not"""
    lon = np.asarray(inp.source['LONG'], dtype=float)
    have = lon[np.isfinite(lon)]
    if have.size < 2 or inp.x.size < 4:
        return False
    cfg, seed, out = dict(s.cfg, MAP_USE_PV=0), rs.randint(1 << 30), []
    stretch = rs.choice([1.0, 2.0, 4.0])
    for place in (30.0, 0.0):
        moved = inp.copy()
        off = ((lon - have[0] + 180) % 360 - 180) * stretch
        # the middle of the track is there
        moved.source['LONG'] = np.round(off - np.nanmedian(off) + place, 6) % 360
        o, res = moved.side(s, cfg, np_seed=seed)
        must(o, 'calibration of the float at %g E' % place)
        out.append(res)
    for k in ('pcond_factor', 'pcond_factor_err', 'time_deriv', 'cal_SAL', 'sta_mean'):
        if not close(out[0][k], out[1][k], 1e-7):
            raise Violation('longitude', '%s differs when the float is moved across the Greenwich meridian: %s, elsewhere %s'
                            % (k, np.ravel(out[1][k])[:6].tolist(), np.ravel(out[0][k])[:6].tolist()))
    return True


def alone(s, inp, got, cfg, rs, names):
    """the same calibration of one series if there is nothing else"""
    from scipy.io import savemat  # noqa  pylint: disable=import-outside-toplevel,unused-import
    name = names[rs.randint(len(names))]
    j = inp.names.index(name)
    one, w = inp.copy(), inp.flags == name
    one.series['calseries'] = np.where(w, inp.flags, 0.0).reshape(1, -1)
    mb, given = inp.limits()
    one.series['max_breaks'] = np.array([[mb[j]]])
    if given[j] is not None:
        one.series['breaks'] = np.asarray(inp.series['breaks'], dtype=float)[j:j + 1]
    other = ~w
    one.source['SAL'][:, other] += rs.uniform(-0.5, 0.5)
    one.source['PTMP'][:, other] += rs.uniform(-1, 1)
    one.map['la_mapped_sal'][:, other] += rs.uniform(-0.5, 0.5)
    if rs.rand() < 0.5:
        one.map['la_ptmp'][:, other] = np.nan
    if not inp.determined():
        return
    out, res = one.side(s, cfg)
    must(out, 'calibration of one series')
    for k in ('pcond_factor', 'cal_SAL', 'cal_COND', 'time_deriv', 'sta_mean', 'sta_SAL'):
        if not close(res[k][:, w], got[k][:, w], 1e-7):
            a, b = res[k][:, w], got[k][:, w]
            bad = np.argwhere(~((np.abs(a - b) <= 1e-7) | (np.isnan(a) & np.isnan(b))))[0]
            raise Violation('series', '%s of profile %g in series %g is %r, but %r when the other profiles are left out '
                            'and changed' % (k, inp.x[w][bad[1]], name, float(b[tuple(bad)]), float(a[tuple(bad)])))


def where_others_are(s, inp, cfg, rs, names):
    """one series is calibrated alike, wherever the profiles which are not in it were measured"""
    name = names[rs.randint(len(names))]
    j, w, seed = inp.names.index(name), inp.flags == name, rs.randint(1 << 30)
    if w.all() or not inp.determined():
        return False
    mb, given = inp.limits()
    cfg = dict(cfg, MAP_USE_PV=0) if rs.rand() < 0.5 else cfg
    out = []
    for shift in (None, [rs.choice([-1, 1]) * rs.uniform(0.3, 2.5) for _ in range(2)]):
        one = inp.copy()
        one.series['calseries'] = np.where(w, inp.flags, 0.0).reshape(1, -1)
        one.series['max_breaks'] = np.array([[mb[j]]])
        if given[j] is not None:
            one.series['breaks'] = np.asarray(inp.series['breaks'], dtype=float)[j:j + 1]
        if shift:
            for k, d in zip(('LONG', 'LAT'), shift):
                v = np.array(one.source[k], dtype=float)
                v[~w] = (v[~w] + d * rs.uniform(0.5, 1, (~w).sum())).round(3)
                one.source[k] = v % 360 if k == 'LONG' else np.clip(v, -85, 85)
        o, res = one.side(s, cfg, np_seed=seed)
        must(o, 'calibration of one series')
        out.append(res)
        if np.isnan(out[0]['pcond_factor'][0][w]).any():
            return False
    for k in ('pcond_factor', 'pcond_factor_err', 'time_deriv', 'time_deriv_err', 'cal_SAL', 'cal_SAL_err', 'sta_mean'):
        if not close(out[0][k][:, w], out[1][k][:, w], 1e-7):
            raise Violation('series:positions', '%s of series %g depends on where the profiles outside of it are: %s, then %s'
                            % (k, name, np.ravel(out[0][k][:, w])[:6].tolist(), np.ravel(out[1][k][:, w])[:6].tolist()))
    return True


def beyond_bounds(s, inp, got, cfg, rs):
    """measurements outside the bounds have no influence"""
    ok = inp.inside()
    if ok.all() or not ok.any():
        return False
    if not inp.determined():
        return False
    two = inp.copy()
    two.source['SAL'] = np.where(ok, two.source['SAL'], two.source['SAL'] + rs.uniform(-0.4, 0.4))
    two.map['la_mapped_sal'] = np.where(ok, two.map['la_mapped_sal'], two.map['la_mapped_sal'] + rs.uniform(-1, 1))
    two.map['la_mapsalerrors'] = np.where(ok, two.map['la_mapsalerrors'], two.map['la_mapsalerrors'] * 3)
    out, res = two.side(s, cfg)
    must(out, 'calibration with other values outside the bounds')
    if not close(res['pcond_factor'], got['pcond_factor'], 1e-9):
        raise Violation('bounds', 'measurements outside the bounds %s change the factors from %s to %s' % (
            {k: np.ravel(inp.series[k]).tolist() for k in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')},
            np.ravel(got['pcond_factor']).tolist(), np.ravel(res['pcond_factor']).tolist()))
    return True


def late_start(mapped, flags, rs):
    """sometimes the first profiles of a series are not mapped"""
    for name in np.unique(flags):
        if name and rs.rand() < 0.3:
            mapped[:, np.flatnonzero(flags == name)[:rs.randint(1, 3)]] = False


def exact_line(s, inp, cfg, rs):
    """a climatology which differs from the float by an exact factor: it is found, and removed"""
    import gsw  # pylint: disable=import-outside-toplevel
    three = inp.copy()
    for k in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt', 'breaks'):
        three.series[k] = np.zeros((0, 0))
    rows, factor = [], np.full(inp.x.size, np.nan)
    kind = rs.choice(['offset', 'trend', 'breaks'])
    for name in inp.names:
        w = inp.flags == name
        x = inp.x[w]
        a, b = 1 + rs.uniform(-0.004, 0.004), rs.uniform(-0.0004, 0.0004)
        if kind == 'offset':
            factor[w] = a
        elif kind == 'trend' or x.size < 5:
            factor[w] = a + b * (x - x[0])
        if kind == 'breaks':
            knot = x[0] + (x[-1] - x[0]) * rs.uniform(0.35, 0.65)
            rows.append([knot])
            if x.size >= 5:
                factor[w] = a + b * (x - x[0]) + rs.uniform(-0.0004, 0.0004) * np.maximum(0, x - knot)
    three.series['max_breaks'] = np.array([[{'offset': -1.0, 'trend': 0.0, 'breaks': 1.0}[kind]]])
    if kind == 'breaks':
        three.series['breaks'] = np.array(rows)
    cond = gsw.C_from_SP(inp.source['SAL'], inp.source['PTMP'], 0.0)
    sal = gsw.SP_from_C(cond * factor, inp.source['PTMP'], 0.0)
    mapped = np.isfinite(inp.map['la_mapped_sal'][:sal.shape[0]]) & np.isfinite(sal)
    late_start(mapped, inp.flags, rs)
    full = np.full(inp.map['la_mapped_sal'].shape, np.nan)
    full[:sal.shape[0]] = np.where(mapped, sal, np.nan)
    three.map['la_mapped_sal'] = full
    if not three.determined():
        return None
    cfg = dict(cfg, MAPSCALE_LONGITUDE_SMALL=0.004, MAPSCALE_LATITUDE_SMALL=0.004)
    out, res = three.side(s, cfg)
    must(out, 'calibration against a shifted climatology')
    found, checked = np.ravel(res['pcond_factor']), 0
    for name in inp.names:
        w = np.flatnonzero(inp.flags == name)
        x = inp.x[w]
        good = [q for q in w if mapped[:, q].sum() >= 5]
        if len(good) < {'offset': 3, 'trend': 8, 'breaks': 5}[kind]:      # (few degrees of freedom: offset only)
            continue
        if kind == 'breaks' and (sum(inp.x[good] < rows[inp.names.index(name)][0]) < 2
                                 or sum(inp.x[good] > rows[inp.names.index(name)][0]) < 2):
            continue
        if np.isnan(found[w]).any():
            raise Violation('removed:undefined', 'series %g with %d well mapped profiles is not calibrated'
                            % (name, len(good)))
        if np.max(np.abs(found[w] - factor[w])) > 1e-7:
            raise Violation('removed', 'the climatology is %s times the float (series %g, %s), the factors found are %s'
                            % (factor[w].tolist(), name, kind, found[w].tolist()))
        diff = np.where(mapped, res['cal_SAL'] - sal, 0)[:, w]
        if np.max(np.abs(diff)) > 1e-5:
            raise Violation('removed', 'calibrated salinities differ from the climatology by %g' % np.max(np.abs(diff)))
        checked += 1
    return kind if checked else None


def own_limits(s, inp, cfg, rs):
    """every series takes the form its own limit allows: the climatology has a trend against the float, which a series
    that may have an offset only does not follow, and another one does"""
    import gsw  # pylint: disable=import-outside-toplevel
    n = inp.x.size
    three = inp.copy()
    for k in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt', 'breaks'):
        three.series[k] = np.zeros((0, 0))
    cuts = sorted({rs.randint(1, n), rs.choice([rs.randint(1, n), n])})
    flags = np.searchsorted(cuts, np.arange(n), side='right') + 1.0
    flags[inp.flags == 0] = 0
    three.flags, three.names = flags, [v for v in np.unique(flags) if v]
    three.series['calseries'] = flags.reshape(1, -1)
    limits = [float(rs.choice([-1, -1, 0])) for _ in three.names]
    three.series['max_breaks'] = np.array(limits).reshape(-1, 1)
    factor = 1 + rs.uniform(-0.004, 0.004) + rs.choice([-1, 1]) * rs.uniform(0.0002, 0.0006) * (inp.x - inp.x[0])
    cond = gsw.C_from_SP(inp.source['SAL'], inp.source['PTMP'], 0.0)
    sal = gsw.SP_from_C(cond * factor, inp.source['PTMP'], 0.0)
    mapped = np.isfinite(inp.map['la_mapped_sal'][:sal.shape[0]]) & np.isfinite(sal)
    late_start(mapped, flags, rs)
    full = np.full(inp.map['la_mapped_sal'].shape, np.nan)
    full[:sal.shape[0]] = np.where(mapped, sal, np.nan)
    three.map['la_mapped_sal'] = full
    cfg = dict(cfg, MAPSCALE_LONGITUDE_SMALL=0.004, MAPSCALE_LATITUDE_SMALL=0.004)
    out, res = three.side(s, cfg)
    must(out, 'calibration of series with limits of their own')
    found, kinds = np.ravel(res['pcond_factor']), set()
    for name, limit in zip(three.names, limits):
        w = np.flatnonzero(flags == name)
        good = [q for q in w if mapped[:, q].sum() >= 5]
        if np.isnan(found[w]).any():
            continue
        if limit == -1 and np.ptp(found[w]) > 1e-9:
            raise Violation('limits', 'series %g of %s may have an offset only (limits %s), but its factors are %s'
                            % (name, flags.tolist(), limits, found[w].tolist()))
        if limit == 0 and len(good) >= 8 and np.max(np.abs(found[w] - factor[w])) > 1e-7:
            raise Violation('limits', 'series %g of %s may follow the trend (limits %s): factors %s, found %s'
                            % (name, flags.tolist(), limits, factor[w].tolist(), found[w].tolist()))
        if limit == -1 and len(good) >= 8 or limit == 0 and len(good) >= 8:
            kinds.add(limit)
    return kinds if len(set(limits)) > 1 else ()


def smaller(inp, got, names):
    """a clear offset against the mapped climatology is taken away"""
    for name in names:
        w = inp.flags == name
        sal, mapped = inp.source['SAL'][:, w], inp.map['la_mapped_sal'][:inp.source['SAL'].shape[0], w]
        ok = np.isfinite(sal) & np.isfinite(mapped) & inp.inside()[:, w]
        if ok.sum() < 12:
            continue
        before, after = np.median((sal - mapped)[ok]), np.median((got['cal_SAL'][:, w] - mapped)[ok])
        if abs(before) > 0.1 and np.ptp((sal - mapped)[ok]) < abs(before) and abs(after) > 0.6 * abs(before):
            raise Violation('removed:median', 'salinity differs from the climatology by %.3f, after calibration by %.3f'
                            % (before, after))


def edit(s, op):
    """the operator edits the settings"""
    rs = np.random.RandomState(op['seed'] % (1 << 31))
    d = s.load_result('calseries', 0)
    flags = np.ravel(d['calseries']).astype(float)
    n = flags.size
    for what in op['what']:
        if what == 'series':
            cut = rs.randint(1, n + 1)
            bad = flags == 0
            flags = np.where(np.arange(n) < cut, 1.0, 2.0)
            if rs.rand() < 0.3:
                flags[rs.randint(n):] = 3.0
            if rs.rand() < 0.2:
                flags = np.where(rs.rand(n) < 0.5, 1.0, 2.0)      # two sensors in turn
            flags[bad] = 0
            flags[rs.rand(n) < 0.15] = 0
        elif what == 'reset':
            flags = np.where(flags == 0, 0.0, 1.0)
            for k in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt'):
                d[k] = np.zeros((0, 0))
        elif what == 'bounds':
            for k, lo, hi in (('use_theta_lt', 5, 13), ('use_theta_gt', 3, 9), ('use_pres_lt', 500, 1800),
                              ('use_pres_gt', 150, 1200)):
                d[k] = np.array([[round(float(rs.uniform(lo, hi)), 2)]]) if rs.rand() < 0.35 else np.zeros((0, 0))
        elif what == 'percent':
            d['use_percent_gt'] = np.array([[round(float(rs.uniform(0.3, 0.9)), 2)]])
    rows = max(1, len({v for v in flags if v}))
    if 'fit' in op['what'] or np.atleast_2d(d['max_breaks']).shape[0] > 1 or d['breaks'].size:
        mb = np.array([rs.choice([-1.0, 0.0, 0.0, 1.0, 2.0]) for _ in range(rows)])
        d['breaks'] = np.zeros((0, 0))
        if rs.rand() < 0.35:
            numbers = np.ravel(d['calib_profile_no']).astype(float)
            mb = np.array([rs.choice([1.0, 2.0]) for _ in range(rows)])
            b = np.full((rows, 2), np.nan)
            for j, name in enumerate(sorted({v for v in flags if v})):
                x = numbers[flags == name]
                if x.size >= 6:
                    k = int(mb[j])
                    b[j, :k] = [x[1] + (x[-2] - x[1]) * (q + 0.5 + rs.uniform(-0.2, 0.2)) / k for q in range(k)]
                else:
                    b[j, 0], mb[j] = x[0] + (x[-1] - x[0]) * 0.5, 1
            if np.isfinite(b[:, 0]).all():
                d['breaks'] = b[:, :max(1, int(max(mb)))]
        d['max_breaks'] = mb.reshape(-1, 1) if rows > 1 or rs.rand() < 0.5 else np.array([[mb[0]]])
    d['calseries'] = flags.reshape(1, -1)
    from scipy.io import savemat  # pylint: disable=import-outside-toplevel
    savemat(s.calseries_path(0), W.as_matlab(d) if op['seed'] % 3 == 0 else d)
    s.outside(s.calseries_path(0))


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    gap = case['spec']['floats'][0].get('gap')
    if gap:
        s.full[0]['PROFILE_NO'][gap[0]:] += gap[1]
    places, rs = Places(s), np.random.RandomState(case['seed'] % (1 << 31))
    inp = got = names = None
    for op in case['ops']:
        if op['op'] == 'deliver':
            s.deliver(0, op['keep'])
        elif op['op'] == 'restart':
            s.restart()
        elif op['op'] == 'edit':
            if K.real_bytes(s.calseries_path(0)) is not None:
                edit(s, op)
        elif op['op'] in ('map', 'calseries'):
            if s.source[0] is not None:
                must(s.do(op['op'], 0), 'preparation')
        else:
            if K.real_bytes(s.calseries_path(0)) is None or K.real_bytes(s.map_path(0)) is None:
                continue
            inp = Inputs(s)
            if not inp.aligned():
                continue
            places.memo.clear()
            faults, line = resolve(s, places, op, 0, 'fit')
            before = K.real_bytes(s.cal_path(0))
            out = s.do('fit', 0, faults=faults, line=line)
            if not out.ok and not out.fired:
                if not inp.determined():
                    ctx.probe('undetermined break points')
                    continue
                must(out, 'a run without faults')
            if K.real_bytes(s.cal_path(0)) == before and not out.ok:
                continue
            with judging('calibration'):
                got = s.load_result('fit', 0)
                if not isinstance(got, dict):
                    raise Violation('calibration', 'the calibration is %s' % S.kind_of(got))
                names = judge(inp, got)
                smaller(inp, got, names)
            if names:
                ctx.nontrivial = True
            ctx.probe('calibrations')
            ctx.probe('series fitted', len(names))
            limits, given = inp.limits()
            ctx.states.add('%d series of %d, %s, %s, %s' % (
                len(names), len(inp.names), limits.tolist(), [None if g is None else g.size for g in given],
                inp.inside().all()))
    if got is None:
        return
    for what in case['probe']:
        with judging('calibration'):
            if what == 'alone' and len(inp.names) > 1 and names:
                alone(s, inp, got, s.cfg, rs, names)
                ctx.probe('series alone')
            elif what == 'others' and len(inp.flags) > 1 and names:
                if where_others_are(s, inp, s.cfg, rs, names):
                    ctx.probe('others elsewhere')
            elif what == 'bounds' and names:
                if beyond_bounds(s, inp, got, s.cfg, rs):
                    ctx.probe('bounds')
            elif what == 'limits' and inp.x.size > 3:
                for limit in own_limits(s, inp, s.cfg, rs):
                    ctx.probe('limits of series: %g' % limit)
            elif what == 'longitude' and names:
                if inp.determined() and elsewhere(s, inp, rs):
                    ctx.probe('moved across Greenwich')
            elif what == 'line' and inp.names:
                kind = exact_line(s, inp, s.cfg, rs)
                if kind:
                    ctx.probe('exact ' + kind)
