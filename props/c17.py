"""C17: source, mapping, settings and calibration are paired by profile number"""
import os

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import
from . import c12

ID = 'C17'
LEVEL = 'exploration'
QUICK, THOROUGH = 130, 5000
RULE = ('A case is a float of 5-11 profiles (gaps in the numbers, unusable profiles, sensor drift) and a history of '
        'deliveries - profiles in any order, arriving late, withdrawn and coming back - with mapping, settings, '
        'calibration and plot runs and edits of the operator in between, so that the stages know different profiles; '
        'some of the mapping and settings runs fail or are killed, which has the same effect.  Every calibration is '
        'compared, profile number by profile number, with the calibration made from the same data brought into '
        'ascending order and cut to what all stages know; every plot with the plot of these.  Non-trivial: a '
        'calibration or plot was judged while the order of the source was not ascending or the stages knew different '
        'profiles.  Distinct: by history, outcomes and faults.')
ASSUMPTIONS = ['no profile number occurs twice in a source', 'the calibration of data in ascending order known to all '
               'stages is judged by C12, the plots of such data by C16',
               'whether a profile that is not mapped yet takes part in the choice of theta levels is left open']


def generate(rng, i, tier):
    spec = W.random_spec(rng, nprof=(5, 11), levels=(6, 10), bad_rate=0.4, n_boxes=(1, 3), max_casts=[300, 25],
                         pv=[0, 0, 1])
    flt = spec['floats'][0]
    flt['offset'] = rng.choice([0.0, 0.05, -0.12, 0.2])
    if rng.random() < 0.4:
        flt['gap'] = [rng.randrange(1, flt['nprof']), rng.choice([1, 2, 10])]
    n, ops, have = flt['nprof'], [], []
    for k in range(rng.randint(2, 4 if tier == 'quick' else 7)):
        rest = [v for v in range(n) if v not in have]
        more = rng.sample(rest, min(len(rest), rng.randint(2, max(2, n - 2)) if not have else rng.choice([0, 1, 1, 2])))
        have = have + more
        if len(have) > 3 and rng.random() < 0.35:
            gone = rng.sample(have, rng.choice([1, 1, 2]))
            have = [v for v in have if v not in gone]
        r = rng.random()
        if r < 0.4:
            rng.shuffle(have)
        elif r < 0.9:
            have.sort()
        else:
            have.sort(reverse=True)
        ops.append({'op': 'deliver', 'keep': list(have)})
        stages = ['map', 'calseries']
        if rng.random() < 0.5:
            stages.reverse()
        for stage in stages:
            if k and rng.random() < 0.4:
                continue
            run = {'op': stage}
            if rng.random() < 0.15:
                run['faults'] = [draw_fault(rng, rng.choice(['storage', 'crash']))]
            ops.append(run)
        if rng.random() < 0.7:
            ops.append({'op': 'edit', 'what': [rng.choice(['series', 'fit', 'fit', 'bounds', 'percent', 'reset'])
                                               for _ in range(rng.choice([1, 2]))], 'seed': rng.randrange(1 << 30)})
        if rng.random() < 0.85 or k == 0:
            ops.append({'op': 'fit'})
        if rng.random() < 0.3:
            ops.append({'op': 'deliver', 'keep': rng.sample(have, len(have) - rng.choice([0, 1]))})
        if rng.random() < 0.35:
            ops.append({'op': 'plot'})
        if rng.random() < 0.25:
            ops.append({'op': 'restart'})
    ops.append({'op': 'fit'})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops}


def numbers_of(a):
    return [int(v) for v in np.ravel(a)]


def pick(values, stored, wanted, fill=np.nan):
    values = np.atleast_2d(np.asarray(values, dtype=float))
    out = np.full((values.shape[0], len(wanted)), fill)
    for c, num in enumerate(wanted):
        if num in stored:
            out[:, c] = values[:, stored.index(num)]
    return out


def as_deep(values, levels):
    """cut or extended to a number of levels"""
    return np.vstack([values, np.full((max(0, levels - len(values)), values.shape[1]), np.nan)])[:levels]


def aligned(s, drop):
    """the data of all stages in ascending order of the profiles of the source; profiles that are not mapped are
    undefined, or (drop) left out.  None if the settings do not say what to do"""
    inp = c12.Inputs.__new__(c12.Inputs)
    m, series = s.load_result('map', 0), s.load_result('calseries', 0)
    if not isinstance(m, dict) or not isinstance(series, dict):
        return None
    mapped, listed = numbers_of(m['la_profile_no']), numbers_of(series['calib_profile_no'])
    flags = np.ravel(series['calseries']).astype(float)
    names = [v for v in np.unique(flags) if v]
    for k in ('max_breaks', 'breaks'):
        if series[k].size and np.atleast_2d(series[k]).shape[0] not in ((1, len(names)) if k == 'max_breaks' else (len(names),)):
            return None
    order = [int(v) for v in np.argsort(s.source[0]['PROFILE_NO'])]
    wanted = [int(s.source[0]['PROFILE_NO'][j]) for j in order]
    if drop:
        order = [j for j, v in zip(order, wanted) if v in mapped]
        wanted = [v for v in wanted if v in mapped]
        if not wanted:
            return None
    inp.source = W.source_subset(s.source[0], order)
    inp.map = {k: np.array(v) for k, v in m.items()}
    inp.map['la_profile_no'] = np.array([wanted])
    for k in S.MAP_COLS:
        inp.map[k] = as_deep(pick(m[k], mapped, wanted), inp.source['SAL'].shape[0])
    inp.flags = pick(flags, listed, wanted, 0.0)[0]
    inp.names = [v for v in np.unique(inp.flags) if v]
    inp.series = {k: np.array(v) for k, v in series.items()}
    inp.series['calseries'], inp.series['calib_profile_no'] = inp.flags.reshape(1, -1), np.array([wanted])
    rows = [names.index(v) for v in inp.names]
    for k in ('max_breaks', 'breaks'):
        v = np.atleast_2d(series[k])
        if v.size and v.shape[0] == len(names) and rows:
            inp.series[k] = v[rows]
    inp.x = np.array(wanted, dtype=float)
    return inp


def by_number(cal, wanted):
    """variables of a calibration in the order of these profiles"""
    have = numbers_of(cal['PROFILE_NO'])
    out = {}
    for k in S.CAL_FIXED:
        v = np.asarray(cal[k], dtype=float)
        out[k] = v if k in ('fcoef', 'fbreaks') else pick(v, have, wanted)
    return out


def difference_of(got, want, wanted):
    for k in S.CAL_FIXED:
        if k == 'PROFILE_NO':
            continue
        a, b = got[k], want[k]
        if a.shape != b.shape:
            return '%s has shape %s, expected %s' % (k, a.shape, b.shape)
        bad = np.argwhere(~(np.isclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)))
        if len(bad):
            at = tuple(int(v) for v in bad[0])
            where = '' if k in ('fcoef', 'fbreaks') else ' of profile %d' % wanted[at[1]]
            return '%s%s (row %d) is %r, expected %r' % (k, where, at[0], float(a[at]), float(b[at]))
    return None


def judge_fit(s, out, ctx, odd):
    mapped = numbers_of(s.load_result('map', 0)['la_profile_no'])
    listed = numbers_of(s.load_result('calseries', 0)['calib_profile_no'])
    source = [int(v) for v in s.source[0]['PROFILE_NO']]
    unknown = [v for v in source if v not in mapped or v not in listed]
    one = aligned(s, False)
    if one is None or not one.determined():
        ctx.probe('calibration not judged')
        return
    if not out.ok:
        if unknown:
            ctx.probe('calibration refused')
            return
        must(out, 'a run without faults')
    got = s.load_result('fit', 0)
    with judging('pairing'):
        if sorted(numbers_of(got['PROFILE_NO'])) != sorted(source):
            raise Violation('profiles', 'the calibration is of profiles %s, the source has %s' % (
                numbers_of(got['PROFILE_NO']), source))
        diffs = []
        for drop in ([False, True] if any(v not in mapped for v in source) else [False]):
            inp = one if not drop else aligned(s, True)
            if inp is None or not inp.names:
                continue
            if drop and not inp.determined():
                ctx.probe('calibration not judged')
                return
            status, ref = inp.side(s)
            if not status.ok:
                if drop:
                    ctx.probe('calibration not judged')
                    return
                must(status, 'the calibration of aligned data')
            wanted = numbers_of(inp.x)
            diff = difference_of(by_number(got, wanted), by_number(ref, wanted), wanted)
            if diff is None:
                diffs = []
                break
            diffs.append(diff)
        if diffs:
            raise Violation('pairing', 'source %s, mapped %s, settings %s: %s' % (source, mapped, listed, diffs[0]))
        lone = [v for v in source if v not in listed]
        values = by_number(got, lone)
        if lone and not all(nan_all(values[k]) for k in ('cal_SAL', 'pcond_factor', 'cal_COND')):
            raise Violation('unlisted', 'profiles %s are not in the settings but calibrated' % lone)
    ctx.probe('calibrations judged')
    if odd or unknown:
        ctx.nontrivial = True
        ctx.probe('calibrations with stages apart')


def judge_plot(s, out, figures, pictures, ctx):
    """the plot of the same data in ascending order is the same"""
    from scipy.io import savemat  # pylint: disable=import-outside-toplevel
    from sim.pictures import same  # pylint: disable=import-outside-toplevel
    cal = s.load_result('fit', 0)
    one = aligned(s, False)
    known = numbers_of(cal['PROFILE_NO'])
    source = [int(v) for v in s.source[0]['PROFILE_NO']]
    if one is None:
        return
    missing = [v for v in source if v not in known or v not in numbers_of(s.load_result('map', 0)['la_profile_no'])]
    if not out.ok and missing:
        ctx.probe('plot refused')
        return
    side = s.side_cfg()
    side['FLOAT_SOURCE_DIRECTORY'] = os.path.join(os.path.dirname(side['FLOAT_MAPPED_DIRECTORY']), 'float_source')
    W.write_source(W.source_path(side, s.spec, s.name(0)), one.source)
    wanted = numbers_of(one.x)
    for k, v in cal.items():
        v = np.asarray(v)
        if k == 'PROFILE_NO':
            cal[k] = np.array([wanted])
        elif k not in ('fcoef', 'fbreaks'):
            cal[k] = pick(v, known, wanted)
            if k.startswith(('cal_', 'sta_SAL')):
                cal[k] = as_deep(cal[k], one.source['SAL'].shape[0])
    savemat(s.map_path(0, side), one.map)
    savemat(s.calseries_path(0, side), one.series)
    savemat(s.cal_path(0, side), cal)
    proc = s.kernel.spawn()
    status, value = s.kernel.run(proc, s.call('plot', 0, side))
    proc.dead = True
    want = pictures.take()
    if status != 'ok':
        if out.ok:
            raise Violation('plot', 'the plot of data in ascending order ends with %r, that of the same data in another '
                            'order ends well' % (value,))
        return
    must(out, 'plot')
    with judging('plot'):
        if [f[0] for f in figures] != [f[0] for f in want]:
            raise Violation('plot', 'pictures %s, expected %s' % ([f[0] for f in figures], [f[0] for f in want]))
        for (n1, f1), (_, f2) in zip(figures, want):
            diff = same(f1, f2, n1)
            if diff:
                raise Violation('plot', 'source %s, calibrated %s: %s' % (source, known, diff))
    ctx.probe('plots judged')
    if source != sorted(source) or source != known:
        ctx.nontrivial = True


def execute(case, ctx):
    plots = any(op['op'] == 'plot' for op in case['ops'])
    s = ctx.session(case['spec'], case['seed'], deliver=False, shapes=plots)
    gap = case['spec']['floats'][0].get('gap')
    if gap:
        s.full[0]['PROFILE_NO'][gap[0]:] += gap[1]
    pictures = None
    if plots:
        from sim.pictures import Pictures  # pylint: disable=import-outside-toplevel
        pictures = Pictures().install()
    places = Places(s)
    for op in case['ops']:
        what = op['op']
        if what == 'deliver':
            s.deliver(0, op['keep'])
            places.memo.clear()
        elif what == 'restart':
            s.restart()
        elif what == 'edit':
            if isinstance(s.load_result('calseries', 0), dict):
                c12.edit(s, op)
        elif what in ('map', 'calseries'):
            faults, line = resolve(s, places, op, 0, what)
            out = s.do(what, 0, faults=faults, line=line)
            if not out.ok and not out.fired:
                must(out, 'preparation')
        else:
            results = [s.load_result(w, 0) for w in ('map', 'calseries', 'fit')]
            if any(not isinstance(r, dict) for r in results[:3 if what == 'plot' else 2]):
                continue
            source = [int(v) for v in s.source[0]['PROFILE_NO']]
            stages = [numbers_of(results[0]['la_profile_no']), numbers_of(results[1]['calib_profile_no'])]
            odd = source != sorted(source) or any(v != source for v in stages)
            ctx.states.add('%s/%s/%s/%s' % (what, 'sorted' if source == sorted(source) else 'unsorted', *(
                '%d-%d' % (len(set(v) - set(source)), len(set(source) - set(v))) for v in stages)))
            if what == 'fit':
                out = s.do('fit', 0)
                judge_fit(s, out, ctx, odd)
            else:
                pictures.take()
                out = s.do('plot', 0)
                judge_plot(s, out, pictures.take(), pictures, ctx)
