"""Pieces shared by the properties: generation of histories and faults, and the way a history is executed."""
import contextlib

import numpy as np

from sim import kernel as K
from sim import session as S
from sim import world as W
from sim.session import HarnessError, Violation, difference

# where faults may be placed: (kinds, operations, classes of files)
WRITE_OPS = ['open_w', 'write', 'fsync', 'close_w', 'rename', 'unlink', 'truncate', 'mkdir']
FAULTS = {
    # the process or the machine stops
    'crash': [(['kill', 'power'], None, None), (['kill', 'power'], ['write', 'fsync', 'rename', 'close_w', 'open_w'],
                                              ['mapped', 'calib']),
              (['torn'], ['write'], ['mapped', 'calib'])],
    # storage of sources, settings and results
    'storage': [(['EIO', 'ENOSPC', 'EDQUOT', 'short'], ['write'], ['mapped', 'calib']),
                (['EIO', 'EACCES', 'EROFS', 'ENOSPC', 'EMFILE'], ['open_w'], ['mapped', 'calib']),
                (['EIO', 'ENOSPC'], ['fsync', 'close_w'], ['mapped', 'calib']),
                (['EIO', 'EACCES', 'ENOSPC'], ['rename'], ['mapped', 'calib']),
                (['EIO', 'EACCES', 'EMFILE', 'ESTALE', 'ETIMEDOUT'], ['open_r'], ['mapped', 'calib', 'source']),
                (['EIO', 'ESTALE', 'short', 'memory', 'interrupt'], ['read', 'seek'], ['mapped', 'calib', 'source']),
                (['truncate'], ['open_r'], ['mapped', 'calib', 'source']),
                (['interrupt', 'memory'], ['write', 'open_w', 'fsync', 'rename'], ['mapped', 'calib'])],
    # reference data
    'reference': [(['EIO', 'EACCES', 'EMFILE', 'ESTALE', 'ETIMEDOUT', 'memory', 'interrupt'], ['open_r'],
                   ['clim', 'const']),
                  (['EIO', 'ESTALE', 'short', 'memory', 'interrupt'], ['read', 'seek'], ['clim', 'const']),
                  (['EIO', 'EACCES', 'ESTALE', 'ETIMEDOUT'], ['stat'], ['clim']),
                  (['truncate'], ['open_r'], ['clim', 'const']),
                  (['EIO', 'EMFILE', 'EACCES', 'memory', 'interrupt'], ['open_r'], ['topo']),
                  (['EIO', 'short', 'memory', 'interrupt'], ['read', 'seek'], ['topo']),
                  (['truncate'], ['open_r'], ['topo'])],
    'noise': [(['stall', 'clock_back', 'short'], ['read', 'open_r'], None), (['stall', 'clock_back'], None, None)],
}
TRUNCATE = {'topo': [0, 1000, 1001, 4000000, 9000000, 12000001, 15000000], None: [0, 1, 60, 127, 128, 200, 333, 700]}


def draw_fault(rng, family, ops=None, cls=None):
    """a fault; its place is a fraction of the matching operations of an undisturbed run"""
    kinds, f_ops, f_cls = rng.choice(FAULTS[family])
    kind = rng.choice(kinds)
    fault = {'kind': kind, 'ops': f_ops, 'cls': f_cls, 'frac': round(rng.random(), 4), 'count': 1,
             'arg': rng.randrange(1 << 20)}
    if cls is not None:
        fault['cls'] = cls
    if ops is not None:
        fault['ops'] = ops
    if kind in ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'ESTALE', 'EROFS', 'EDQUOT', 'ETIMEDOUT') and rng.random() < 0.35:
        fault['count'] = rng.choice([2, 5, 1000000])
    if kind == 'short':
        fault['count'] = rng.choice([1, 3, 50])
    if kind == 'truncate':
        fault['count'] = 1000000
        topo = bool(f_cls) and 'topo' in f_cls
        fault['arg'] = rng.choice(TRUNCATE['topo' if topo else None])
    return fault


def draw_line(rng, kinds=('interrupt', 'memory', 'crash')):
    # any executed line, or any line of the code (its first execution)
    return {'frac': round(rng.random(), 5), 'exc': rng.choice(list(kinds)), 'new': rng.random() < 0.5}


class Places:
    """counts of the operations of undisturbed runs, to place faults"""

    def __init__(self, session):
        self.session = session
        self.memo = {}

    def get(self, what, i, cfg=None, lines=False):
        """counts of an undisturbed run of this kind, in the present state of the world (results elsewhere)"""
        s = self.session
        key = (what, i, lines)
        if key not in self.memo:
            side = s.side_cfg(base=cfg)
            copy_results(s, i, s.cfg, side)
            out, trace = s.trace(what, i, side, lines=lines)
            self.memo[key] = (out, trace, (s.kernel.line_count, len(s.kernel.line_seen)) if lines else (0, 0))
        return self.memo[key]


def copy_results(s, i, src, dst, what=('map', 'calseries', 'fit')):
    for op in what:
        data = K.real_bytes(s.path_of(op, i, src))
        path = s.path_of(op, i, dst)
        if data is not None:
            put(path, data)
        elif K.real_bytes(path) is not None:
            K.Real.unlink(path)


def put(path, data):
    with K.Real.open(path, 'wb') as f:
        f.write(data)


def resolve(s, places, op, i, what):
    """faults of an operation with their places resolved; also the line to be hit, if any"""
    faults, line = [], None
    if op.get('faults'):
        _, trace, _ = places.get(what, i)
        for f in op['faults']:
            g, _ = s.locate(f, trace)
            faults.append(g)
    if op.get('line'):
        new = op['line'].get('new', False)
        count = places.get(what, i, lines=True)[2][new]
        line = {'at': 1 + int(op['line']['frac'] * max(count - 1, 1)), 'exc': op['line']['exc'], 'new': new}
    return faults, line


@contextlib.contextmanager
def judging(label):
    """results which cannot even be looked at are violations, not errors of the check"""
    try:
        yield
    except (Violation, HarnessError, K.Budget):
        raise
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
        import traceback  # pylint: disable=import-outside-toplevel
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(label + ':malformed', '%s: %s (%s:%d)' % (type(e).__name__, e, where.name, where.lineno)) from e


def orders(rng, n, ascending):
    """successive sets of available profiles, the last one complete; each a list of indices (order in the file)"""
    arrival = list(range(n))
    if not ascending:
        rng.shuffle(arrival)
    sets, have = [], 0
    while have < n:
        have = min(n, have + rng.choice([1, 1, 2, 3]))
        now = arrival[:have]
        if ascending:
            now = sorted(now)
        elif rng.random() < 0.5:
            now = sorted(now)
        sets.append(now)
    return sets


def withdrawn(rng, keep, rate=0.15):
    """now and then a source has lost some of its profiles"""
    if len(keep) < 2 or rng.random() >= rate:
        return keep
    gone = set(rng.sample(keep, rng.randint(1, len(keep) - 1)))
    return [k for k in keep if k not in gone]


def expect_ok(out, label):
    if not out.ok:
        raise Violation(label, '%s run ended with %r' % (out.op, out.value if out.status == 'error' else out.status))


def must(out, what):
    """a preparation that always works on correct code"""
    if not out.ok:
        raise Violation('run-failed', '%s: undisturbed %s run ended with %r'
                        % (what, out.op, out.value if out.status == 'error' else out.status))


def state_note(ctx, s, i):
    """abstract state of a float: which results exist, how many profiles they hold"""
    m, c = s.load_result('map', i), s.load_result('calseries', i)
    n = m['la_profile_no'].size if isinstance(m, dict) else -1
    k = c['calseries'].size if isinstance(c, dict) else -1
    f = K.real_bytes(s.cal_path(i)) is not None
    ctx.states.add('%d/%d/%d/%s' % (n, k, f, 'first' if not s.marks else s.marks[-1].split(':')[1]))


def nan_all(a):
    return bool(np.all(np.isnan(a)))


def keys_of_map(selected=True):
    return ['la_profile_no', *S.MAP_COLS, *S.SETTINGS] + (['selected_hist'] if selected else [])


__all__ = ['K', 'S', 'W', 'np', 'Violation', 'HarnessError', 'difference', 'draw_fault', 'draw_line', 'Places',
           'copy_results', 'put', 'resolve', 'judging', 'orders', 'withdrawn', 'expect_ok', 'must', 'state_note', 'nan_all',
           'FAULTS', 'WRITE_OPS', 'keys_of_map', 'draw_cfg', 'with_cfg', 'columns_of', 'selected_of', 'check_kept',
           'same_number', 'SERIES_KEYS', 'same_result', 'edit_series', 'snapshot', 'restore', 'sweep']


def draw_cfg(rng):
    """changes of the configuration by the operator"""
    out = {}
    for k, vals in (('MAPSCALE_LONGITUDE_LARGE', [8, 10, 6]), ('MAPSCALE_LATITUDE_LARGE', [5, 7, 6]),
                    ('MAPSCALE_LONGITUDE_SMALL', [4, 3, 2.5]), ('MAPSCALE_LATITUDE_SMALL', [2, 3, 1.5]),
                    ('MAPSCALE_PHI_LARGE', [0.5, 0.3]), ('MAPSCALE_PHI_SMALL', [0.1, 0.05]),
                    ('MAPSCALE_AGE_LARGE', [20, 10, 15]), ('MAPSCALE_AGE_SMALL', [10, 5, 3]),
                    ('MAP_P_EXCLUDE', [0, 100, 200, 300]), ('MAP_P_DELTA', [150, 250, 400]),
                    ('CONFIG_MAX_CASTS', [300, 40, 25, 15]), ('MAP_USE_PV', [0, 1])):
        if rng.random() < 0.4:
            out[k] = rng.choice(vals)
    return out


def with_cfg(s, over):
    import copy  # pylint: disable=import-outside-toplevel
    cfg = copy.deepcopy(s.cfg)
    if over:
        cfg.update(over)
    if s.spec['region'] == 'equator':
        cfg['MAP_USE_PV'] = 0
    return cfg


def columns_of(m):
    """{number: (columns, settings)} of a parsed mapping"""
    out = {}
    for c, num in enumerate(np.ravel(m['la_profile_no'])):
        out[int(num)] = ({k: m[k][:, c] for k in S.MAP_COLS}, {k: np.ravel(m[k])[c] for k in S.SETTINGS})
    return out


def selected_of(m):
    sel = np.asarray(m['selected_hist'], dtype=float)
    return [tuple(r) for r in sel] if sel.size else []


def same_number(a, b):
    return a == b or (np.isnan(a) and np.isnan(b))


def check_kept(before, after, label):
    """whatever `before` stored is still there, exactly"""
    if before is None:
        return
    if not isinstance(after, dict):
        raise Violation(label + ':lost', 'the mapping is %s now' % S.kind_of(after))
    old, new = columns_of(before), columns_of(after)
    for num, (cols, sets) in old.items():
        if num not in new:
            raise Violation(label + ':lost', 'profile %d is no longer in the mapping' % num)
        for k, col in cols.items():
            have = new[num][0][k]
            m = max(len(col), len(have))
            a, b = np.full(m, np.nan), np.full(m, np.nan)
            a[:len(col)], b[:len(have)] = col, have
            if not np.array_equal(a, b, equal_nan=True):
                j = int(np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b))))[0, 0])
                raise Violation(label + ':changed', '%s of profile %d, level %d was %r and is %r'
                                % (k, num, j, float(a[j]), float(b[j])))
        for k, v in sets.items():
            if not same_number(float(v), float(new[num][1][k])):
                raise Violation(label + ':settings', '%s of profile %d was %r and is %r' % (k, num, v, new[num][1][k]))
    left = list(selected_of(after))
    for row in selected_of(before):
        if row not in left:
            raise Violation(label + ':selected', 'selected point %r has disappeared or changed' % (row,))
        left.remove(row)


SERIES_KEYS = ('breaks', 'max_breaks', 'calseries', 'calib_profile_no', 'use_theta_lt', 'use_theta_gt', 'use_pres_lt',
               'use_pres_gt', 'use_percent_gt')


def same_result(what, got, want, rtol=1e-7):
    """difference of two results of one kind; the random error estimates of a calibration are not compared"""
    if what == 'map':
        return difference(got, want, keys=keys_of_map(), rtol=rtol, atol=1e-10)
    if what == 'calseries':
        return difference(got, want, rtol=0.0)
    diff = difference(got, want, keys=S.CAL_FIXED, rtol=rtol, atol=1e-9)
    if diff is None and isinstance(got, dict) and isinstance(want, dict):
        if set(got) != set(want):
            return 'variables %s' % sorted(set(got) ^ set(want))
        for k in want:
            if got[k].shape != want[k].shape:
                return '%s has shape %s, expected %s' % (k, got[k].shape, want[k].shape)
    return diff


def edit_series(s, i, **changes):
    """the operator edits the calibration settings of a float"""
    from scipy.io import savemat  # pylint: disable=import-outside-toplevel
    d = s.load_result('calseries', i)
    d.update({k: np.array(v, dtype=float) if not isinstance(v, np.ndarray) else v for k, v in changes.items()})
    savemat(s.calseries_path(i), W.as_matlab(d) if len(str(changes)) % 2 else d)
    s.outside(s.calseries_path(i))


def snapshot(s, i, what=('map', 'calseries', 'fit')):
    return {op: K.real_bytes(s.path_of(op, i)) for op in what}


def restore(s, i, snap):
    for op, data in snap.items():
        path = s.path_of(op, i)
        if data is None:
            if K.real_bytes(path) is not None:
                K.Real.unlink(path)
        else:
            put(path, data)


def sweep(s):
    """remove what a dead process left behind in the result directories"""
    import os  # pylint: disable=import-outside-toplevel
    for r in s.stray():
        K.Real.unlink(os.path.join(s.root, r))
