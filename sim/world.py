"""Synthetic worlds: the files a run of pyowc reads (climatology boxes, topography, constants, float
sources) are generated, deterministically, from a small JSON-serialisable spec."""
import copy
import os
import shutil
import threading

import numpy as np
from scipy.io import loadmat, savemat

REPO = os.environ.get('VERIF_REPO', '/repo')

# ----------------------------------------------------------------------------------------------
# topography: 5-arcminute grid, 2160 rows from 90N, 4320 columns from 0E, int16
TOPO_ROWS, TOPO_COLS = 2160, 4320


def topo_cells(rows, cols):
    """Elevation (integers) of cells; smooth relief plus a per-cell ripple, so that neighbours differ."""
    r = np.asarray(rows, dtype=np.int64)
    c = np.asarray(cols, dtype=np.int64)
    smooth = (-3200 + 900 * np.sin(2 * np.pi * (3 * r / TOPO_ROWS)) * np.cos(2 * np.pi * 5 * c / TOPO_COLS)
              + 600 * np.sin(2 * np.pi * (r * 7 / TOPO_ROWS + c * 9 / TOPO_COLS)))
    ripple = (r * 131 + c * 71 + (r * c) % 97) % 211
    return (smooth - ripple).astype(np.int16)


def write_topo(path):
    rows = np.arange(TOPO_ROWS).reshape(-1, 1)
    cols = np.arange(TOPO_COLS).reshape(1, -1)
    tmp = path + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        f.write(topo_cells(rows, cols).astype('<i2').tobytes())
    os.utime(tmp, (1.5e9, 1.5e9))
    os.replace(tmp, path)


def other_topo(path):
    """another topography, beside the usual one (made once)"""
    other = path + '.other'
    if not os.path.exists(other):
        rows, cols = np.arange(TOPO_ROWS).reshape(-1, 1), np.arange(TOPO_COLS).reshape(1, -1)
        tmp = other + '.%d' % threading.get_native_id()
        with open(tmp, 'wb') as f:
            f.write((topo_cells(rows, cols) // 2 - 700 + (rows % 13) * 20).astype('<i2').tobytes())
        os.utime(tmp, (1.5e9, 1.5e9))
        try:
            os.link(tmp, other)              # (a run beside this one may have made it; it is never replaced)
        except FileExistsError:
            pass
        os.unlink(tmp)
    return other


def topo_elev(lon, lat):
    """Reference: bilinear interpolation of the elevation at points (independent of pyowc).
    Grid nodes: row i is latitude 90 - i/12, column j is longitude j/12."""
    lon = np.asarray(lon, dtype=float) % 360.0
    lat = np.asarray(lat, dtype=float)
    y = (90.0 - lat) * 12
    x = lon * 12
    i0 = np.clip(np.floor(y).astype(int), 0, TOPO_ROWS - 2)
    j0 = np.floor(x).astype(int) % TOPO_COLS
    fy = np.clip(y - i0, 0, 1)      # the last row is not at the pole; nothing is extrapolated beyond it
    fx = x - np.floor(x)
    j1 = (j0 + 1) % TOPO_COLS
    z = (topo_cells(i0, j0) * (1 - fx) * (1 - fy) + topo_cells(i0, j1) * fx * (1 - fy)
         + topo_cells(i0 + 1, j0) * (1 - fx) * fy + topo_cells(i0 + 1, j1) * fx * fy)
    return z


# ----------------------------------------------------------------------------------------------
REGIONS = {
    # name: (lat0, lon0)
    'atlantic': (32.0, 331.0),
    'pacific': (18.0, 205.0),
    'indian': (-22.0, 84.0),
    'southern': (-50.0, 141.0),
    'greenwich_e': (-28.0, 4.0),
    'greenwich_w': (38.0, 352.5),
    'dateline_e': (-24.0, 176.0),
    'dateline_w': (27.0, 187.0),
    'equator': (-1.5, 230.0),
    'arctic': (74.0, 2.0),
    'antarctic': (-73.0, 301.0),
}
KINDS = ('ctd', 'bot', 'argo')


def box_row(lon_bin, lat_bin):
    return (lon_bin % 36) * 18 + lat_bin


def box_of(lat, lon):
    lat_bin = int(min(max(np.floor((90.0 - lat) / 10.0), 0), 17))
    return int(np.floor((lon % 360.0) / 10.0)), lat_bin


def neighbour_boxes(lat, lon, reach=1):
    """rows (in the WMO table) of the boxes around a position, nearest first (deterministic)."""
    lb, tb = box_of(lat, lon)
    out = []
    for d in range(reach + 1):
        for dt in range(-d, d + 1):
            for dl in range(-d, d + 1):
                if max(abs(dt), abs(dl)) != d:
                    continue
                t = tb + dt
                if 0 <= t < 18:
                    out.append(((lb + dl) % 36, t))
    return out


def theta_profile(pres, warm=14.0, h=550.0, deep=1.8):
    return deep + warm * np.exp(-np.asarray(pres, dtype=float) / h)


def sal_of_theta(theta):
    theta = np.asarray(theta, dtype=float)
    return 34.62 + 0.035 * (theta - 4.0) + 0.0012 * (theta - 6.0) ** 2


def decimal_to_stamp(year_frac):
    """decimal year -> yyyymmddhhmmss (float), on a coarse day/hour grid"""
    year = int(np.floor(year_frac))
    frac = year_frac - year
    month = int(frac * 12) + 1
    day = int((frac * 12 - (month - 1)) * 27) + 1
    return float(year * 10**10 + month * 10**8 + day * 10**6 + (day % 24) * 10**4 + 2500)


# ----------------------------------------------------------------------------------------------
def random_spec(rng, **kw):
    """Draw a world spec from a random.Random."""
    region = kw.get('region') or rng.choice(sorted(REGIONS))
    lat0, lon0 = REGIONS[region]
    lat0 += rng.uniform(-2.5, 2.5)
    if region in ('arctic', 'antarctic'):
        kw = dict(kw, saf=False)
    lon0 = (lon0 + rng.uniform(-2.5, 2.5)) % 360
    n_floats = kw.get('n_floats', 1)
    spec = {
        'region': region, 'lat0': round(lat0, 3), 'lon0': round(lon0, 3),
        'data_seed': rng.randrange(1 << 30),
        'boxes': [], 'floats': [],
        'config': {
            'CONFIG_MAX_CASTS': rng.choice(kw.get('max_casts', [300, 300, 40, 25, 15])),
            'MAP_USE_PV': rng.choice(kw.get('pv', [0, 1])) if region != 'equator' else 0,
            'MAP_USE_SAF': 1 if ((region == 'southern' and rng.random() < 0.6 or rng.random() < 0.05)
                                 and kw.get('saf', True)) or kw.get('front') else 0,
            'MAPSCALE_LONGITUDE_LARGE': rng.choice([8, 10]), 'MAPSCALE_LONGITUDE_SMALL': rng.choice([4, 3]),
            'MAPSCALE_LATITUDE_LARGE': rng.choice([5, 7]), 'MAPSCALE_LATITUDE_SMALL': rng.choice([2, 3]),
            'MAPSCALE_PHI_LARGE': 0.5, 'MAPSCALE_PHI_SMALL': 0.1,
            'MAPSCALE_AGE_LARGE': rng.choice([20, 10]), 'MAPSCALE_AGE_SMALL': rng.choice([10, 5]),
            'MAP_P_EXCLUDE': rng.choice([100, 200, 0]), 'MAP_P_DELTA': rng.choice([250, 150, 400]),
        },
        'float_dir': rng.choice(kw.get('float_dirs', ['/', 'oper/', 'dm/team1/'])),
    }
    if spec['config']['MAP_USE_SAF'] and region == 'southern':
        # the warm water south or north of the front, and a gradient across it
        spec['front'] = [round(rng.choice([rng.uniform(0.3, 2.2), rng.uniform(2, 5.5), rng.uniform(5.5, 9.5)]), 2), round(rng.uniform(-0.2, 0.9), 2)]
    names = kw.get('names') or ['3901960', '6900123', '1901456', '5904999', '4900777', '2902222'][:n_floats]
    cand = neighbour_boxes(lat0, lon0, 1)
    n_boxes = rng.randint(*kw.get('n_boxes', (3, 5)))
    chosen = cand[:1] + rng.sample(cand[1:], min(n_boxes - 1, len(cand) - 1))
    for (lb, tb) in chosen:
        kinds = [k for k in KINDS if rng.random() < 0.6] or [rng.choice(KINDS)]
        for kind in kinds:
            n = rng.choice([1, 2, 5, 8, 12, 14]) if not kw.get('casts') else rng.choice(kw['casts'])
            box = {'lon_bin': lb, 'lat_bin': tb, 'kind': kind, 'n': n,
                   'levels': rng.choice([5, 9, 12, 16]) if rng.random() < 0.93 else 1,
                   'seed': rng.randrange(1 << 30)}
            if 'front' in spec:
                box['levels'] = max(box['levels'], 9)
            if kind == 'argo':
                box['own'] = rng.choice([0, 0.3, 0.5]) if n > 1 else rng.choice([0, 0, 1.0])
            if kind == 'bot' and rng.random() < 0.4:
                box['transposed'] = 1
            if rng.random() < 0.25:
                box['nan_casts'] = 1
            if rng.random() < 0.15:
                box['deep_casts'] = 1
            if rng.random() < (0.5 if 'front' in spec else 0.2):
                box['twice'] = 1
            spec['boxes'].append(box)
    # the home box always holds enough ctd data to map with
    spec['boxes'].append({'lon_bin': chosen[0][0], 'lat_bin': chosen[0][1], 'kind': 'ctd', 'n': 18,
                          'levels': 14, 'seed': rng.randrange(1 << 30), 'near': 1})
    spec['boxes'] = _merge_boxes(spec['boxes'])
    # flags in the WMO table for boxes without a file (normal: the table is shared by everybody)
    spec['absent_flags'] = [list(b) for b in cand if rng.random() < 0.4]
    for i, name in enumerate(names):
        nprof = rng.randint(*kw.get('nprof', (2, 4)))
        start = rng.choice([1, 1, 3, 253])
        spec['floats'].append({
            'name': name, 'nprof': nprof,
            'levels': rng.randint(*kw.get('levels', (5, 8))),
            'seed': rng.randrange(1 << 30), 'start': start,
            'dlat': round(rng.uniform(-2, 2), 3), 'dlon': round(rng.uniform(-2, 2), 3),
            'drift': rng.choice([0.0, 0.0, 0.004, -0.003, 0.01]),
            'offset': rng.choice([0.0, 0.01, -0.02]),
            'bad': [],
        })
        if rng.random() < kw.get('bad_rate', 0.3):
            spec['floats'][-1]['bad'].append([rng.randrange(nprof), rng.choice(['sal', 'pos', 'pres', 'twice'])])
    return spec


def at_greenwich(rng, spec):
    """move a world to Greenwich: the floats on one side, the casts (nearly) all on the other one"""
    side = rng.choice('ew')
    spec['region'] = 'greenwich_' + ('w' if side == 'e' else 'e')
    spec['lat0'] = round(rng.uniform(-40, 40), 3)
    off = rng.uniform(0.2, 2.5)
    spec['lon0'] = round(360 - off if side == 'e' else off, 3)
    spec.pop('front', None)
    spec['config']['MAP_USE_SAF'] = 0
    for flt in spec['floats']:
        flt['dlon'] = round(rng.uniform(-0.5, 0.1) * (1 if side == 'e' else -1), 3)
    lat_bin = box_of(spec['lat0'], 0)[1]
    lon_bin = 0 if side == 'e' else 35
    old, spec['boxes'] = spec['boxes'], []
    for k, box in enumerate(old):
        box = dict(box, side=side, lon_bin=lon_bin, lat_bin=lat_bin + (0 if box.get('near') else rng.choice([-1, 0, 1])))
        if not box.get('near') and k == 0 and rng.random() < 0.4:
            # a few on the own side
            box.update(side='w' if side == 'e' else 'e', lon_bin=35 if side == 'e' else 0)
        spec['boxes'].append(box)
    near = [b for b in spec['boxes'] if b.get('near')]
    spec['boxes'] = _merge_boxes(spec['boxes'] + near)
    spec['absent_flags'] = []


def _merge_boxes(boxes):
    seen = {}
    for b in boxes:
        seen[(b['lon_bin'], b['lat_bin'], b['kind'])] = b
    return [seen[k] for k in sorted(seen)]


# ----------------------------------------------------------------------------------------------
def base_wmo():
    return loadmat(os.path.join(REPO, 'data', 'constants', 'wmo_boxes.mat'))['la_wmo_boxes'].astype(float)


_WMO = []


def wmo_table():
    if not _WMO:
        _WMO.append(base_wmo())
    return _WMO[0].copy()


def make_box(spec, box):
    """the arrays of one climatology box"""
    rs = np.random.RandomState(box['seed'])
    n, levels = box['n'], box['levels']
    lon = box['lon_bin'] * 10 + rs.uniform(0.05, 9.95, n)
    lat = 90 - box['lat_bin'] * 10 - rs.uniform(0.05, 9.95, n)
    centre = box.get('at') or [spec['lat0'], spec['lon0']]
    if box.get('near'):
        k = n * 2 // 3
        lon[:k] = centre[1] + rs.uniform(-2.2, 2.2, k)
        lat[:k] = centre[0] + rs.uniform(-2.2, 2.2, k)
        lon = lon % 360
    if box.get('side'):
        # all its casts are on one side of Greenwich
        off = np.minimum(lon, 360 - lon)
        lon = off if box['side'] == 'e' else 360 - np.maximum(off, 0.001)
    lon = np.round(lon, 5)
    lat = np.round(np.maximum(lat, -89.8), 5)
    if box['seed'] % 4 == 0:
        # positions in single precision
        lon, lat = [v.astype(np.float32).astype(float) for v in (lon, lat)]      # the topography ends a little north of the South Pole
    if box['seed'] % 5 == 1 and n > 2:
        # stations which are visited again, at the very same place
        again = rs.permutation(n)[:n // 3]
        other = rs.randint(0, n, again.size)
        lon[again], lat[again] = lon[other], lat[other]
    dates = np.array([decimal_to_stamp(y) for y in rs.uniform(1994.0, 2021.9, n)])
    if levels == 1:
        pres = np.full((1, n), 600.0) + rs.uniform(-20, 20, (1, n))
    else:
        pres = np.linspace(30, rs.uniform(1500, 2050), levels).reshape(-1, 1) + rs.uniform(-8, 8, (levels, n))
    if box.get('deep_casts') and n > 1:
        pres[:, 0] += 2600.0    # its first cast is entirely deeper than what the float measures
    warm, grad = spec.get('front') or (14.0 if spec['region'] != 'southern' else 5.0, 0.08)
    ptmp = theta_profile(pres, warm=warm + grad * (lat - centre[0])) + rs.normal(0, 0.02, (levels, n))
    sal = sal_of_theta(ptmp) + 0.004 * (lat - centre[0]) + rs.normal(0, 0.006, (levels, n)) \
        + 0.002 * np.sin(dates / 1e10) + spec.get('salt', 0.0)
    for i in range(n):
        if rs.rand() < 0.15 and levels > 3:
            sal[levels - rs.randint(1, 3):, i] = np.nan
    if box.get('nan_casts') and n > 1:
        j = rs.randint(n)
        which = rs.randint(2)
        (sal if which else pres)[:, j] = np.nan
    if box.get('twice') and levels > 4:
        for i in range(0, n, 2):
            # two measurements at one pressure
            k = rs.randint(1, levels // 2)
            pres[k, i] = pres[k - 1, i]
    temp = ptmp + pres * 1e-4
    data = {'lat': lat.reshape(1, -1), 'long': lon.reshape(1, -1), 'dates': dates.reshape(1, -1),
            'pres': pres, 'temp': temp, 'ptmp': ptmp, 'sal': sal}
    if box['kind'] == 'argo':
        src = []
        others = ['7900001', '7900002', '7900003'] + [f['name'] for f in spec['floats'][1:]]
        if box.get('mix'):
            # casts of the floats of this world and of strangers, all mixed
            names = [f['name'] for f in spec['floats']] + ['7900001']
            src = ['%s_%d' % (names[rs.randint(len(names))], i) for i in range(n)]
        for i in range(0 if box.get('mix') else n):
            if rs.rand() < box.get('own', 0) and spec['floats']:
                src.append('%s_%d' % (spec['floats'][0]['name'], i))
            else:
                src.append('%s_%d' % (others[rs.randint(len(others))], i))
        if box.get('labels'):
            # other ways to label the casts of a float
            src = [box['labels'] % tuple(v.split('_')) for v in src]
    else:
        src = ['%s_%06d' % (box['kind'], i) for i in range(n)]
    obj = np.empty((1, n), dtype=object)
    obj[0, :] = src
    data['source'] = obj
    return data


def stored(box, data):
    """the arrays as they are laid out in the file (bottle boxes are sometimes transposed)"""
    if box.get('transposed') and data['pres'].shape[0] != data['pres'].shape[1]:
        data = dict(data)
        for k in ('pres', 'temp', 'ptmp', 'sal'):
            data[k] = data[k].T
    if box.get('seed', 1) % 4 == 0:
        data = dict(data, **{k: data[k].astype(np.float32) for k in ('lat', 'long')})
    return data


def box_path(cfg, box, table=None):
    table = wmo_table() if table is None else table
    num = int(table[box_row(box['lon_bin'], box['lat_bin']), 0])
    key = {'ctd': 'HISTORICAL_CTD_PREFIX', 'bot': 'HISTORICAL_BOTTLE_PREFIX', 'argo': 'HISTORICAL_ARGO_PREFIX'}
    return os.path.normpath(cfg['HISTORICAL_DIRECTORY'] + '/' + cfg[key[box['kind']]] + '%d.mat' % num)


def float_arrays(spec, flt):
    """all the profiles of a float (the complete history)"""
    rs = np.random.RandomState(flt['seed'])
    n, levels = flt['nprof'], flt['levels']
    lat = spec['lat0'] + flt['dlat'] + np.cumsum(rs.uniform(-0.25, 0.25, n))
    lon = (spec['lon0'] + flt['dlon'] + np.cumsum(rs.uniform(-0.25, 0.25, n))) % 360
    for i, place in enumerate(flt.get('track', [])[:n]):
        lat[i], lon[i] = place[0] + 0.2 * (lat[i] - spec['lat0'] - flt['dlat']), (place[1] + 0.1 * i) % 360
    dates = 2012.0 + rs.uniform(0, 6) + np.arange(n) * 0.0274
    top = np.linspace(40, rs.uniform(1300, 1900), levels)
    pres = top.reshape(-1, 1) + rs.uniform(-6, 6, (levels, n))
    warm = (spec.get('front') or (14.0 if spec['region'] != 'southern' else 5.0,))[0]
    ptmp = theta_profile(pres, warm=warm) + rs.normal(0, 0.015, (levels, n))
    sal = spec.get('salt', 0.0) + sal_of_theta(ptmp) + flt['offset'] + flt['drift'] * np.arange(n) + rs.normal(0, 0.003, (levels, n))
    temp = ptmp + pres * 1e-4
    for i in range(n):
        if rs.rand() < 0.3 and levels > 4:
            k = rs.randint(1, 3)
            for a in (pres, ptmp, sal, temp):
                a[levels - k:, i] = np.nan
        elif rs.rand() < 0.2:
            sal[rs.randint(levels), i] = np.nan
    for i, what in flt.get('bad', []):
        if i >= n:
            continue
        if what == 'sal':
            sal[:, i] = np.nan
        elif what == 'pos':
            lat[i] = np.nan
            lon[i] = np.nan
        elif what == 'pres':
            pres[:, i] = np.nan
        elif what == 'twice':
            # two measurements at one pressure
            k = 1 + flt['seed'] % max(1, levels // 2)
            pres[k, i] = pres[k - 1, i]
        elif what == 'first':
            # its only measurement is the first one
            pres[1:, i] = sal[1:, i] = ptmp[1:, i] = temp[1:, i] = np.nan
            pres[0, i] = 550.0 + 10 * i
            ptmp[0, i] = theta_profile(pres[0, i], warm=warm)
            sal[0, i] = spec.get('salt', 0.0) + sal_of_theta(ptmp[0, i]) + flt['offset']
            temp[0, i] = ptmp[0, i] + pres[0, i] * 1e-4
    number = flt['start'] + np.arange(n)
    return {'PROFILE_NO': number, 'LAT': lat, 'LONG': lon, 'DATES': dates,
            'PRES': pres, 'TEMP': temp, 'PTMP': ptmp, 'SAL': sal}


def source_subset(full, keep, trim=True):
    """the source file of a float of which only some profiles are available; trimmed of empty bottom rows"""
    keep = list(keep)
    out = {}
    for k, v in full.items():
        out[k] = v[..., keep].copy()
    if trim and keep:
        rows = ~np.all(np.isnan(out['PRES']) & np.isnan(out['SAL']) & np.isnan(out['PTMP']), axis=1)
        last = int(np.max(np.where(rows)[0])) + 1 if rows.any() else 1
        for k in ('PRES', 'TEMP', 'PTMP', 'SAL'):
            out[k] = out[k][:last]
    return out


def as_matlab(d):
    """the types in which Matlab saves arrays of whole numbers"""
    out = {}
    for k, v in d.items():
        v = np.asarray(v)
        if v.dtype.kind in 'iuf' and np.all(np.isfinite(v)) and np.all(v == np.round(v)):
            for t in ('u1', 'i1', 'u2', 'i2', 'i4'):
                if v.size == 0 or np.iinfo(t).min <= v.min() and v.max() <= np.iinfo(t).max:
                    v = v.astype(t)
                    break
        out[k] = v
    return out


def source_types(arrays):
    """sources are written by Matlab, or by other programmes (drawn from the data)"""
    first = float(np.nan_to_num(np.ravel(arrays['DATES'])[:1].sum()))
    kind = int(first * 1e4) % 3
    if kind == 1:
        return as_matlab(arrays)
    return dict(arrays, PROFILE_NO=np.asarray(arrays['PROFILE_NO'], dtype=float)) if kind == 2 else arrays


def write_source(path, arrays):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    d = {}
    for k, v in source_types(arrays).items():
        d[k] = np.atleast_2d(v)
    tmp = path + '.new'
    savemat(tmp, d, appendmat=False)
    os.replace(tmp, path)


def config_for(root, spec):
    cfg = {
        'HISTORICAL_DIRECTORY': root + '/climatology', 'HISTORICAL_CTD_PREFIX': '/historical_ctd/ctd_',
        'HISTORICAL_BOTTLE_PREFIX': '/historical_bot/bot_', 'HISTORICAL_ARGO_PREFIX': '/historical_argo/argo_',
        'FLOAT_SOURCE_DIRECTORY': root + '/float_source', 'FLOAT_SOURCE_POSTFIX': '.mat',
        'FLOAT_MAPPED_DIRECTORY': root + '/float_mapped', 'FLOAT_MAPPED_PREFIX': 'map_',
        'FLOAT_MAPPED_POSTFIX': '.mat',
        'FLOAT_CALIB_DIRECTORY': root + '/float_calib', 'FLOAT_CALIB_PREFIX': 'cal_',
        'FLOAT_CALSERIES_PREFIX': 'calseries_', 'FLOAT_CALIB_POSTFIX': '.mat',
        'FLOAT_PLOTS_DIRECTORY': root + '/float_plots', 'FLOAT_PLOTS_FORMAT': 'png',
        'CONFIG_DIRECTORY': root + '/constants', 'CONFIG_COASTLINES': 'coastdat.mat',
        'CONFIG_WMO_BOXES': 'wmo_boxes.mat', 'CONFIG_SAF': 'TypicalProfileAroundSAF.mat',
        'THETA_BOUNDS': [[0, 5], [5, 20]],
    }
    cfg.update(copy.deepcopy(spec['config']))
    return cfg


def map_path(cfg, spec, name):
    return os.path.normpath('/'.join([cfg['FLOAT_MAPPED_DIRECTORY'], spec['float_dir'], 'map_' + name + '.mat']))


def cal_path(cfg, spec, name):
    return os.path.normpath('/'.join([cfg['FLOAT_CALIB_DIRECTORY'], spec['float_dir'], 'cal_' + name + '.mat']))


def calseries_path(cfg, spec, name):
    return os.path.normpath('/'.join([cfg['FLOAT_CALIB_DIRECTORY'], spec['float_dir'], 'calseries_' + name + '.mat']))


def source_path(cfg, spec, name):
    return os.path.normpath('/'.join([cfg['FLOAT_SOURCE_DIRECTORY'], spec['float_dir'], name + '.mat']))


def table_of(spec):
    table = wmo_table()
    table[:, 1:] = 0
    for lb, tb in spec.get('absent_flags', []):
        table[box_row(lb, tb), 1:] = 1
    for box in spec['boxes']:
        table[box_row(box['lon_bin'], box['lat_bin']), 1 + KINDS.index(box['kind'])] = 1
    for lon_bin, lat_bin, kind in spec.get('unflagged', []):
        table[box_row(lon_bin, lat_bin), 1 + KINDS.index(kind)] = 0
    return table


BATHYMETRY = ['L_0', 'K_200', 'J_1000', 'I_2000', 'H_3000', 'G_4000', 'F_5000', 'E_6000', 'D_7000', 'C_8000', 'B_9000']


def write_shapes(constants):
    """coastline and bathymetry: a few tiny shapes"""
    import shapefile  # pylint: disable=import-outside-toplevel
    os.makedirs(os.path.join(constants, 'coastline'))
    os.makedirs(os.path.join(constants, 'bathymetry'))
    with shapefile.Writer(os.path.join(constants, 'coastline', 'ne_10m_coastline'), shapeType=shapefile.POLYLINE) as w:
        w.field('name', 'C')
        w.line([[[-170, -60], [-20, 10], [160, 70]]])
        w.record('coast')
    for i, name in enumerate(BATHYMETRY):
        with shapefile.Writer(os.path.join(constants, 'bathymetry', 'ne_10m_bathymetry_' + name),
                              shapeType=shapefile.POLYGON) as w:
            w.field('name', 'C')
            w.poly([[[-10 * i, -5], [-10 * i, 5], [10 * i + 3, 5], [10 * i + 3, -5], [-10 * i, -5]]])
            w.record(name)


def build(root, spec, topo, shapes=False):
    """write a complete world below root (outside any simulation: plain files)"""
    cfg = config_for(root, spec)
    for sub in ('climatology/historical_ctd', 'climatology/historical_bot', 'climatology/historical_argo',
                'constants', 'float_source', 'float_mapped', 'float_calib', 'float_plots'):
        os.makedirs(os.path.join(root, sub), exist_ok=True)
    for key in ('FLOAT_SOURCE_DIRECTORY', 'FLOAT_MAPPED_DIRECTORY', 'FLOAT_CALIB_DIRECTORY'):
        os.makedirs(os.path.normpath(cfg[key] + '/' + spec['float_dir']), exist_ok=True)
    table = table_of(spec)
    for box in spec['boxes']:
        savemat(box_path(cfg, box, table), stored(box, make_box(spec, box)), appendmat=False)
    savemat(os.path.join(root, 'constants', 'wmo_boxes.mat'), as_matlab({'la_wmo_boxes': table})
            if spec['data_seed'] % 2 else {'la_wmo_boxes': table}, appendmat=False)
    os.link(topo, os.path.join(root, 'constants', 'tbase.int'))
    shutil.copyfile(os.path.join(REPO, 'data', 'constants', 'TypicalProfileAroundSAF.mat'),
                    os.path.join(root, 'constants', 'TypicalProfileAroundSAF.mat'))
    if shapes:
        write_shapes(os.path.join(root, 'constants'))
    for flt in spec['floats']:
        full = float_arrays(spec, flt)
        write_source(source_path(cfg, spec, flt['name']), source_subset(full, range(flt['nprof'])))
    return cfg
