"""Reference model of the mapping: an independent, small implementation of what one mapped column must hold.

Written from the description of the method (boxes around the profile, ellipse and three-step selection of casts,
interpolation to the float's potential temperatures, two-scale objective mapping), over in-memory boxes; it shares
no code with pyowc."""
import math

import numpy as np

from . import world as W

OMEGA2 = 2 * 7.292 * 10 ** -5


class NoData(Exception):
    """the mapping must refuse this profile (no historical data around it)"""


def decimal_year(stamp):
    text = str(stamp)
    year, month, day = int(text[0:4]), int(text[4:6]), int(text[6:8])
    hour = int(text[8:10]) if len(text) > 9 else 0
    minute = int(text[10:12]) if len(text) > 11 else 0
    if not (0 < month < 13 and 0 < day < 32):
        return 0.0
    return year + (MONTHS[month - 1] + day - 1 + hour / 24 + minute / 60 / 24) / 365


# the cumulated month lengths of the method, as published
MONTHS = np.cumsum([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30])


def boxes_around(lat, lon):
    """rows (lon_bin, lat_bin) of the 5x5 boxes, in the order they are consulted; None beyond a pole"""
    out = []
    for dy in (.01, 10.01, -9.99, 20.01, -19.99):
        y = lat + dy
        for dx in (.01, 10.01, -9.99, 20.01, -19.99):
            x = (lon + dx) % 360.0
            out.append(None if abs(y) > 90 else (int(math.floor(x / 10)), int(math.floor((90 - y) / 10))))
    return out


def vorticity(lat, z):
    p = OMEGA2 * np.sin(np.asarray(lat) * math.pi / 180) / np.asarray(z, dtype=float)
    return np.where(p == 0, 1e-5, p)


def pv_term(a, b, phi):
    return (b - a) / np.sqrt(a ** 2 + b ** 2) / phi


def gather(lat, lon, name, table, boxes):
    """all casts around a position, in the order of the boxes"""
    casts = []
    for key in boxes_around(lat, lon):
        if key is None:
            continue
        row = table[W.box_row(*key)]
        for k, kind in enumerate(W.KINDS):
            if row[1 + k] != 1 or (key[0], key[1], kind) not in boxes:
                continue
            data = boxes[(key[0], key[1], kind)]
            src = data['source'][0]
            for i in range(data['lat'].size):
                if kind == 'argo' and name in str(src[i]):
                    continue
                casts.append((float(data['lat'][0, i]), float(data['long'][0, i]),
                              float(data['dates'][0, i]), data, i))
    return casts


def select(casts, lat, lon, date, z, cfg):
    """positions, in the list of casts, of those used"""
    c_lat = np.array([c[0] for c in casts])
    dlon = np.array([(c[1] - lon + 180) % 360 - 180 for c in casts])
    dates = np.array([decimal_year(c[2]) for c in casts])
    c_z = -W.topo_elev([c[1] for c in casts], c_lat)
    use_pv = cfg['MAP_USE_PV'] == 1
    if use_pv:
        pv = vorticity(c_lat, c_z)
        pv0 = vorticity(lat, z)

    def pvt(idx, phi):
        return pv_term(pv[idx], pv0, phi) ** 2 if use_pv else 0.0

    every = np.arange(len(casts))
    dist = np.sqrt((dlon / (3 * cfg['MAPSCALE_LONGITUDE_LARGE'])) ** 2
                   + ((c_lat - lat) / (3 * cfg['MAPSCALE_LATITUDE_LARGE'])) ** 2
                   + pvt(every, cfg['MAPSCALE_PHI_LARGE']))
    inside = every[dist < 1]
    limit = cfg['CONFIG_MAX_CASTS']
    if len(inside) <= limit:
        return inside, c_z, dates
    third = math.ceil(limit / 3)
    draw = np.random.RandomState(len(inside)).rand(third)
    rand = np.round(draw * len(inside) - 1)
    rand[rand == -1] = 0
    rand = np.unique(rand).astype(int)
    rest = np.setdiff1d(np.arange(len(inside)), rand)

    def corr(sub, lo, la, age, phi):
        j = inside[sub]
        return (dlon[j] / lo) ** 2 + ((c_lat[j] - lat) / la) ** 2 + ((dates[j] - date) / age) ** 2 + pvt(j, phi)

    order = rest[np.argsort(corr(rest, cfg['MAPSCALE_LONGITUDE_LARGE'], cfg['MAPSCALE_LATITUDE_LARGE'],
                                 cfg['MAPSCALE_AGE_LARGE'], cfg['MAPSCALE_PHI_LARGE']))]
    n_large = 2 * third - len(rand)
    large, rest = order[:n_large], order[n_large:]
    order = rest[np.argsort(corr(rest, cfg['MAPSCALE_LONGITUDE_SMALL'], cfg['MAPSCALE_LATITUDE_SMALL'],
                                 cfg['MAPSCALE_AGE_SMALL'], cfg['MAPSCALE_PHI_SMALL']))]
    small = order[:limit - len(rand) - n_large]
    return inside[np.concatenate((rand, large, small))], c_z, dates


def interpolate(sal, theta, pres, f_theta, f_pres):
    """salinity and pressure of one cast at the potential temperature of a float level (nearest crossing)"""
    best = (np.nan, np.nan)
    gap = np.inf
    for k in range(len(theta) - 1):
        a, b = theta[k] - f_theta, theta[k + 1] - f_theta
        if a * b <= 0 and theta[k + 1] != theta[k]:
            w = (f_theta - theta[k]) / (theta[k + 1] - theta[k])
            p = pres[k] + w * (pres[k + 1] - pres[k])
            if abs(p - f_pres) < gap:
                gap = abs(p - f_pres)
                best = (sal[k] + w * (sal[k + 1] - sal[k]), p)
    return best


def covariance(a, b, s_lat, s_lon, s_age, phi, use_pv):
    """a, b: columns lat, lon (continuous), date, depth"""
    c = ((a[:, None, 0] - b[None, :, 0]) / s_lat) ** 2 + ((a[:, None, 1] - b[None, :, 1]) / s_lon) ** 2
    if s_age:
        c = c + ((a[:, None, 2] - b[None, :, 2]) / s_age) ** 2
    if use_pv:
        pa, pb = vorticity(a[:, 0], a[:, 3]), vorticity(b[:, 0], b[:, 3])
        c = c + ((pa[:, None] - pb[None, :]) / np.sqrt(pa[:, None] ** 2 + pb[None, :] ** 2) / phi) ** 2
    return np.exp(-c)


def objective(values, at, where, scales, signal, noise, use_pv):
    dd = covariance(where, where, *scales, use_pv)
    inv = np.linalg.inv(signal * dd + noise * np.eye(len(where)))
    total = inv.sum()
    mean = (inv @ values).sum() / total
    weight = inv @ (values - mean)
    at_data = signal * dd @ weight + mean
    gd = signal * covariance(at, where, *scales, use_pv)
    est = float((gd @ weight)[0] + mean)
    var = signal - float((gd @ inv @ gd.T)[0, 0]) + (1 - float((gd @ inv).sum())) ** 2 / total
    return est, math.sqrt(var), at_data


def noise_of(values, lat, lon):
    d = (lat[:, None] - lat[None, :]) ** 2 + (lon[:, None] - lon[None, :]) ** 2
    if np.all(d == 0):
        return 0.0
    d = np.where(d == 0, np.inf, d)
    j = np.argmin(d, axis=1)
    return float(np.mean((values - values[j]) ** 2) / 2)


_SAF = []


def typical_profiles():
    if not _SAF:
        from scipy.io import loadmat  # pylint: disable=import-outside-toplevel
        import os  # pylint: disable=import-outside-toplevel
        d = loadmat(os.path.join(W.REPO, 'data', 'constants', 'TypicalProfileAroundSAF.mat'))
        _SAF.append({k: v.ravel()[2:] for k, v in d.items() if not k.startswith('__')})
    return _SAF[0]


def inside(x, xp, fp):
    return np.interp(x, xp, fp, left=np.nan, right=np.nan)


def side_by_temperature(pres, temp):
    """1 north, -1 south of the Subantarctic front, 0 undecided, None if 300 dbar is not sampled"""
    if len(pres) < 3 or np.any(np.diff(pres) == 0) or not np.min(pres) < 300 < np.max(pres):
        return None
    t300 = inside(300, pres, temp)
    return 1 if t300 > 5 else -1 if t300 < 3 else 0


def side_of_float(prof):
    ok = ~np.isnan(prof['pres']) & ~np.isnan(prof['temp'])
    pres, temp, sal = prof['pres'][ok], prof['temp'][ok], prof['sal'][ok]
    side = side_by_temperature(pres, temp)
    if side is None or side != 0:
        return side or 0
    typ = typical_profiles()
    depth = typ['Deph']
    s, t = inside(depth, pres, sal), inside(depth, pres, temp)
    north_lo = inside(t, (typ['T_meanN'] - typ['T_stdN'])[::-1], (typ['S_meanN'] - typ['S_stdN'])[::-1])
    north_hi = inside(t, (typ['T_meanN'] + typ['T_stdN'])[::-1], (typ['S_meanN'] + typ['S_stdN'])[::-1])
    south_lo = inside(s, typ['S_meanS'] - typ['S_stdS'], typ['T_meanS'] - typ['T_stdS'])
    south_hi = inside(s, typ['S_meanS'] + typ['S_stdS'], typ['T_meanS'] + typ['T_stdS'])
    use = (depth > 150) & (depth < 1700) & ~np.isnan(s + north_lo + north_hi + south_lo + south_hi)
    if not use.any():
        return 0
    south = bool(np.all((t > south_lo)[use] & (t < south_hi)[use]))
    north = bool(np.all((s > north_lo)[use] & (s < north_hi)[use]))
    return 0 if south == north else (-1 if south else 1)


def behind_front(prof, hist, casts):
    """the casts on the same side of the front as the float, if there are enough of them"""
    if prof['lat'] >= -30:
        return hist
    side = side_of_float(prof)
    if side == 0:
        return hist
    import gsw  # pylint: disable=import-outside-toplevel
    same = []
    for h in hist:
        i, s, t, p = h
        sa = gsw.SA_from_SP(s, p, casts[i][1], casts[i][0])
        temp = gsw.t_from_CT(sa, gsw.CT_from_pt(sa, t), p)
        once = np.append(np.diff(p) != 0, True)[:len(p)]        # of equal pressures the last one is used
        p, temp = p[once], temp[once]
        if (side_by_temperature(p, temp) or 0) == side:
            same.append(h)
    return same if len(same) > 5 else hist


def map_profile(cfg, table, boxes, name, prof, levels):
    """prof: lat, long, date, sal, ptmp, pres.  Returns columns of length `levels`, and the positions used."""
    out = {k: np.full(levels, np.nan) for k in ('ptmp', 'sal', 'err', 'noise', 'signal')}
    out['used'] = []
    out['mapped'] = False
    lat, lon, date = prof['lat'], prof['long'], prof['date']
    sal, ptmp, pres = prof['sal'], prof['ptmp'], prof['pres']
    if np.isnan(lat) or np.isnan(lon) or np.all(np.isnan(pres)):
        return out
    z = -float(W.topo_elev(lon, lat))
    casts = gather(lat, lon, name, table, boxes)
    if not casts:
        raise NoData('no historical data')
    chosen, c_z, dates = select(casts, lat, lon, date, z, cfg)
    deepest = np.nanmax(pres) + cfg['MAP_P_DELTA']
    hist = []
    for i in sorted(int(c) for c in chosen):
        _, _, _, data, col = casts[i]
        s, t, p = data['sal'][:, col], data['ptmp'][:, col], data['pres'][:, col]
        ok = np.isfinite(s) & np.isfinite(t) & np.isfinite(p)
        ok[ok] = ~(p[ok] > deepest)
        if ok.any():
            hist.append((i, s[ok], t[ok], p[ok]))
    if not hist:
        raise NoData('no usable cast')
    if cfg['MAP_USE_SAF'] == 1:
        hist = behind_front(prof, hist, casts)
    for lev in range(len(sal)):
        if np.isnan(sal[lev]) or not pres[lev] >= cfg['MAP_P_EXCLUDE'] or np.isnan(ptmp[lev]):
            continue
        rows = []
        for i, s, t, p in hist:
            hs, hp = interpolate(s, t, p, ptmp[lev], pres[lev])
            if not np.isnan(hs) and abs(hp - pres[lev]) < cfg['MAP_P_DELTA']:
                rows.append((hs, casts[i][0], lon + (casts[i][1] - lon + 180) % 360 - 180, dates[i], c_z[i], i))
        if len(rows) <= 5:
            continue
        rows = np.array(rows)
        dev = np.abs(rows[:, 0] - rows[:, 0].mean()) / np.sqrt(np.var(rows[:, 0]))
        rows = rows[~(dev > 3)]
        values, where = rows[:, 0], rows[:, 1:5]
        noise = noise_of(values, where[:, 0], where[:, 1])
        signal = float(np.var(values))
        use_pv = cfg['MAP_USE_PV'] == 1
        at = np.array([[lat, lon, date, z]])
        est, err, fitted = objective(values, at, where,
                                     (cfg['MAPSCALE_LATITUDE_LARGE'], cfg['MAPSCALE_LONGITUDE_LARGE'],
                                      cfg['MAPSCALE_AGE_LARGE'], cfg['MAPSCALE_PHI_LARGE']), signal, noise, use_pv)
        resid = values - fitted
        est2, err2, _ = objective(resid, at, where,
                                  (cfg['MAPSCALE_LATITUDE_SMALL'], cfg['MAPSCALE_LONGITUDE_SMALL'],
                                   cfg['MAPSCALE_AGE_SMALL'], cfg['MAPSCALE_PHI_SMALL']),
                                  float(np.var(resid)), noise, use_pv)
        out['ptmp'][lev] = ptmp[lev]
        total = est + est2
        out['sal'][lev] = total if 30 <= total <= 40 else np.nan
        out['err'][lev] = math.sqrt(err ** 2 + err2 ** 2)
        out['noise'][lev], out['signal'][lev] = noise, signal
        out['used'].extend(int(i) for i in rows[:, 5])
        out['mapped'] = True
    out['used_pos'] = sorted({(round(casts[i][0], 6), round(casts[i][1] % 360, 6)) for i in set(out['used'])})
    return out


def profile_of(arrays, i):
    return {'lat': float(arrays['LAT'][i]), 'long': float(arrays['LONG'][i]), 'date': float(arrays['DATES'][i]),
            'sal': arrays['SAL'][:, i], 'ptmp': arrays['PTMP'][:, i], 'pres': arrays['PRES'][:, i], 'temp': arrays['TEMP'][:, i]}
