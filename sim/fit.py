"""Reference model of the calibration: what the factors of one series must be.

Written from the description of the method (ten levels of potential temperature with the least variance of salinity,
weights from the mapping errors, correlations between levels and between profiles, small-sample information criterion);
it shares no code with pyowc.  It follows the published (Matlab) method also where that is peculiar: the correlation
of two profiles takes the difference of their longitudes with the scale for latitudes and the other way round."""
import math

import numpy as np

from . import world as W

DOWN = ([30, 24, 18, 12, 8, 4, 2.5, 1, -2], [6, 6, 6, 4, 4, 1.5, 1.5, 1, 1])
UP = ([30, 24, 18, 12, 8, 4, 2.5, 1, -2], [6, 6, 6, 6, 4, 4, 1.5, 1.5, 1])


def steadiest(sal, theta, pres, percent):
    """ten potential temperatures on which salinity varies least; returns, per profile, the levels used for them

    sal, theta, pres: (levels, profiles), undefined where measurements may not be used.  Returns (list of lists, how close
    the choice was)"""
    m, n = sal.shape
    none = [[] for _ in range(n)]
    if not np.isfinite(theta).any():
        return none, math.inf
    if not math.ceil(np.nanmin(theta) * 10) < math.floor(np.nanmax(theta) * 10):
        return none, math.inf
    lo, hi = np.nanmin(pres), np.nanmax(pres)
    at = np.arange(lo, hi, 50)
    if at.size < 10:
        step = math.floor((hi - lo) / 10)
        at = np.arange(lo, hi, step) if step else np.linspace(lo, hi, 10, endpoint=False)
    levels = []
    for p in at:
        found = []
        for c in range(n):
            ok = np.isfinite(theta[:, c]) & np.isfinite(pres[:, c])
            if ok.any() and pres[ok, c].min() < p < pres[ok, c].max():
                found.append(np.interp(p, pres[ok, c], theta[ok, c]))
        levels.append(np.mean(found) if found else np.nan)
    table, used, counts = [], [], []
    for level in levels:
        idx, values = [None] * n, []
        for c in range(n):
            t = theta[:, c]
            if not np.isfinite(t).any() or not np.nanmin(t) < level < np.nanmax(t):
                continue
            k = idx[c] = int(np.nanargmin(np.abs(t - level)))
            value = sal[k, c]
            side = 1 if t[k] < level else -1
            best = None
            for q in (k - 1, k + 1):
                if 0 <= q < m and (t[q] - t[k]) * side > 0 and (best is None or abs(t[q] - t[k]) < abs(t[best] - t[k])):
                    best = q
            if best is not None and np.isfinite(sal[best, c]) and np.isfinite(value) and t[k] != level:
                value = value + (sal[best, c] - value) * (level - t[k]) / (t[best] - t[k])
            if np.isfinite(value):
                values.append(value)
        table.append(np.var(values, ddof=1) if len(values) > 1 else np.nan)
        counts.append(len(values))
        used.append(idx)
    table, counts = np.array(table), np.array(counts, dtype=float)
    if counts.max(initial=0) > 0:
        table[counts / counts.max() < percent] = np.nan
    order = [int(j) for j in np.argsort(table, kind='stable') if np.isfinite(table[j])]
    gaps = np.diff(table[order][:11]) / (np.abs(table[order][1:11]) + 1e-300)
    out = [[used[j][c] for j in order[:10] if used[j][c] is not None] for c in range(n)]
    return out, float(np.min(gaps, initial=math.inf))


def correlation(temps, where, cfg):
    """of all points; temps: list of lists of temperatures, one per profile; where: (lon, lat) of the profiles"""
    xp = np.array(DOWN[0][::-1], dtype=float)
    down, up = np.array(DOWN[1][::-1], dtype=float), np.array(UP[1][::-1], dtype=float)
    z = [-float(W.topo_elev(lon, lat)) for lon, lat in where]
    pv = [2 * 7.292e-5 * math.sin(math.radians(lon)) / d for (lon, _), d in zip(where, z)]
    blocks = []
    for t, a, va in zip(temps, where, pv):
        t = np.asarray(t, dtype=float)
        row = []
        for u, b, vb in zip(temps, where, pv):
            r = (a[0] - b[0]) ** 2 / cfg['MAPSCALE_LATITUDE_SMALL'] ** 2 \
                + (a[1] - b[1]) ** 2 / cfg['MAPSCALE_LONGITUDE_SMALL'] ** 2
            if cfg['MAP_USE_PV'] and va and any(pv):
                r += ((va - vb) / math.hypot(va, vb) / cfg['MAPSCALE_PHI_SMALL']) ** 2
            block = np.ones((len(t), len(u)))
            for i in range(len(t)):
                for j in range(len(u)):
                    # the vertical correlation is the one within the first profile
                    if i != j and j < len(t):
                        scale = np.interp(t[i], xp, down if i < j else up)
                        block[i, j] = math.exp(-(t[j] - t[i]) ** 2 / scale ** 2)
            row.append(math.exp(-r) * block)
        blocks.append(np.concatenate(row, axis=1))
    return np.concatenate(blocks, axis=0)


def design(x, knots, start):
    """piecewise linear functions from `start` on"""
    edges = np.concatenate(([start], np.sort(np.asarray(knots, dtype=float))))
    out = [np.ones(len(x))]
    for j, e in enumerate(edges):
        top = edges[j + 1] if j + 1 < len(edges) else np.inf
        d = np.minimum(x, top) - e
        out.append(d if j == 0 else np.maximum(d, 0))
    return np.array(out).T


class Fit:
    """the points of a series and what follows from them"""

    def __init__(self, x, y, err, corr, numbers):
        self.x, self.y, self.err, self.corr, self.numbers = x, y, err, corr, numbers
        self.n = len(y)
        self.scale = np.std(y) or 1.0
        self.var = (err / self.scale) ** 2
        self.w = np.mean(self.var) / self.var
        self.dof = float(np.sum(1 / corr.sum(axis=1))) if self.n else 0.0

    def basis(self, at, knots):
        """None: an offset"""
        if knots is None:
            return np.ones((len(at), 1))
        half = (self.x[-1] - self.x[0]) / 2 or 1.0
        b = design(at, knots, self.x[0])
        b[:, 1:] /= half
        return b

    def solve(self, knots):
        """(factor of every profile, its standard error, residual sum of squares)"""
        base = self.basis(self.x, knots)
        w = self.w[:, None]
        inv = np.linalg.inv(base.T @ (w * base))
        coef = inv @ (base.T @ (self.w * (self.y - self.y.mean())))
        rest = (self.y - self.y.mean() - base @ coef) / self.scale
        half = inv @ (base * w).T                           # coefficients from values
        plain = half @ np.diag(self.var) @ half.T
        full = np.diag(half @ np.diag(self.var) @ self.corr @ half.T)
        b = self.basis(self.numbers, knots)
        if knots is None:
            err = np.full(len(self.numbers), math.sqrt(full[0]) if full[0] >= 0 else np.nan)
        else:
            with np.errstate(all='ignore'):
                inflate = (b @ full) / (b @ np.diag(plain))
                err = np.sqrt(np.einsum('ij,jk,ik->i', b, plain, b) * inflate)
        return self.y.mean() + b @ coef, err * self.scale, float(np.sum(rest ** 2 / self.var))

    def criterion(self, rss, breaks):
        """breaks: -1 for an offset, 0 for a line, ..."""
        p = 1 if breaks < 0 else 2 * (breaks + 1)
        with np.errstate(all='ignore'):
            return self.dof * np.log(rss / self.n) + self.dof * (self.dof + p) / (self.dof - p - 2)

    def most(self, limit):
        """how many break points may be tried"""
        if self.dof < 2 * (limit + 2) + 1:
            return int(math.floor((self.dof - 1) / 2 - 2)) if self.dof > 3 else -1
        return int(limit)


def points(inp, name):
    """the points of a series; inp as in C12: source, map, flags, inside().
    Returns (x, y, errors, temperatures of all chosen levels of each profile, positions, which of those have values,
    closeness of the choice of the levels), or None"""
    import gsw  # pylint: disable=import-outside-toplevel
    w = np.flatnonzero(inp.flags == name)
    m = inp.source['SAL'].shape[0]
    usable = np.isfinite(inp.map['la_ptmp'][:m, w]) & inp.inside()[:, w]
    sal, theta, pres = (np.where(usable, inp.source[k][:, w], np.nan) for k in ('SAL', 'PTMP', 'PRES'))
    chosen, gap = steadiest(sal, theta, pres, float(np.ravel(inp.series['use_percent_gt'])[0]))
    lon = np.asarray(inp.source['LONG'], dtype=float)
    lat = np.asarray(inp.source['LAT'], dtype=float)
    if not np.isfinite(lon).any():
        return None
    first = lon[np.isfinite(lon)][0]
    x, y, err, temps, where, mine = [], [], [], [], [], []
    for c, col in enumerate(w):
        t, keep = [], []
        for pos, k in enumerate(chosen[c]):
            s, p = inp.source['SAL'][k, col], inp.source['PTMP'][k, col]
            ms, me = inp.map['la_mapped_sal'][k, col], inp.map['la_mapsalerrors'][k, col]
            cond, mapped = gsw.C_from_SP(s, p, 0.0), gsw.C_from_SP(ms, p, 0.0)
            t.append(p)
            if np.isfinite(mapped / cond):
                keep.append(pos)
                x.append(inp.x[col])
                y.append(mapped / cond)
                err.append(100 * abs(mapped - gsw.C_from_SP(ms + me / 100, p, 0.0)) / cond)
        if keep:
            temps.append(t)
            mine.append(keep)
            where.append((first + (lon[col] - first + 180) % 360 - 180, lat[col]))
    if not y:
        return None
    return np.array(x), np.array(y), np.array(err), temps, where, mine, gap


def series(inp, name, cfg):
    """(Fit, closeness), or None"""
    found = points(inp, name)
    if found is None:
        return None
    x, y, err, temps, where, mine, gap = found
    full = correlation(temps, where, cfg)
    # only the points with values
    sel, start = [], 0
    for t, keep in zip(temps, mine):
        sel += [start + q for q in keep]
        start += len(t)
    return Fit(x, y, err, full[np.ix_(sel, sel)], inp.x[inp.flags == name]), gap
