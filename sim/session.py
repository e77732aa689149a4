"""A world with its simulator: the operations an operator performs, and what can be observed of them."""
import copy
import hashlib
import io
import os
import random
import warnings

import numpy as np
from scipy.io import loadmat, savemat

from . import kernel as K
from . import model as M
from . import world as W


class Violation(Exception):
    """a property does not hold; `label` names the class of violation (kept while minimising)"""

    def __init__(self, label, detail):
        super().__init__('%s: %s' % (label, detail))
        self.label, self.detail = label, detail


class HarnessError(Exception):
    """the check itself is at fault"""


MAP_COLS = ('la_mapped_sal', 'la_mapsalerrors', 'la_ptmp', 'la_noise_sal', 'la_signal_sal')
SETTINGS = {'scale_long_large': 'MAPSCALE_LONGITUDE_LARGE', 'scale_lat_large': 'MAPSCALE_LATITUDE_LARGE',
            'scale_long_small': 'MAPSCALE_LONGITUDE_SMALL', 'scale_lat_small': 'MAPSCALE_LATITUDE_SMALL',
            'scale_phi_large': 'MAPSCALE_PHI_LARGE', 'scale_phi_small': 'MAPSCALE_PHI_SMALL',
            'scale_age_large': 'MAPSCALE_AGE_LARGE', 'scale_age_small': 'MAPSCALE_AGE_SMALL',
            'use_pv': 'MAP_USE_PV', 'use_saf': 'MAP_USE_SAF', 'p_delta': 'MAP_P_DELTA', 'p_exclude': 'MAP_P_EXCLUDE'}
CAL_FIXED = ('cal_SAL', 'pcond_factor', 'cal_COND', 'time_deriv', 'sta_mean', 'sta_rms', 'sta_SAL', 'sta_SAL_err',
             'PROFILE_NO', 'fcoef', 'fbreaks')


def parse(data):
    """variables of a .mat file given as bytes; None if it is not a readable one"""
    if data is None:
        return None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = loadmat(io.BytesIO(data))
    except Exception:  # pylint: disable=broad-except
        return 'unreadable'
    return {k: v for k, v in d.items() if not k.startswith('__')}


def arrays_equal(a, b, rtol=0.0, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU':
        return bool(np.array_equal(a, b))
    if a.size == 0:
        return True
    if rtol == 0.0 and atol == 0.0:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def difference(a, b, keys=None, rtol=0.0, atol=0.0, skip=()):
    """description of the first difference between two parsed files, or None"""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if a is None and b is None:
            return None
        return 'file is %s, expected %s' % (kind_of(a), kind_of(b))
    names = sorted((set(a) | set(b)) if keys is None else keys)
    for k in names:
        if k in skip:
            continue
        if (k in a) != (k in b):
            return '%s is %s' % (k, 'missing' if k not in a else 'new')
        if k not in a:
            continue
        if not arrays_equal(a[k], b[k], rtol, atol):
            x, y = np.asarray(a[k]), np.asarray(b[k])
            if x.shape != y.shape:
                return '%s has shape %s, expected %s' % (k, x.shape, y.shape)
            try:
                bad = np.argwhere(~(np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)))
                i = tuple(int(v) for v in bad[0])
                return '%s%s is %r, expected %r (%d differ)' % (k, list(i), float(x[i]), float(y[i]), len(bad))
            except (TypeError, ValueError, IndexError):
                return '%s differs' % k
    return None


def kind_of(a):
    return 'absent' if a is None else (a if isinstance(a, str) else 'a result')


class Outcome:
    def __init__(self, op, status, value, fired):
        self.op, self.status, self.value, self.fired = op, status, value, fired

    @property
    def ok(self):
        return self.status == 'ok'

    def name(self):
        if self.status == 'error':
            return 'error:%s' % type(self.value).__name__
        return self.status

    def __repr__(self):
        v = '' if self.ok else ' %s' % repr(self.value)[:200]
        return '<%s %s%s>' % (self.op, self.status, v)


class Session:
    """one world, one simulator, and the operations on them"""

    def __init__(self, root, spec, topo, seed, deliver=True, max_events=600000, shapes=False):
        self.root, self.spec, self.topo = root, spec, topo
        os.makedirs(root)
        self.cfg = W.build(root, spec, topo, shapes=shapes)
        self.kernel = K.Kernel(root, seed, max_events)
        self.kernel.install()
        self.table = W.table_of(spec)
        self.boxes = {(b['lon_bin'], b['lat_bin'], b['kind']): W.make_box(spec, b) for b in spec['boxes']}
        self.full = [W.float_arrays(spec, f) for f in spec['floats']]
        self.source = [None] * len(spec['floats'])
        self.proc = self.kernel.spawn()
        self.ref_count = 0
        self.marks = []
        self.times = random.Random(seed ^ 0x2545f491)
        for base, _, files in os.walk(root):
            for f in files:
                if f != 'tbase.int':
                    self.kernel.stamp(os.path.join(base, f), self.kernel.now - 86400.0 * self.times.randint(1, 900))
        if deliver:
            for i, f in enumerate(spec['floats']):
                self.deliver(i, range(f['nprof']))

    # ---------------------------------------------------------------- names
    def name(self, i):
        return self.spec['floats'][i]['name']

    def map_path(self, i, cfg=None):
        return W.map_path(cfg or self.cfg, self.spec, self.name(i))

    def cal_path(self, i, cfg=None):
        return W.cal_path(cfg or self.cfg, self.spec, self.name(i))

    def calseries_path(self, i, cfg=None):
        return W.calseries_path(cfg or self.cfg, self.spec, self.name(i))

    def source_path(self, i):
        return W.source_path(self.cfg, self.spec, self.name(i))

    def path_of(self, op, i, cfg=None):
        return {'map': self.map_path, 'calseries': self.calseries_path, 'fit': self.cal_path}[op](i, cfg)

    # ---------------------------------------------------------------- what happens outside the processes
    def deliver(self, i, keep, levels=None):
        """the source file of the float now holds these profiles (in this order); levels: only the upper ones"""
        arrays = W.source_subset(self.full[i], list(keep))
        if levels is not None:
            for k in ('PRES', 'TEMP', 'PTMP', 'SAL'):
                arrays[k] = arrays[k][:levels]
        W.write_source(self.source_path(i), arrays)
        self.outside(self.source_path(i))
        self.source[i] = arrays
        return arrays

    def outside(self, path):
        """a file has been put there by somebody: its time is that of now, or an older one that was preserved"""
        r = self.times.random()
        when = self.kernel.now
        if r > 0.9:
            when += self.times.randint(1, 90000)
        elif r > 0.5:
            when -= self.times.randint(1, 900) * 86400.0
        self.kernel.stamp(path, when)

    def set_box(self, key, data, box=None):
        """replace a historical box; None removes the file (the table still lists it).  The table never changes."""
        path = W.box_path(self.cfg, {'lon_bin': key[0], 'lat_bin': key[1], 'kind': key[2]})
        if os.path.exists(path):
            os.unlink(path)
        if data is None:
            self.boxes.pop(key, None)
            return
        savemat(path, W.stored(box or {}, data), appendmat=False)
        self.outside(path)
        self.boxes[key] = data

    def restart(self, same_pid=False):
        """the process ends, a new one starts"""
        self.proc.dead = True
        pid = self.proc.pid
        self.proc = self.kernel.spawn()
        if same_pid:
            self.proc.pid = pid
        return self.proc

    # ---------------------------------------------------------------- runs
    def call(self, op, i, cfg=None, **kw):
        """the function a run consists of (to be executed in a simulated process)"""
        cfg = self.cfg if cfg is None else cfg
        fdir, name = self.spec['float_dir'], self.name(i) if isinstance(i, int) else i

        def func():
            import sys  # pylint: disable=import-outside-toplevel
            if op == 'map':
                return sys.modules['pyowc.calibration'].update_salinity_mapping(fdir, cfg, name)
            if op == 'calseries':
                return sys.modules['pyowc.configuration'].set_calseries(fdir, name, cfg)
            if op == 'fit':
                return sys.modules['pyowc.calibration'].calc_piecewisefit(fdir, name, cfg)
            if op == 'plot':
                return sys.modules['pyowc.plot.dashboard'].plot_diagnostics(fdir, name, cfg, **kw)
            raise HarnessError(op)
        return func

    def do(self, op, i, cfg=None, faults=None, line=None, proc=None, **kw):
        """perform a run in the current process, maybe under faults; returns its outcome"""
        k = self.kernel
        proc = proc or self.proc
        if proc.dead:
            proc = self.restart()
        before = len(k.fired)
        k.settle()
        if faults:
            k.arm(faults)
        if line:
            k.lines_on(line['at'], {'interrupt': KeyboardInterrupt, 'memory': MemoryError,
                                    'crash': K.SimCrash}[line['exc']], line.get('new', False))
        try:
            status, value = k.run(proc, self.call(op, i, cfg, **kw))
        finally:
            k.disarm()
            if line:
                k.lines_off()
        out = Outcome(op, status, value, k.fired[before:])
        k.hash.update(('%s %s %s' % (op, i, out.name())).encode())
        self.marks.append('%s:%s:%s' % (op, out.name(), '+'.join('%s@%s/%s' % (f['kind'], f['op'], f['cls'])
                                                                 for f in out.fired)))
        return out

    def race(self, workers, seed, rate, preempt=None, faults=None):
        """several processes at once; workers: lists of (op, float).  Returns, for each worker, the outcomes of its
        runs (after an error it goes on with other floats, after its death not), and the preemptions that took place"""
        k = self.kernel
        k.settle()
        before = len(k.fired)
        procs = [k.spawn() for _ in workers]
        outs = [[] for _ in workers]

        def body(w):
            def func():
                failed = set()
                for op, i in workers[w]:
                    if i in failed:
                        continue
                    try:
                        self.call(op, i)()
                        outs[w].append(Outcome(op, 'ok', None, []))
                    except (K.SimCrash, K.Budget):
                        outs[w].append(Outcome(op, 'crash', None, []))
                        raise
                    except BaseException as e:  # pylint: disable=broad-except
                        e.__traceback__ = e.__context__ = None
                        outs[w].append(Outcome(op, 'error', e, []))
                        failed.add(i)
                        if isinstance(e, HarnessError):
                            raise
            return func
        if faults:
            k.arm([dict(f, proc=None if f.get('worker') is None else procs[f['worker']].pid) for f in faults])
        sched = K.Scheduler(k, seed, rate, None if preempt is None else {int(a): b for a, b in preempt})
        try:
            ends = sched.run([(p, body(w)) for w, p in enumerate(procs)])
        finally:
            k.disarm()
            for p in procs:
                p.dead = True
        for status, value in ends:
            if isinstance(value, HarnessError):
                raise value
        for w, o in enumerate(outs):
            self.marks.append('worker%d:%s' % (w, ','.join('%s=%s' % (x.op, x.name()) for x in o)))
            k.hash.update(self.marks[-1].encode())
        return outs, [list(t) for t in sched.taken], k.fired[before:], sched.points

    def user(self, func, proc=None):
        """code of the user, in the current process"""
        return self.kernel.run(proc or self.proc, func)

    def trace(self, op, i, cfg=None, lines=False):
        """an undisturbed run, in a new process, of which all operations are counted"""
        k = self.kernel
        k.trace = []
        if lines:
            k.lines_on()
        try:
            proc = k.spawn()
            status, value = k.run(proc, self.call(op, i, cfg))
        finally:
            trace, k.trace = k.trace, None
            if lines:
                k.lines_off()
        return Outcome(op, status, value, []), trace

    def locate(self, fault, trace):
        """resolve the place of a fault (a fraction of the matching operations of an undisturbed run)"""
        ops, cls = fault.get('ops'), fault.get('cls')
        count = sum(1 for o, c, _ in trace if (not ops or o in ops) and (not cls or c in cls))
        return dict(fault, ops=ops, cls=cls, nth=int(fault['frac'] * count) if count else 0), count

    # ---------------------------------------------------------------- observations
    def load(self, path):
        return parse(K.real_bytes(path))

    def load_result(self, op, i, cfg=None):
        return self.load(self.path_of(op, i, cfg))

    def side_cfg(self, tag=None, base=None):
        """a configuration whose results go elsewhere (for reference runs)"""
        cfg = copy.deepcopy(base or self.cfg)
        self.ref_count += 1
        tag = tag or 'ref%d' % self.ref_count
        for key, sub in (('FLOAT_MAPPED_DIRECTORY', 'float_mapped'), ('FLOAT_CALIB_DIRECTORY', 'float_calib'),
                         ('FLOAT_PLOTS_DIRECTORY', 'float_plots')):
            cfg[key] = os.path.join(self.root, 'side', tag, sub)
            os.makedirs(os.path.normpath(cfg[key] + '/' + self.spec['float_dir']), exist_ok=True)
        return cfg

    def second(self):
        """directories of another user on the same machine: other climatology, constants, sources of the same floats;
        returns the settings that name them (results are to go elsewhere, too)"""
        root, spec = os.path.join(self.root, 'side', 'second'), copy.deepcopy(self.spec)
        for b in spec['boxes']:
            b['seed'] += 1
        for f in spec['floats']:
            f['seed'] += 1
        spec['absent_flags'] = []
        keys = [[b['lon_bin'], b['lat_bin'], b['kind']] for b in spec['boxes'] if not b.get('near')]
        spec['unflagged'] = keys[spec['data_seed'] % 2::2]       # their table lists other boxes
        cfg = W.build(root, spec, W.other_topo(self.topo))
        return {'clim': {'HISTORICAL_DIRECTORY': cfg['HISTORICAL_DIRECTORY']},
                'const': {'CONFIG_DIRECTORY': cfg['CONFIG_DIRECTORY']},
                'source': {'FLOAT_SOURCE_DIRECTORY': cfg['FLOAT_SOURCE_DIRECTORY']},
                'results': {k: cfg[k] for k in ('FLOAT_MAPPED_DIRECTORY', 'FLOAT_CALIB_DIRECTORY',
                                                'FLOAT_PLOTS_DIRECTORY')}}

    def reference(self, op, i, base=None, copy_from=None):
        """the result of an undisturbed run in a new process: (outcome, parsed result)"""
        cfg = self.side_cfg(base=base)
        for what in ('map', 'calseries', 'fit') if copy_from else ():
            data = K.real_bytes(self.path_of(what, i, copy_from))
            if data is not None:
                with open(self.path_of(what, i, cfg), 'wb') as f:
                    f.write(data)
        proc = self.kernel.spawn()
        status, value = self.kernel.run(proc, self.call(op, i, cfg))
        proc.dead = True
        return Outcome(op, status, value, []), self.load(self.path_of(op, i, cfg))

    def tree(self, skip=('side',)):
        """signature of every file of the world"""
        out = {}
        for base, dirs, files in os.walk(self.root):
            rel = os.path.relpath(base, self.root)
            dirs[:] = [d for d in dirs if not (rel == '.' and d in skip)]
            for f in files:
                p = os.path.join(base, f)
                r = os.path.normpath(os.path.join(rel, f))
                if f == 'tbase.int':
                    st = os.stat(p)
                    out[r] = 'topo %d %d' % (st.st_size, st.st_mtime_ns)
                else:
                    out[r] = hashlib.sha256(K.real_bytes(p)).hexdigest()
        return out

    def stray(self, allowed=()):
        """files in the result directories which are not results"""
        names = set()
        for i in range(len(self.spec['floats'])):
            for op in ('map', 'calseries', 'fit'):
                names.add(os.path.relpath(self.path_of(op, i), self.root))
        return [r for r in self.tree() if r.split('/')[0] in ('float_mapped', 'float_calib', 'float_plots', 'other')
                and r not in names and r not in allowed]

    # ---------------------------------------------------------------- reference model
    def columns(self, i, which=None, cfg=None, levels=None, boxes=None):
        """model columns for profiles of the current source: {number: column} (raises NoData)"""
        arrays = self.source[i]
        cfg = cfg or self.cfg
        n = arrays['SAL'].shape[0]
        out = {}
        for j in range(len(arrays['PROFILE_NO'])) if which is None else which:
            out[int(arrays['PROFILE_NO'][j])] = M.map_profile(
                cfg, self.table, self.boxes if boxes is None else boxes, self.name(i), M.profile_of(arrays, j),
                levels or n)
        return out


def check_columns(got, expected, label, rtol=1e-6):
    """got: parsed map file; expected: {number: model column}"""
    if got is None or isinstance(got, str):
        raise Violation(label, 'the mapping is %s' % kind_of(got))
    numbers = [int(v) for v in np.ravel(got['la_profile_no'])]
    if numbers != sorted(expected):
        raise Violation(label + ':profiles', 'profile numbers %s, expected %s' % (numbers, sorted(expected)))
    for key, mine in zip(MAP_COLS, ('sal', 'err', 'ptmp', 'noise', 'signal')):
        have = got[key]
        if have.ndim != 2 or have.shape[1] != len(numbers):
            raise Violation(label + ':shape', '%s has shape %s for %d profiles' % (key, have.shape, len(numbers)))
        for c, num in enumerate(numbers):
            want = expected[num][mine]
            h = have[:, c]
            m = max(len(h), len(want))
            a, b = np.full(m, np.nan), np.full(m, np.nan)
            a[:len(h)], b[:len(want)] = h, want
            if not np.allclose(a, b, rtol=rtol, atol=1e-9, equal_nan=True):
                j = int(np.argwhere(~np.isclose(a, b, rtol=rtol, atol=1e-9, equal_nan=True))[0, 0])
                raise Violation(label + ':value', '%s of profile %d, level %d is %r, expected %r'
                                % (key, num, j, float(a[j]), float(b[j])))


def check_settings(got, cfg_of, label):
    """cfg_of: {number: configuration in force, or None if nothing of the profile was mapped}"""
    numbers = [int(v) for v in np.ravel(got['la_profile_no'])]
    for key, name in SETTINGS.items():
        vals = np.ravel(got[key]).astype(float)
        if len(vals) != len(numbers):
            raise Violation(label + ':settings', '%s has %d entries for %d profiles' % (key, len(vals), len(numbers)))
        for v, num in zip(vals, numbers):
            want = np.nan if cfg_of[num] is None else float(cfg_of[num][name])
            if not (v == want or (np.isnan(v) and np.isnan(want))):
                raise Violation(label + ':settings', '%s of profile %d is %r, expected %r' % (key, num, v, want))


def check_selected(got, columns, label):
    """every selected point is the position of a cast used for the profile it is recorded under, and every cast
    used lies within 1/60 degree (in longitude and latitude) of a selected point, of which no two are that close"""
    sel = np.asarray(got['selected_hist'], dtype=float)
    if sel.size == 0:
        sel = np.zeros((0, 3))
    if sel.ndim != 2 or sel.shape[1] != 3:
        raise Violation(label + ':selected', 'selected points have shape %s' % (sel.shape,))
    for lon, lat, num in sel:
        col = columns.get(int(num))
        if col is None:
            raise Violation(label + ':selected', 'a selected point is recorded under profile %r' % num)
        if not any(abs(lat - a) < 1e-5 and abs((lon - b + 180) % 360 - 180) < 1e-5 for a, b in col.get('used_pos', ())):
            raise Violation(label + ':selected', 'selected point (%r, %r) of profile %d is not the position of a '
                            'cast used for it' % (lon, lat, num))
    for j in range(1, len(sel)):
        near = (np.abs(sel[:j, :2] - sel[j, :2]) < 1 / 60 - 1e-6).all(axis=1)
        if near.any():
            raise Violation(label + ':selected', 'selected points %s and %s stand for the same place'
                            % (sel[:j][near][0].tolist(), sel[j].tolist()))
    for num, col in columns.items():
        for a, b in col.get('used_pos', ()):
            if not (len(sel) and np.any((np.abs(sel[:, 1] - a) < 1 / 60 + 1e-6)
                                        & (np.abs((sel[:, 0] - b + 180) % 360 - 180) < 1 / 60 + 1e-6))):
                raise Violation(label + ':selected', 'no selected point stands for the cast at (%r, %r) used for '
                                'profile %d' % (b, a, num))
