"""C15: runs write only their own results and never touch inputs"""
import os
import sys

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C15'
LEVEL = 'exploration'
QUICK, THOROUGH = 100, 4000
RULE = ('A case is a world with 2-3 floats (names may contain each other; results of one or several kinds in one '
        'directory; absolute or relative paths) and 6-12 runs of any kind (mapping, settings, calibration, plots) for '
        'any of them, most under faults of any family: errors, full disk, kills, power loss, interrupts, no memory.  All '
        'changes to files are recorded while a run proceeds (also those it undoes), all files, directories and times '
        'of input files are compared after it, and attempts to write anywhere else on the machine, to start programs '
        'or to change the environment are intercepted.  Non-trivial: a run changed something or met a fault.  '
        'Distinct: by runs, outcomes and places of faults.')
ASSUMPTIONS = ['temporary files beside a result are part of the result; they may stay only if the process was killed, '
               'power was lost, removing them failed, or an interrupt came between two lines of code',
               'the configuration cache of matplotlib is not a result']


def generate(rng, i, tier):
    n = rng.choice([2, 2, 3])
    names = rng.choice([None, ['390196', '3901960', '13901960'], ['3901960', '390196', '13901960'], ['6900123', '69001', '6900123_2']])
    spec = W.random_spec(rng, n_floats=n, nprof=(2, 4), levels=(5, 7), n_boxes=(2, 3), bad_rate=0.2,
                         names=names and names[:n])
    plots = i % 4 == 0
    ops = []
    for _ in range(rng.randint(4, 6) if plots else rng.randint(6, 12)):
        op = {'op': rng.choice(['map', 'map', 'calseries', 'fit', 'fit'] + (['plot'] * 4 if plots else [])),
              'i': rng.randrange(n)}
        r = rng.random()
        if op['op'] == 'plot':
            if r < 0.3:
                op['faults'] = [{'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'kill', 'interrupt']),
                                 'ops': rng.choice([['open_w'], ['write'], ['read']]), 'cls': None,
                                 'frac': round(rng.random(), 4), 'count': 1, 'arg': rng.randrange(1 << 20)}]
            elif r < 0.4:
                op['line'] = draw_line(rng)
        elif r < 0.55:
            op['faults'] = [draw_fault(rng, rng.choice(['storage', 'storage', 'crash', 'reference', 'noise']))
                            for _ in range(rng.choice([1, 1, 2]))]
        elif r < 0.65:
            op['line'] = draw_line(rng)
        ops.append(op)
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops, 'shared': rng.random() < 0.25,
            'ready': [rng.choice([0, 3, 3, 3] if plots else [0, 1, 2, 2, 3]) for _ in range(n)], 'relative': rng.random() < 0.2, 'breaks': rng.choice([-1, 0, 0, 1]),
            'deliver': [rng.random() < (0.15 if plots else 0.5) for _ in range(n)]}


KEPT = ('_trajectory.pdf', '_trajectory.png', '_theta_sal.png', '_salinity_variance.jpg', '_uncal_1.png', '.png', '_notes.txt')


class Outside:
    """intercepts whatever the code does to the machine outside the world (audit events of the interpreter)"""
    PATHS = {'os.rename': (0, 1), 'os.remove': (0,), 'os.mkdir': (0,), 'os.rmdir': (0,), 'os.link': (0, 1),
             'os.symlink': (1,), 'os.truncate': (0,), 'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,),
             'os.setxattr': (0,), 'os.removexattr': (0,), 'shutil.rmtree': (0,), 'shutil.move': (0, 1)}
    NEVER = ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.forkpty', 'os.kill',
             'os.killpg', 'os.chdir', 'os.putenv', 'os.unsetenv', 'socket.connect', 'socket.bind', 'signal.pthread_kill')

    def __init__(self, s):
        self.s, self.seen = s, []
        self.allowed = [os.path.abspath(p) for p in (s.root, os.environ.get('MPLCONFIGDIR') or '/nonexistent')]
        sys.addaudithook(self.hook)

    def inside(self, path):
        if isinstance(path, int) or path is None:
            return True
        try:
            p = os.fspath(path)
        except TypeError:
            return True
        p = os.path.abspath(os.fsdecode(p))
        return p == '/dev/null' or any(p == a or p.startswith(a + '/') for a in self.allowed)

    def hook(self, event, args):
        k = self.s.kernel
        if not k.running or k.current is None:
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) \
                    and not self.inside(path):
                self.stop('%s opened for writing' % path)
        elif event in self.PATHS:
            for j in self.PATHS[event]:
                if len(args) > j and not self.inside(args[j]):
                    self.stop('%s of %s' % (event, args[j]))
        elif event in self.NEVER:
            self.stop('%s%r' % (event, tuple(str(a)[:80] for a in args)))

    def stop(self, what):
        self.seen.append(what)
        raise PermissionError('simulated: ' + what)


def look(s):
    """files with their content (and times, for inputs), and directories"""
    files, times, dirs = s.tree(skip=()), {}, set()
    for base, sub, names in os.walk(s.root):
        rel = os.path.relpath(base, s.root)
        dirs.add(rel)
        if rel.split('/')[0] in ('climatology', 'constants', 'float_source'):
            for f in names:
                st = os.stat(os.path.join(base, f))
                times[os.path.join(rel, f)] = (st.st_mtime_ns, st.st_mode, st.st_ino)
    return files, times, dirs


def execute(case, ctx):
    plots = any(op['op'] == 'plot' for op in case['ops'])
    s = ctx.session(case['spec'], case['seed'], deliver=False, shapes=plots)
    cfg = dict(s.cfg)
    if plots:
        from sim.pictures import Pictures  # pylint: disable=import-outside-toplevel
        Pictures().install()
    if case['shared']:
        cfg['FLOAT_CALIB_DIRECTORY'] = cfg['FLOAT_MAPPED_DIRECTORY']
    if case['relative']:
        os.chdir(s.root)
        for k, v in cfg.items():
            if isinstance(v, str) and v.startswith(s.root):
                cfg[k] = os.path.relpath(v, s.root)
    s.cfg = cfg
    n = len(s.spec['floats'])
    for i in range(n):
        s.deliver(i, range(s.spec['floats'][i]['nprof'] - (1 if case['deliver'][i] else 0)))
    places = Places(s)
    if plots:
        # pictures made earlier, by other floats and other means (their content does not matter)
        rs = np.random.RandomState(case['seed'] % (1 << 31))
        for name in sorted({s.name(i) for i in range(n)} | {s.name(0) + '1', s.name(0)[:-1], '1' + s.name(0)}):
            for end in KEPT:
                if rs.rand() < 0.5:
                    put(os.path.join(s.root, 'float_plots', name + end), b'picture')
        put(os.path.join(s.root, 'float_plots', 'notes.txt'), b'notes')
    for i in range(n):
        for what in ('map', 'calseries', 'fit')[:case['ready'][i]]:
            must(s.do(what, i), 'preparation')
    outside = Outside(s)
    env = dict(os.environ)
    where = os.getcwd()
    for step, op in enumerate(case['ops']):
        what, i = op['op'], op['i']
        name = s.name(i)
        if step == len(case['ops']) // 2:
            for j in range(n):
                s.deliver(j, range(s.spec['floats'][j]['nprof']))
        if what == 'fit' and K.real_bytes(s.calseries_path(i)) is not None:
            edit_series(s, i, max_breaks=[[case['breaks']]])
        places.memo.clear()
        faults, line = [], None
        if what == 'plot':
            for f in op.get('faults', []):
                faults.append(dict(f, nth=int(f['frac'] * (12 if f['ops'] != ['read'] else 60))))
            if op.get('line'):
                line = dict(op['line'], at=1 + int(op['line']['frac'] * (1500, 300)[op['line']['new']]))
        else:
            faults, line = resolve(s, places, op, i, what)
        before, times, dirs = look(s)
        own = {os.path.relpath(s.path_of(what, i), s.root)} if what != 'plot' else set()
        folder = {os.path.dirname(r) for r in own} or {'float_plots'}
        mark = len(s.kernel.changed)
        out = s.do(what, i, faults=faults, line=line)
        after, times2, dirs2 = look(s)

        def mine(r, own=own, name=name, what=what):
            if what == 'plot':
                return r.startswith('float_plots/%s_' % name) and r.endswith('.png') and not any(
                    r.startswith('float_plots/%s_' % s.name(j)) for j in range(n) if len(s.name(j)) > len(name))
            return r in own
        if outside.seen:
            raise Violation('elsewhere', 'a %s run: %s' % (what, outside.seen[:3]))
        killed = any(f['kind'] in ('kill', 'power', 'torn') or f['op'] in ('unlink', 'stat', 'line') for f in out.fired)
        for r in sorted(set(before) | set(after)):
            if before.get(r) == after.get(r) or mine(r):
                continue
            if killed and r not in before and os.path.dirname(r) in folder:
                continue
            raise Violation('files', 'a %s run of float %s (%s) %s %s' % (
                what, name, out.name(), 'removed' if r not in after else 'created' if r not in before else 'changed', r))
        for e, kind, r, _ in s.kernel.changed[mark:]:
            if not mine(r) and (r in before or os.path.dirname(r) not in folder):
                raise Violation('transient', 'a %s run of float %s touched %s (%s)' % (what, name, r, kind))
        if times2 != times:
            raise Violation('inputs', 'a %s run of float %s changed or replaced %s' % (
                what, name, sorted(r for r in set(times) | set(times2) if times.get(r) != times2.get(r))))
        if dirs2 != dirs:
            raise Violation('directories', 'a %s run created or removed %s' % (what, sorted(dirs ^ dirs2)))
        if dict(os.environ) != env or os.getcwd() != where:
            raise Violation('environment', 'a %s run changed the environment' % what)
        if before != after or out.fired:
            ctx.nontrivial = True
        ctx.probe('%s %s' % (what, 'ok' if out.ok else 'failed'))
        ctx.states.add('%s/%s/%s/%s' % (what, out.name(), case['shared'], '+'.join(
            sorted({'%s@%s' % (f['kind'], f['op']) for f in out.fired}))))
        if killed:
            sweep_all(s, before)


def sweep_all(s, before):
    for r in s.stray():
        if r not in before:
            K.Real.unlink(os.path.join(s.root, r))
