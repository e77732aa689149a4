"""C04: a crash at any instant leaves every result file old or new"""
import random

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C04'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 64, 1500
RULE = ('A case is a random world, a kind of run (mapping, settings, calibration), a previous result or none, and 5-8 '
        'crash points: process kill, torn write, power loss (unsynced data and directory changes lost in a drawn legal '
        'way), or death at an executed line; places are drawn over all file operations of the run, biased to the '
        'saving phase.  The result files are read after every single change during the run and after the crash, then '
        'the run is repeated by a new process (sometimes with the same process number) and compared with an '
        'undisturbed run.  Non-trivial: a crash fired.  Distinct: by kind of run, previous state and crash places.')
ASSUMPTIONS = ['a file system where rename is atomic and fsync makes the data of a file durable; unsynced data and '
               'directory changes of the last minutes may be lost, older ones are on disk']
STATE_MEASURE = 'kind of run / previous result / operation at which it crashed / what was found afterwards'


def generate(rng, i, tier):
    what = ['map', 'fit', 'calseries'][i % 3]
    spec = W.random_spec(rng, nprof=(3, 4), n_boxes=(2, 3), max_casts=[300, 25],
                         region=rng.choice(['atlantic', 'pacific', 'indian', 'southern', 'equator']))
    spec['floats'][0]['bad'] = spec['floats'][0]['bad'][:1]
    crashes = []
    for _ in range(rng.randint(5, 8)):
        r = rng.random()
        if r < 0.15:
            c = {'after': rng.randrange(1 << 20)}
        elif r < 0.3:
            c = {'fault': {'kind': rng.choice(['kill', 'power']), 'ops': ['rename', 'fsync', 'close_w', 'open_w', 'unlink'],
                           'cls': ['mapped', 'calib']}}
        elif r < 0.5:
            c = {'fault': {'kind': rng.choice(['kill', 'power', 'power']), 'ops': WRITE_OPS, 'cls': ['mapped', 'calib']}}
        elif r < 0.68:
            c = {'fault': {'kind': 'torn', 'ops': ['write'], 'cls': ['mapped', 'calib']}}
        elif r < 0.85:
            c = {'fault': {'kind': rng.choice(['kill', 'power']), 'ops': None, 'cls': None}}
        else:
            c = {'line': draw_line(rng, ['crash'])}
        if 'fault' in c:
            c['fault'].update(frac=round(rng.random(), 4), count=1, arg=rng.randrange(1 << 20))
        c['same_pid'] = rng.random() < 0.5
        crashes.append(c)
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'what': what, 'old': rng.random() < 0.7, 'steps': crashes,
            'breaks': rng.choice([0, 0, 1, 2])}


def execute(case, ctx):
    what = case['what']
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    n = case['spec']['floats'][0]['nprof']
    every = list(range(n))
    # ---- what is there before
    if what == 'fit':
        s.deliver(0, every)
        must(s.do('map', 0), 'preparation')
        must(s.do('calseries', 0), 'preparation')
        edit_series(s, 0, max_breaks=[[-1]])
        if case['old']:
            must(s.do('fit', 0), 'preparation')
        edit_series(s, 0, max_breaks=[[case['breaks']]])
    else:
        if case['old']:
            s.deliver(0, every[:-1])
            must(s.do(what, 0), 'preparation')
            if what == 'calseries':
                edit_series(s, 0, max_breaks=[[1]], use_pres_gt=[[300]])
        s.deliver(0, every)
    start = snapshot(s, 0)
    old = s.load_result(what, 0)
    # ---- what is there afterwards, undisturbed
    places = Places(s)
    side = s.side_cfg(tag='want')
    copy_results(s, 0, s.cfg, side)
    out, _ = s.trace(what, 0, side)
    must(out, 'the reference')
    new = s.load_result(what, 0, side)
    path = s.path_of(what, 0)

    def whole(data, when):
        got = S.parse(data)
        if got is None and old is None:
            return 'absent'
        if start[what] is not None and data == start[what]:
            return 'old'
        with judging('whole'):
            diff = same_result(what, got, new)
        if diff is None:
            return 'new'
        raise Violation('whole', '%s the %s result is neither the old nor the new one: %s' % (when, what, diff))

    for c in case['steps']:
        restore(s, 0, start)
        sweep(s)
        s.restart()
        faults, line = resolve(s, places, {'faults': [c['fault']] if 'fault' in c else None, 'line': c.get('line')},
                               0, what)
        s.kernel.watch = {path: [K.real_bytes(path)]}
        out = s.do(what, 0, faults=faults, line=line)
        seen, s.kernel.watch = s.kernel.watch[path], {}
        if 'after' in c:
            # the machine stops just after the run has ended
            must(out, 'a run without faults')
            s.kernel.power_loss(random.Random(c['after']))
            s.kernel.stats['fault:power'] += 1
            s.marks.append('power-after')
            ctx.nontrivial = True
        elif not out.fired:
            must(out, 'a run without faults')
        else:
            ctx.nontrivial = True
        for data in seen:
            whole(data, 'during the run')
        found = whole(K.real_bytes(path), 'after the crash')
        for other in ('map', 'calseries', 'fit'):
            if other != what and K.real_bytes(s.path_of(other, 0)) != start[other]:
                raise Violation('whole:other', 'a %s run changed the %s file' % (what, other))
        ctx.states.add('%s/%s/%s/%s' % (what, 'old' if old else 'none', '%s@%s' % (
            out.fired[0]['kind'], out.fired[0]['op']) if out.fired else s.marks[-1], found))
        s.restart(same_pid=c['same_pid'])
        again = s.do(what, 0)
        if not again.ok:
            raise Violation('repeat', 'after %s, the repeated %s run ended with %r'
                            % (out, what, again.value))
        with judging('repeat'):
            diff = same_result(what, s.load_result(what, 0), new)
        if diff:
            raise Violation('repeat', 'the repeated %s run does not give the undisturbed result: %s' % (what, diff))
