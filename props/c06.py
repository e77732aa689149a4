"""C06: trouble while reading reference data never yields a different mapping"""
import os

from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C06'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 84, 2500
RULE = ('A case is a random world (boxes of all kinds), a previous mapping or none, and 5-8 disturbed mapping runs: '
        'errors, short reads, truncated files, out of memory and interrupts at drawn opens, reads, seeks and stats of '
        'boxes, topography and box table, or an interrupt / out of memory at a drawn executed line of pyowc.  After '
        'each the outcome is judged against an undisturbed run and the same process repeats the run.  Non-trivial: a '
        'fault fired.  Distinct: by outcomes and places of faults.')
ASSUMPTIONS = ['a box file that the operating system reports as not existing holds no data']
STATE_MEASURE = 'fault, operation and class of file or source file / outcome / process warm or cold'


def generate(rng, i, tier):
    front = rng.random() < 0.3
    spec = W.random_spec(rng, nprof=(2, 3), n_boxes=(2, 4), **({'region': 'southern', 'front': True} if front else {}))
    steps = []
    for _ in range(rng.randint(5, 8)):
        step = {'cold': rng.random() < 0.75}
        if rng.random() < 0.3:
            step['line'] = draw_line(rng, ['interrupt', 'interrupt', 'memory'])
        else:
            step['faults'] = [draw_fault(rng, 'reference', **({'cls': ['const']} if front and rng.random() < 0.5 else {}))]
            if rng.random() < 0.2:
                step['faults'].append(draw_fault(rng, rng.choice(['reference', 'noise'])))
        steps.append(step)
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'old': rng.random() < 0.5, 'steps': steps}


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    n = case['spec']['floats'][0]['nprof']
    if case['old']:
        s.deliver(0, range(n - 1))
        must(s.do('map', 0), 'preparation')
    s.deliver(0, range(n))
    start = snapshot(s, 0, ['map'])
    side = s.side_cfg(tag='want')
    copy_results(s, 0, s.cfg, side, ['map'])
    out, _ = s.trace('map', 0, side)
    must(out, 'the reference')
    new = s.load_result('map', 0, side)
    places = Places(s)
    path = s.map_path(0)
    tree = s.tree()
    tree.pop(os.path.relpath(path, s.root), None)
    for c in case['steps']:
        restore(s, 0, start)
        if c['cold']:
            s.restart()
        faults, line = resolve(s, places, c, 0, 'map')
        out = s.do('map', 0, faults=faults, line=line)
        got = K.real_bytes(path)
        hit = sorted({'%s@%s/%s' % (f['kind'], f['op'], f['cls']) for f in out.fired})
        if out.fired:
            ctx.nontrivial = True
        else:
            must(out, 'a run without faults')
        ctx.states.add('%s/%s/%s' % ('+'.join(hit), out.name(), 'cold' if c['cold'] else 'warm'))
        ctx.probe('run fails' if not out.ok else 'run succeeds')
        with judging('reference'):
            if out.ok:
                diff = same_result('map', S.parse(got), new)
                if diff:
                    raise Violation('reference', 'the run met %s, went on, and stored another mapping: %s' % (hit, diff))
            elif got != start['map']:
                diff = same_result('map', S.parse(got), new)
                if diff:
                    raise Violation('reference:stored', 'the run met %s, failed with %r, but stored something: %s'
                                    % (hit, out.value, diff))
        if any(f['op'] == 'line' for f in out.fired):
            # between two lines of code, where nothing can be done about a temporary file
            for r in s.stray():
                if r not in tree and os.path.dirname(r) == os.path.dirname(os.path.relpath(path, s.root)):
                    K.Real.unlink(os.path.join(s.root, r))
        now = s.tree()
        now.pop(os.path.relpath(path, s.root), None)
        if now != tree:
            raise Violation('reference:files', 'the run met %s and changed %s' % (
                hit, [r for r in set(now) | set(tree) if now.get(r) != tree.get(r)]))
        again = s.do('map', 0)
        if not again.ok:
            raise Violation('retry', 'after a run that met %s, the same process cannot repeat it: %r'
                            % (hit, again.value))
        with judging('retry'):
            diff = same_result('map', s.load_result('map', 0), new)
        if diff:
            raise Violation('retry', 'after a run that met %s, the repeated run stores: %s' % (hit, diff))
