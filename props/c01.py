"""C01: mapping in instalments gives what one run gives"""
from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C01'
LEVEL = 'exploration'
QUICK, THOROUGH = 90, 3000
RULE = ('A case is a random world (climatology boxes, settings, one float), a random order of arrival of its profiles '
        'over 1-6 mapping runs, restarts, and faults (storage, reference data, kill, power loss, interrupts at lines) '
        'in the runs before the last.  Non-trivial: at least two mapping runs, and the final result came out of a '
        'history other than one run.  Distinct: by history of runs, outcomes and places of faults.')
ASSUMPTIONS = ['undisturbed single run over all profiles is the reference (its values are checked by C03)',
               'profiles themselves do not change between deliveries']


def generate(rng, i, tier):
    spec = W.random_spec(rng, nprof=(2, 6))
    n = spec['floats'][0]['nprof']
    ascending = rng.random() < 0.5
    ops = []
    for keep in orders(rng, n, ascending):
        ops.append({'op': 'deliver', 'keep': withdrawn(rng, keep, 0.1)})
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            run = {'op': 'map'}
            r = rng.random()
            if r < 0.2:
                run['faults'] = [draw_fault(rng, 'crash')]
            elif r < 0.3:
                run['faults'] = [draw_fault(rng, 'storage')]
            elif r < 0.4:
                run['faults'] = [draw_fault(rng, 'reference')]
            elif r < 0.5:
                run['line'] = draw_line(rng)
            ops.append(run)
            if rng.random() < 0.4:
                ops.append({'op': 'restart'})
    final = sorted(range(n))
    if not ascending and rng.random() < 0.5:
        rng.shuffle(final)
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops, 'final': final}


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    runs, faulted, arrival, ascending = 0, 0, [], True
    places = Places(s)
    for op in case['ops'] + [{'op': 'deliver', 'keep': case['final']}, {'op': 'map'}]:
        if op['op'] == 'deliver':
            s.deliver(0, op['keep'])
            places.memo.clear()
            numbers = op['keep']
        elif op['op'] == 'restart':
            s.restart()
        else:
            faults, line = resolve(s, places, op, 0, 'map')
            before = s.load_result('map', 0)
            out = s.do('map', 0, faults=faults, line=line)
            runs += 1
            faulted += bool(out.fired)
            if not out.fired:
                must(out, 'a run without faults')
            after = s.load_result('map', 0)
            if isinstance(after, dict):
                with judging('instalments'):
                    old = set() if before is None else {int(v) for v in before['la_profile_no'].ravel()}
                    new = [int(v) for v in after['la_profile_no'].ravel()]
                    added = [v for v in [int(x) for x in s.source[0]['PROFILE_NO']] if v in new and v not in old]
                    arrival += added
            state_note(ctx, s, 0)
    ascending = arrival == sorted(arrival)
    final = s.load_result('map', 0)
    s.deliver(0, sorted(numbers))
    out, want = s.reference('map', 0)
    must(out, 'the reference')
    ctx.nontrivial = runs > 1
    ctx.probe('runs', runs)
    ctx.probe('faulted runs', faulted)
    ctx.probe('ascending' if ascending else 'out of order')
    with judging('instalments'):
        diff = difference(final, want, keys=keys_of_map(ascending), rtol=1e-7, atol=1e-10)
        if diff:
            raise Violation('instalments', 'after %d runs (%s): %s' % (
                runs, 'ascending' if ascending else 'out of order', diff))
