"""C03: every mapped column is the estimate for the profile it is stored under"""
from sim import model as M
from .c02 import change_boxes
from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C03'
LEVEL = 'exploration'
QUICK, THOROUGH = 130, 4000
RULE = ('A case is a random world (11 regions, boxes of all kinds, settings incl. potential vorticity and the '
        'Subantarctic front) and a history of deliveries in any order, mapping runs with changing configurations, box '
        'changes between processes, restarts and transient faults.  After every run each column is compared with an '
        'independent reference model, evaluated with the profile, settings and boxes in force when it was mapped.  '
        'Non-trivial: at least one level was mapped.  Distinct: by history, outcomes and places of faults.')
ASSUMPTIONS = ['reference model sim/model.py (independent implementation, no shared code) is right',
               'boxes change only while no process runs']


def generate(rng, i, tier):
    spec = W.random_spec(rng, nprof=(2, 5), bad_rate=0.45)
    if rng.random() < 0.15:
        # fresh or salty waters: some of the estimates are out of range
        spec['salt'] = round(rng.choice([rng.uniform(-5.3, -4.4), rng.uniform(4.2, 5.3)]), 3)
    n = spec['floats'][0]['nprof']
    if rng.random() < 0.1:
        W.at_greenwich(rng, spec)
    if rng.random() < 0.12:
        # profiles of a single measurement
        spec['floats'][0]['bad'] += [[k, 'first'] for k in rng.sample(range(n), rng.randint(1, n))]
    if 'front' in spec and rng.random() < 0.5:
        spec['floats'][0]['bad'].append([rng.randrange(n), 'twice'])
    ops = []
    shallow = rng.choice([None, None, None, 4])
    for keep in orders(rng, n, rng.random() < 0.4):
        ops.append({'op': 'deliver', 'keep': withdrawn(rng, keep, 0.1), 'levels': shallow if rng.random() < 0.5 else None})
        if rng.random() < 0.15:
            ops.append({'op': 'boxes', 'seed': rng.randrange(1 << 30), 'what': rng.choice(['replace', 'remove', 'all'])})
        for _ in range(rng.choice([1, 1, 2])):
            run = {'op': 'map', 'cfg': draw_cfg(rng) if rng.random() < 0.4 else {}}
            if rng.random() < 0.15:
                run['exclude_at'] = [rng.randrange(5), rng.randrange(4)]
            r = rng.random()
            if r < 0.3:
                run['faults'] = [draw_fault(rng, rng.choice(['reference', 'reference', 'storage', 'noise', 'crash']))
                                 for _ in range(rng.choice([1, 1, 2]))]
            elif r < 0.36:
                run['line'] = draw_line(rng)
            ops.append(run)
        if rng.random() < 0.3:
            ops.append({'op': 'restart'})
    ops.append({'op': 'map', 'cfg': {}})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops}


class Expected:
    """what the mapping of a float must hold, kept up to date over a history"""

    def __init__(self, s, i=0):
        self.s, self.i = s, i
        self.cols, self.cfgs = {}, {}

    def profile(self, number):
        arrays = self.s.source[self.i]
        return M.profile_of(arrays, [int(v) for v in arrays['PROFILE_NO']].index(number))

    def column(self, number, cfg):
        """model of a profile of the current source; None if the run has to refuse it"""
        try:
            return M.map_profile(cfg, self.s.table, self.s.boxes, self.s.name(self.i), self.profile(number),
                                 self.s.source[self.i]['SAL'].shape[0])
        except M.NoData:
            return None

    def after(self, out, cfg, label):
        """check the file after a run"""
        s, i = self.s, self.i
        got = s.load_result('map', i)
        numbers = sorted(int(v) for v in s.source[i]['PROFILE_NO'])
        wanted = {n for n in numbers if n not in self.cols}
        have = set()
        if isinstance(got, dict):
            have = {int(v) for v in np.ravel(got['la_profile_no'])}
        if out.ok and not have >= set(numbers):
            raise Violation(label + ':profiles', 'profiles %s, but the source has %s' % (sorted(have), numbers))
        if got is None:
            if self.cols:
                raise Violation(label, 'the mapping has disappeared')
            return False
        new = have & wanted
        for n in sorted(new):
            col = self.column(n, cfg)
            if col is None:
                raise Violation(label + ':nodata', 'profile %d was stored although there is no data to map it with' % n)
            self.cols[n], self.cfgs[n] = col, (cfg if col['mapped'] else None)
        S.check_columns(got, self.cols, label)
        S.check_settings(got, self.cfgs, label)
        S.check_selected(got, self.cols, label)
        return bool(new)

    def refused(self, cfg):
        """a profile which is not mapped yet has no data to be mapped with"""
        numbers = [int(v) for v in self.s.source[self.i]['PROFILE_NO']]
        return any(self.column(n, cfg) is None for n in numbers if n not in self.cols)


def execute(case, ctx):
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    places = Places(s)
    exp = Expected(s)
    for op in case['ops']:
        if op['op'] == 'deliver':
            s.deliver(0, op['keep'], op.get('levels'))
        elif op['op'] == 'boxes':
            s.restart()
            change_boxes(s, op)
        elif op['op'] == 'restart':
            s.restart()
        else:
            if s.source[0] is None:
                raise HarnessError('a run before any delivery')
            cfg = with_cfg(s, op.get('cfg'))
            if op.get('exclude_at'):
                # the limit is the very pressure of a level
                pres = s.source[0]['PRES']
                limit = pres[op['exclude_at'][0] % pres.shape[0], op['exclude_at'][1] % pres.shape[1]]
                cfg['MAP_P_EXCLUDE'] = float(limit) if np.isfinite(limit) else cfg['MAP_P_EXCLUDE']
            places.memo.clear()
            faults, line = resolve(s, places, op, 0, 'map')
            out = s.do('map', 0, cfg=cfg, faults=faults, line=line)
            if not out.ok and not out.fired:
                if exp.refused(cfg):
                    ctx.probe('no data')
                    s.restart()
                    continue
                must(out, 'a run without faults')
            with judging('column'):
                exp.after(out, cfg, 'column')
            state_note(ctx, s, 0)
    ctx.nontrivial = any(c['mapped'] for c in exp.cols.values())
    ctx.probe('columns', len(exp.cols))
    ctx.probe('levels', int(sum(np.isfinite(c['sal']).sum() for c in exp.cols.values())))
    ctx.probe('front', sum(1 for c in exp.cfgs.values() if c and c['MAP_USE_SAF']))
    ctx.probe('vorticity', sum(1 for c in exp.cfgs.values() if c and c['MAP_USE_PV']))
