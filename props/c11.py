"""C11: calibration settings survive re-runs, edits, growth and faults"""
from .common import *  # noqa  pylint: disable=wildcard-import,unused-wildcard-import

ID = 'C11'
LEVEL = 'exploration'
QUICK, THOROUGH = 1000, 40000
RULE = ('A case is 1-2 floats and a history of 6-14 steps: deliveries of more profiles (in any order of arrival and '
        'in the file, some without usable data, data appearing later, profiles withdrawn), settings runs with and without storage faults, kills, interrupts '
        'and lost memory, restarts, edits by the operator (flags, excluded profiles, bounds, break points, percentage, '
        'removed or reordered entries, files written by older versions) and damaged settings files (cut, overwritten, '
        'emptied, variables missing).  After every run the file is compared, value for value, with a model of the '
        'settings.  Non-trivial: a settings run over an existing file.  Distinct: by history, outcomes and faults.')
ASSUMPTIONS = ['a new profile of a source in another order inherits the flag of the profile before it in the file or by number',
               'at most one value for each bound (several are refused by design)',
               'a file cut exactly before its last variable is a file of an older version']
BOUNDS = ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')


def generate(rng, i, tier):
    n = rng.choice([1, 1, 2])
    spec = W.random_spec(rng, n_floats=n, nprof=(3, 9), bad_rate=0.5, levels=(3, 6), n_boxes=(1, 2))
    for f in spec['floats']:
        for _ in range(rng.choice([0, 0, 1, 2])):
            f['bad'].append([rng.randrange(f['nprof']), rng.choice(['sal', 'pres', 'pos', 'temp'])])
    ops = []
    have = [set() for _ in range(n)]
    for _ in range(rng.randint(6, 14 if tier == 'quick' else 26)):
        f = rng.randrange(n)
        total = spec['floats'][f]['nprof']
        r = rng.random()
        if not have[f] or r < 0.25:
            rest = [k for k in range(total) if k not in have[f]]
            more = rng.sample(rest, min(len(rest), rng.choice([1, 1, 2, 3]))) if rng.random() < 0.5 else rest[:rng.choice([1, 2, 3])]
            have[f] |= set(more)
            if rng.random() < 0.15 and len(have[f]) > 1:
                # the source loses some profiles (they come back later, or not)
                have[f] -= set(rng.sample(sorted(have[f]), rng.randint(1, len(have[f]) - 1)))
            keep = sorted(have[f])
            if rng.random() < 0.25:
                rng.shuffle(keep)
            ops.append({'op': 'deliver', 'i': f, 'keep': keep, 'repair': rng.random() < 0.15})
        elif r < 0.65:
            run = {'op': 'calseries', 'i': f}
            q = rng.random()
            if q < 0.35:
                run['faults'] = [draw_fault(rng, rng.choice(['storage', 'storage', 'crash', 'noise']))]
            elif q < 0.45:
                run['line'] = draw_line(rng)
            ops.append(run)
        elif r < 0.9:
            ops.append({'op': 'edit', 'i': f, 'what': rng.choice(['flags', 'flags', 'bounds', 'breaks', 'percent', 'drop',
                                                                  'shuffle', 'legacy', 'column']),
                        'seed': rng.randrange(1 << 30)})
        elif r < 0.97:
            ops.append({'op': 'damage', 'i': f, 'what': rng.choice(['cut', 'header', 'empty', 'variable', 'directory']),
                        'seed': rng.randrange(1 << 30)})
        else:
            ops.append({'op': 'restart'})
    for f in range(n):
        if have[f]:
            ops.append({'op': 'calseries', 'i': f})
    return {'spec': spec, 'seed': rng.randrange(1 << 30), 'ops': ops}


class Settings:
    """the model: what the settings of a float are"""

    def __init__(self):
        self.flags, self.rest, self.head = None, None, None
        self.either = {}        # new profiles of a source in another order: the flags they may have

    def copy(self):
        out = Settings()
        out.flags = None if self.flags is None else dict(self.flags)
        out.rest = None if self.rest is None else {k: np.array(v) for k, v in self.rest.items()}
        return out

    def run(self, arrays):
        """a set-up run over this source"""
        numbers = [int(v) for v in arrays['PROFILE_NO']]
        out = self.copy()
        if out.flags is None:
            out.flags = {}
            out.rest = {'breaks': np.zeros((0, 0)), 'max_breaks': np.array([[4]]), 'use_percent_gt': np.array([[0.5]])}
            out.rest.update({k: np.zeros((0, 0)) for k in BOUNDS})
        first = self.flags is None
        for k, num in enumerate(numbers):
            if num in out.flags:
                continue
            if first:
                out.flags[num] = 1.0
            else:
                first_entry = self.flags[min(self.flags)] if self.head is None else self.head
                # the flag of the profile before it; nothing before it: the flag of the first entry of the file
                before = out.flags.get(numbers[k - 1], first_entry) if k > 0 else first_entry
                out.either[num] = {before} | out.either.get(numbers[k - 1] if k else None, set())
                out.flags[num] = before
        if not first and numbers != sorted(numbers):
            # before it in the file of the source, or before it by number
            by_number, of_all = dict(self.flags), dict(self.flags)
            first_entry = self.flags[min(self.flags)] if self.head is None else self.head
            for k, num in enumerate(sorted(numbers)):
                if num not in self.flags:
                    by_number[num] = by_number.get(sorted(numbers)[k - 1], first_entry) if k else first_entry
                    lower = [v for v in of_all if v < num]
                    of_all[num] = of_all[max(lower)] if lower else first_entry
                    out.either[num] = out.either[num] | {by_number[num], of_all[num]}
        for k, num in enumerate(numbers):
            if any(np.all(np.isnan(arrays[v][:, k])) for v in ('SAL', 'TEMP', 'PRES')):
                out.flags[num] = 0.0
                out.either.pop(num, None)
        return out

    def difference(self, got):
        if self.flags is None:
            return None if got is None else 'there is a settings file'
        if not isinstance(got, dict):
            return 'the settings are %s' % S.kind_of(got)
        numbers, flags = np.ravel(got['calib_profile_no']), np.ravel(got['calseries'])
        if [int(v) for v in numbers] != sorted(self.flags):
            return 'profiles %s, expected %s' % ([int(v) for v in numbers], sorted(self.flags))
        for num, flag in zip(numbers, flags):
            if float(flag) in self.either.get(int(num), ()):
                self.flags[int(num)] = float(flag)
            if float(flag) != float(self.flags[int(num)]):
                return 'the flag of profile %d is %g, expected %g' % (num, flag, self.flags[int(num)])
        if len(flags) != len(numbers):
            return '%d flags for %d profiles' % (len(flags), len(numbers))
        return S.difference(got, self.rest, keys=sorted(self.rest))


def to_file(st, rs, column=False, shuffle=False, legacy=False):
    nums = sorted(st.flags)
    if shuffle:
        nums = [nums[j] for j in rs.permutation(len(nums))]
    d = {k: v for k, v in st.rest.items() if not (legacy and k == 'use_percent_gt')}
    shape = (-1, 1) if column else (1, -1)
    d['calib_profile_no'] = np.array(nums).reshape(shape)
    d['calseries'] = np.array([st.flags[v] for v in nums], dtype=float).reshape(shape)
    return d, nums


def edit(s, op, st):
    """the operator changes the settings file and knows what it holds now"""
    from scipy.io import savemat  # pylint: disable=import-outside-toplevel
    rs = np.random.RandomState(op['seed'] % (1 << 31))
    new, what = st.copy(), op['what']
    nums = sorted(new.flags)
    column = shuffle = legacy = False
    if what == 'flags':
        cut = rs.randint(len(nums) + 1)
        for j, num in enumerate(nums):
            if j >= cut:
                new.flags[num] = float(rs.choice([2.0, 3.0]) if j == cut else new.flags[nums[j - 1]])
        for num in nums:
            if rs.rand() < 0.2:
                new.flags[num] = 0.0
    elif what == 'bounds':
        for k in BOUNDS:
            r = rs.rand()
            if r < 0.4:
                new.rest[k] = np.array([[float(np.round(rs.uniform(2, 900), 3))]])
            elif r < 0.5:
                new.rest[k] = np.zeros((0, 0))
    elif what == 'breaks':
        rows = max(1, len({v for v in new.flags.values() if v}))
        new.rest['max_breaks'] = np.array(rs.choice([-1.0, 0.0, 1.0, 2.0, 3.0], rows)).reshape(-1, 1)
        if rs.rand() < 0.6:
            b = np.sort(rs.uniform(1, 9, (rows, rs.randint(1, 3))).round(2), axis=1)
            if rows > 1 and rs.rand() < 0.5:
                b[rs.randint(rows), -1] = np.nan
            new.rest['breaks'] = b
        else:
            new.rest['breaks'] = np.zeros((0, 0))
    elif what == 'percent':
        new.rest['use_percent_gt'] = np.array([[float(np.round(rs.uniform(0.2, 1), 3))]])
    elif what == 'drop' and len(nums) > 1:
        del new.flags[nums[rs.randint(len(nums))]]
    shuffle, legacy, column = what == 'shuffle', what == 'legacy', what == 'column'
    if legacy:
        new.rest['use_percent_gt'] = np.array([[0.5]])
    d, order = to_file(new, rs, column, shuffle, legacy)
    # a new first profile inherits the flag of the first entry of the file
    new.head = new.flags[order[0]]
    savemat(s.calseries_path(op['i']), W.as_matlab(d) if op['seed'] % 3 == 0 else d)
    s.outside(s.calseries_path(op['i']))
    return new


def damage(s, op):
    """an unreadable settings file; returns its bytes, or None if it cannot be damaged this way"""
    import os  # pylint: disable=import-outside-toplevel
    from scipy.io import savemat  # pylint: disable=import-outside-toplevel
    path = s.calseries_path(op['i'])
    data = K.real_bytes(path)
    rs = np.random.RandomState(op['seed'] % (1 << 31))
    what = op['what']
    if what == 'directory':
        K.Real.unlink(path)
        os.mkdir(path)
        return 'directory'
    if what == 'variable':
        d = s.load(path)
        names = sorted(k for k in d if k != 'use_percent_gt')
        for _ in range(rs.randint(1, 4)):
            d.pop(names[rs.randint(len(names))], None)
        savemat(path, d)
        return K.real_bytes(path)
    if what == 'cut':
        at = int(data.rfind(b'use_percent_gt')) - 48
        put(path, data[:rs.randint(1, max(2, at))])
        new = S.parse(K.real_bytes(path))
        if isinstance(new, dict) and set(SERIES_KEYS) - {'use_percent_gt'} <= set(new):
            raise HarnessError('a cut settings file is complete')
    elif what == 'header':
        put(path, rs.bytes(160) + data[160:])
    else:
        put(path, b'')
    return K.real_bytes(path)


def execute(case, ctx):
    import os  # pylint: disable=import-outside-toplevel
    s = ctx.session(case['spec'], case['seed'], deliver=False)
    n = len(case['spec']['floats'])
    for f, flt in enumerate(case['spec']['floats']):
        for j, what in flt['bad']:
            if what == 'temp':
                s.full[f]['TEMP'][:, j] = np.nan
    places = Places(s)
    model = [Settings() for _ in range(n)]
    quiet = [None] * n          # content after a settings run, while nothing has changed since
    for op in case['ops']:
        i = op.get('i')
        st = model[i] if i is not None else None
        if op['op'] == 'deliver':
            if op.get('repair'):
                good = W.float_arrays(s.spec, dict(s.spec['floats'][i], bad=[]))
                for k in ('SAL', 'PRES', 'TEMP', 'PTMP'):
                    s.full[i][k] = good[k]
            s.deliver(i, op['keep'])
            quiet[i] = None
        elif op['op'] == 'restart':
            s.restart()
        elif op['op'] == 'edit':
            if st.flags is not None:
                model[i] = edit(s, op, st)
                quiet[i] = None
                s.marks.append('edit:' + op['what'])
        elif op['op'] == 'damage':
            if st.flags is None:
                continue
            path = s.calseries_path(i)
            good = K.real_bytes(path)
            bad = damage(s, op)
            for again in range(2):
                out = s.do('calseries', i)
                now = 'directory' if os.path.isdir(path) else K.real_bytes(path)
                if out.ok:
                    raise Violation('unreadable:accepted', 'a settings file which cannot be read (%s) is accepted'
                                    % op['what'])
                if now != bad:
                    raise Violation('unreadable:replaced', 'a settings file which cannot be read (%s) was replaced'
                                    % op['what'])
                if again == 0 and op['seed'] % 2:
                    s.restart()
            if bad == 'directory':
                os.rmdir(path)
            put(path, good)
            s.outside(path)
            ctx.probe('damaged ' + op['what'])
        else:
            if s.source[i] is None:
                continue
            places.memo.clear()
            faults, line = resolve(s, places, op, i, 'calseries')
            before = K.real_bytes(s.calseries_path(i))
            others = [K.real_bytes(s.calseries_path(j)) for j in range(n)]
            want = st.run(s.source[i])
            out = s.do('calseries', i, faults=faults, line=line)
            if before is not None:
                ctx.nontrivial = True
            after = K.real_bytes(s.calseries_path(i))
            for j in range(n):
                if j != i and K.real_bytes(s.calseries_path(j)) != others[j]:
                    raise Violation('other', 'the settings of float %s changed' % s.name(j))
            with judging('settings'):
                if out.ok:
                    diff = want.difference(S.parse(after))
                    if diff:
                        raise Violation('settings', diff)
                    model[i] = want
                    if quiet[i] is not None:
                        d = difference(S.parse(after), S.parse(quiet[i]))
                        if d:
                            raise Violation('idempotent', 'running it again without changes: ' + d)
                    quiet[i] = after
                else:
                    if not out.fired:
                        raise Violation('run-failed', 'an undisturbed settings run ended with %r' % (out.value,))
                    if after != before:
                        diff = want.difference(S.parse(after))
                        if diff:
                            raise Violation('damage', 'a settings run which met %s left neither the previous nor the '
                                            'complete new settings: %s' % (out.fired, diff))
                        model[i] = want
            state_note(ctx, s, i)
            ctx.states.add('%s %s' % (out.name(), sorted({v for v in (model[i].flags or {}).values()})))
