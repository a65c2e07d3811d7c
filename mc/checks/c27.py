"""Data tables: transition matrices, probability tables, time series, Lee-Carter models - over all small tables and histories."""
import itertools
import math
from fractions import Fraction
from .. import core, fitkit, rnd
from ..core import CH, ST, close, expect, expect_raises, law, tick

W = (0, 1, 3)
TIMES = (2000, 2001, 2004, 2010.5)
VALS = (5.0, -1.0, 3.5, 0.25)
BOUNDS = {
    'quick': 'transition matrices: all 2x2 and 2x3 weights from {0,1,3} (exact law); probability tables: all weights over 2x2, 2x3 and 2x2x2 combinations '
             'incl. repeated rows, all histories of <= 2 conditionings / marginalisations (exact law); time series, vectors, probability series '
             'and Lee-Carter models: all row orders of <= 4 times, kinds nearest, linear, previous, 41 query times',
    'thorough': 'as quick with 3x3 matrices, histories of 3 and 2x2x3 tables',
}
ASSUMPTIONS = ['labels of probability tables are texts without colons', 'times differ; query times half way between two rows may take either (nearest)',
               'conditions and marginalisations with nothing left are left out']


def jobs(tier):
    out = []
    for shape in ((2, 2), (2, 3), (1, 2)) + (((3, 3),) if tier != 'quick' else ()):
        for first in itertools.product(W, repeat=shape[1]):
            if any(first):
                out.append(['tm', list(shape), list(first)])
    for dims in ((2,), (3,), (2, 2), (2, 3), (2, 2, 2)) + (((2, 2, 3),) if tier != 'quick' else ()):
        for first in itertools.product(W, repeat=2):
            out.append(['cpt', list(dims), list(first), 2 if tier == 'quick' else 3])
    for n in (2, 3, 4):
        for order in itertools.permutations(range(n)):
            out.append(['ts', list(order)])
    for k in range(2):
        out.append(['fun', k])
    return out


def run(job):
    core.load_sut()
    import sims_pars.data                                            # noqa
    {'tm': matrix, 'cpt': table, 'ts': series, 'fun': function}[job[0]](*job[1:])
    ST.sample({'job': job})


def exact(ws):
    t = sum(ws.values())
    return {k: Fraction(v, t) for k, v in ws.items() if v}


def same_law(got, want):
    return set(got) == set(want) and all(close(float(got[k]), float(want[k])) for k in want)


def draw(fn):
    """Law of fn() under controlled draws."""
    def once():
        with rnd.owned(rnd.Rnd()):
            return fn()
    got, n = law(once)
    tick('transitions', n)
    tick('traces')
    return got


def matrix(shape, first):
    import pandas as pd
    from sims_pars.data import TransitionMatrix
    a, b = shape
    frm, to = ['s%d' % i for i in range(a)], ['s%d' % (b - i) for i in range(b)]
    for rest in itertools.product(itertools.product(W, repeat=b), repeat=a - 1):
        rows = [tuple(first)] + list(rest)
        if not all(any(r) for r in rows):
            continue
        df = pd.DataFrame(rows, index=frm, columns=to)
        was = df.copy()
        m = TransitionMatrix(df)
        info = dict(matrix=rows)
        expect(list(m.StateFrom) == frm and list(m.StateTo) == to, 'states %s -> %s' % (m.StateFrom, m.StateTo), **info)
        want = {f: exact(dict(zip(to, r))) for f, r in zip(frm, rows)}
        for f in frm:
            for what, fn in (('call', lambda: str(m(f))), ('sample_next', lambda: str(m.sample_next(f))), ('sample', lambda: str(m.sample(current=f))),
                             ('item', lambda: str(m[f].sample()))):
                got = draw(fn)
                expect(same_law(got, want[f]), '%s from %s: %s, expected %s' % (what, f, got, want[f]), **info)
            got = draw(lambda: tuple(str(x) for x in m.sample(2, current=f)))
            two = {(x, y): want[f][x] * want[f][y] for x in want[f] for y in want[f]}
            expect(same_law(got, two), 'two from %s: %s, expected %s' % (f, got, two), **info)
        cur = [frm[-1], frm[0]]
        got = draw(lambda: tuple(str(x) for x in m.sample(2, currents=cur)))
        two = {(x, y): want[cur[0]][x] * want[cur[1]][y] for x in want[cur[0]] for y in want[cur[1]]}
        expect(same_law(got, two), 'one each from %s: %s, expected %s' % (cur, got, two), **info)
        expect_raises(KeyError, lambda: m('nowhere'), 'an unknown state has a successor', **info)
        expect(df.equals(was), 'the source changed', **info)
        expect(all(f in repr(m) for f in frm) and str(m), 'text form', **info)
        ST.state((tuple(rows),))
        ST.outcome(repr(sorted(want.items())))


def table(dims, first, depth):
    import pandas as pd
    from sims_pars.data import ConditionalProbabilityTable
    names = ['I%d' % i for i in range(len(dims))]
    combos = list(itertools.product(*[['%s%d' % (n.lower(), j) for j in range(d)] for n, d in zip(names, dims)]))
    n = len(combos)
    k = 0
    for rest in itertools.product(W if n < 6 else (1, 3), repeat=n - 2):
        k += 1
        ws = list(first) + list(rest)
        if not any(ws):
            continue
        for dup in ((False, True) if n < 6 else (bool(k % 2),)):
            rows = [c + (w,) for c, w in zip(combos, ws)]
            if dup:
                rows = rows[::-1] + [combos[0] + (2,)]
            df = pd.DataFrame(rows, columns=names + ['P'])
            was = df.copy()
            ref = {}
            for r in rows:
                key = tuple(sorted(zip(names, r[:-1])))
                ref[key] = ref.get(key, 0) + r[-1]
            info = dict(rows=rows)
            t = ConditionalProbabilityTable(df, names, 'P')
            explore(t, names, ref, depth, (), info, {})
            expect(df.equals(was), 'the source changed', **info)
            ST.outcome(repr(sorted(ref.items())))


def explore(t, names, ref, depth, hist, info, seen):
    inf = dict(info, history=hist)
    ST.state((repr(info), hist))
    expect(list(t.Indices) == list(names), 'indices %s, expected %s' % (t.Indices, names), **inf)
    got = draw(lambda: tuple(sorted((k, str(v)) for k, v in t().items())))
    want = exact(ref)
    expect(same_law(got, want), 'law %s, expected %s' % ({k: float(v) for k, v in got.items()}, {k: float(v) for k, v in want.items()}), **inf)
    if len(hist) == 0:
        if len(want) <= 4:
            two = draw(lambda: tuple(tuple(sorted((k, str(v)) for k, v in x.items())) for x in t.sample(2)))
            expect(same_law(two, {(a, b): want[a] * want[b] for a in want for b in want}), 'law of two samples %s' % two, **inf)
        expect(all(n in repr(t) for n in names), 'text form', **inf)
    if depth == 0:
        return
    for i in names:
        if len(names) > 1:
            new = {}
            for key, w in ref.items():
                kk = tuple(x for x in key if x[0] != i)
                new[kk] = new.get(kk, 0) + w
            explore(t.marginalise(i), [x for x in names if x != i], new, depth - 1, hist + (('sum', i),), info, seen)
        for val in sorted({dict(k)[i] for k in ref}):
            new = {tuple(x for x in key if x[0] != i): w for key, w in ref.items() if (i, val) in key}
            if not any(new.values()):
                continue
            explore(t.condition(**{i: val}), [x for x in names if x != i], new, depth - 1, hist + (('given', i, val),), info, seen)
    if len(names) > 1 and len(hist) == 0:
        key = max(ref, key=lambda k_: ref[k_])
        conds = dict(list(key)[:2])
        new = {tuple(x for x in k_ if x[0] not in conds): w for k_, w in ref.items() if all(kv in k_ for kv in conds.items())}
        explore(t.condition(**dict(reversed(list(conds.items())))), [x for x in names if x not in conds], new, 0, hist + (('given both', conds),), info, seen)
        same = t.condition(Other='x')
        explore(same, names, ref, 0, hist + (('given other',),), info, seen)
    # the table itself is as before
    got = draw(lambda: tuple(sorted((k, str(v)) for k, v in t().items())))
    expect(same_law(got, want), 'a table changed when conditioned or marginalised: %s' % got, **inf)


def at(ts, xs, t, kind):
    """Acceptable values of a series at a time."""
    pts = sorted(zip(ts, xs))
    if t <= pts[0][0]:
        return {pts[0][1]}
    if t >= pts[-1][0]:
        return {pts[-1][1]}
    for (a, x), (b, y) in zip(pts, pts[1:]):
        if a <= t <= b:
            if kind == 'linear':
                return {x + (y - x) * (t - a) / (b - a)}
            if kind == 'previous':
                return {y} if t == b else {x}
            return {x, y} if 2 * t == a + b else {x} if 2 * t < a + b else {y}


def series(order):
    import pandas as pd
    from sims_pars.data import LeeCarter, TimeSeries, TimeSeriesProbabilityTable, TimeSeriesVector
    n = len(order)
    qs = sorted({t + d for t in TIMES for d in (-3, -1.6, -0.5, -0.4, -0.001, 0, 0.001, 0.25, 0.6, 2, 40)})
    ts = [TIMES[i] for i in order]
    for k, (va, vb) in enumerate(itertools.product(itertools.permutations(VALS[:n]), (VALS[:n], VALS[n - 1::-1]))):
        xs, zs = [va[i] for i in order], [vb[i] for i in order]
        df = pd.DataFrame({'Year': ts, 'X': xs, 'Z': zs})
        was = df.copy()
        for kind in ('nearest', 'linear', 'previous', None):
            kw = {} if kind is None else {'kind': kind}
            kd = kind or 'nearest'
            info = dict(times=ts, values=xs, kind=kind)
            a = TimeSeries(df, 'Year', 'X', **kw)
            v = TimeSeriesVector(df, 'Year', ['X', 'Z'], **kw)
            for t in qs:
                x = at(ts, xs, t, kd)
                g = float(a(t))
                expect(any(close(g, w) for w in x), 'value at %s is %s, expected %s' % (t, g, x), **info)
                h = v(t)
                expect(set(h) == {'X', 'Z'} and any(close(float(h['X']), w) for w in x) and any(close(float(h['Z']), w) for w in at(ts, zs, t, kd)),
                       'vector at %s is %s' % (t, h), **info)
                tick('transitions', 2)
            expect(float(a.sample(t=ts[0])) == xs[0] and [float(q) for q in a.sample(2, t=ts[-1])] == [xs[-1]] * 2, 'samples of a series', **info)
            expect('X' in repr(a) and 'Year' in repr(a) and 'Z' in repr(v), 'text form', **info)
            ST.state((tuple(ts), tuple(xs), kind))
            tick('traces')
            # rates by age
            mt = pd.DataFrame({'Time': ts, 'Kappa': xs})
            ma = pd.DataFrame({'Age': ['0-4', '5+', 'all'], 'Alpha': [0.0, -1.0, 0.5], 'Beta': [0.1, 0.0, -0.2]})
            lc = LeeCarter(mt, ma, **kw)
            names = LeeCarter(mt.rename(columns={'Time': 'T', 'Kappa': 'K'}), ma.rename(columns={'Age': 'A', 'Alpha': 'al', 'Beta': 'be'}),
                              i_time='T', i_age='A', i_al='al', i_be='be', i_ka='K', **kw)
            for t in qs[::4]:
                for m in (lc, names):
                    r = m(t)
                    expect(set(r) == {'0-4', '5+', 'all'}, 'ages %s' % set(r), **info)
                    for age, al, be in zip(ma['Age'], ma['Alpha'], ma['Beta']):
                        ok = [math.exp(al + be * kap) for kap in at(ts, xs, t, kd)]
                        expect(any(close(float(r[age]), w) for w in ok) and close(float(m.get_rate(t, age)), float(r[age])),
                               'rate at %s, %s is %s, expected %s' % (t, age, r[age], ok), **info)
                        tick('transitions')
        expect(df.equals(was), 'the source changed', times=ts)
        ps = pd.DataFrame({'Year': ts, 'A': [1, 2, 3, 0][:n], 'B': [3, 2, 0, 1][:n]})
        if k < 3:
            pt = TimeSeriesProbabilityTable(ps, 'Year', ['A', 'B'])
            for t in qs:
                near = at(ts, list(range(n)), t, 'nearest')
                got = draw(lambda: str(pt(t)))
                ok = [exact({'A': int(ps['A'][i]), 'B': int(ps['B'][i])}) for i in near]
                expect(any(same_law(got, w) for w in ok), 'law at %s: %s, expected %s' % (t, got, ok), times=ts)


def function(k):
    from sims_pars.data.datafunction import AbsDataFunction

    class F(AbsDataFunction):
        def getSampler(self, **kwargs):
            return None
    cols, raw = (['a', 'b'], {'x': [1]}) if k else ([], [])
    f = F('F%d' % k, cols, raw)
    js = f.to_json()
    expect(f.NIndices == len(cols) and js['Name'] == 'F%d' % k and js['Selectors'] == cols and js['RawData'] == raw and js['Type'] == f.Type, 'JSON form %s' % js)
    from sims_pars.prob import CategoricalRV
    expect(isinstance(repr(CategoricalRV({'a': 1})), str) and isinstance(str(CategoricalRV({'a': 1})), str), 'text form of a distribution without source')
    tick('transitions')
    tick('traces')
    ST.state(('fun', k))
