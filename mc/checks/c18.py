"""Data models: serving, prior draws, free parameters and their domains; particles: scoring histories, copies; parameter sets."""
import itertools
import json
import math
from .. import fitkit, gen
from ..core import CH, ST, close, expect, expect_raises, law, tick

BOUNDS = {
    'quick': 'all networks with <=3 nodes x all sets of exogenous parameters containing the exogenous nodes x (script, network, '
             'JSON): law of prior draws, of serving every partial assignment, free parameters; 4^2 networks of typed roots x exo sets: '
             'free parameters and domains; histories of <=4 operations on a particle (7 operations); parameter sets of <=3 particles; histories of 4 '
             'scorings on and off target with the evaluations counted; histories of 4 operations on a chromosome (8 operations) with all records taken; tables of <=3 chromosomes',
    'thorough': 'as quick with all 4-node networks and particle, scoring and chromosome histories of 6 operations',
}
ASSUMPTIONS = ['mcflip stands for any distribution with real values', 'simulations are supplied by the user model; a pure function here']
GIV = (0.0, 7.5, -2.0, 11.0)


def jobs(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        for i, sh in enumerate(gen.shapes(n)):
            out.append(['net', gen.spec_of(sh, list(gen.SCHEMES)[i % 5]), i % 3])
    for kinds in itertools.product(ROOTS, repeat=2):
        out.append(['roots', list(kinds)])
    for first in OPS:
        out.append(['hist', [first], 4 if tier == 'quick' else 6])
    for n in (0, 1, 2, 3):
        out.append(['set', n])
    for miss in itertools.product((0, 1, 2), repeat=2):
        out.append(['score', list(miss), 4 if tier == 'quick' else 6])
    for first in COPS:
        out.append(['chrom', first, 4 if tier == 'quick' else 6])
    for n in (1, 2, 3):
        out.append(['genes', n])
    return out


def run(job):
    fitkit.quiet()
    if job[0] == 'net':
        return net(*job[1:])
    if job[0] == 'roots':
        return roots(job[1])
    if job[0] == 'hist':
        return hist(*job[1:])
    if job[0] == 'score':
        return scores(*job[1:])
    if job[0] == 'chrom':
        return chromosomes(*job[1:])
    if job[0] == 'genes':
        return genes(job[1])
    return collection(job[1])


# ---------------------------------------------------------------- models
def model_class(sim, data=None):
    from sims_pars.fit.base import DataModel, Particle

    class M(DataModel):
        def simulate(self, pars):
            return Particle(pars, sim(pars))
    return M


def source(spec, how):
    if how == 0:
        return gen.script(spec)
    if how == 1:
        return gen.build(spec)
    return json.loads(json.dumps(gen.build(spec).to_json()))


def net(spec, how):
    names = [nd[0] for nd in spec]
    ex = gen.exo(spec)
    for add in gen.subsets([n for n in names if n not in ex]):
        exo = {n: GIV[names.index(n) % 4] for n in list(ex) + list(add)}
        keep = dict(exo)
        CH.start(())
        m = model_class(lambda p: {})({}, source(spec, how), exo=exo if exo else None)
        CH.stop()
        info = dict(exo=exo, spec=spec)
        roots = [nd[0] for nd in spec if nd[1] == 'R' and all(gen.by_name(spec)[a][1] != 'R' for a in gen.ancestors(spec, nd[0]))]
        expect(set(m.BayesianNetwork.RVRoots) == set(roots), 'roots %s, expected %s' % (m.BayesianNetwork.RVRoots, roots), **info)
        expect(sorted(m.FreeParameters) == sorted(r for r in roots if r not in exo),
               'free parameters %s, expected the random roots %s without %s' % (m.FreeParameters, roots, list(exo)), **info)
        # prior draws
        one(spec, m.sample_prior, exo, 'prior draws', info)
        # serving
        for sub in gen.subsets(names, 0, 2 if len(names) < 4 else 1):
            p = {n: 3.0 + names.index(n) for n in sub}
            arg = dict(p)
            one(spec, lambda: m.serve(arg), dict(p, **exo), 'serving %s' % p, info)
            expect(arg == p, 'serve() altered its argument', **info)
        expect(exo == keep and m.ExoParameters == keep, 'the exogenous values were altered', **info)
        # stored parameters
        CH.start(())
        c = m.sample_prior()
        js = json.loads(json.dumps(c.to_json(), default=float))
        r = m.serve_from_json(js)
        expect(gen.canon(r.Locus) == gen.canon(c.Locus) and close(r.LogProb, c.LogProb), 'stored parameters %s come back as %s' % (js, r.to_json()), **info)
        js['LogProb'] = -123.5
        r = m.serve_from_json(js)
        expect(r.LogProb == -123.5, 'the stored log probability is not kept: %s' % r.LogProb, **info)
        # evaluation on demand
        c.reset_probability()
        lp = m.evaluate_prior(c)
        expect(close(lp, gen.logpdf(spec, c.Locus)) and close(c.LogProb, lp), 'log prior %s, expected %s' % (lp, gen.logpdf(spec, c.Locus)), **info)
        c.LogProb = -77.0
        expect(m.evaluate_prior(c) == -77.0, 'a known log prior is evaluated again', **info)
        CH.stop()
        tick('transitions', 6)
        ST.state((spec, sorted(exo)))
        if ex:
            CH.start(())
            expect_raises(ValueError, lambda: model_class(lambda p: {})({}, source(spec, how)), 'a model without its exogenous inputs', **info)
            CH.stop()
    ST.sample({'script': gen.script(spec), 'source': how})


def one(spec, call, given, what, info):
    def key(c):
        expect(close(c.LogProb, gen.logpdf(spec, c.Locus)), '%s: log probability %s of %s, expected %s' % (
            what, c.LogProb, dict(c), gen.logpdf(spec, c.Locus)), **info)
        return gen.canon(c.Locus)
    got, k = law(call, key)
    ref = gen.joint(spec, given)
    expect(got == ref, '%s: law %s, expected %s' % (what, fmt(got), fmt(ref)), **info)
    tick('transitions', k)
    tick('traces', k)
    ST.outcome(sorted(got.items()))


def fmt(lw):
    return {str(dict(k)): str(v) for k, v in sorted(lw.items())[:6]}


# ---------------------------------------------------------------- typed roots
ROOTS = {
    'unif': ('unif(2, 6)', True, 2, 6, 4, 2 / math.sqrt(3)),
    'norm': ('norm(1, 3)', True, -math.inf, math.inf, 1, 3),
    'exp': ('exp(0.5)', True, 0, math.inf, 2, 2),
    'beta': ('beta(2, 2)', True, 0, 1, 0.5, math.sqrt(0.05)),
    'triangle': ('triangle(1, 2, 3)', True, 1, 3, 2, math.sqrt(1 / 6)),
    'flip': ('mcflip(4, 2)', True, 4, 6, 5.5, math.sqrt(3) / 2),
    'binom': ('binom(3, 0.5)', False),
    'cat': ('cat({"u": 1, "v": 3})', False),
}


def roots(kinds):
    from sims_pars.fit.base import Domain
    ns = ['p%d' % i for i in range(len(kinds))]
    scr = 'PCore M {\n' + '\n'.join('%s ~ %s' % (n, ROOTS[k][0]) for n, k in zip(ns, kinds)) + '\nkid ~ norm(%s, 1)\nq = 2\n}' % (
        ns[0] if ROOTS[kinds[0]][1] else 0)
    for exo in gen.subsets(ns):
        from .. import rnd
        CH.start(())
        with rnd.owned():
            m = model_class(lambda p: {})({}, scr, exo={e: 2.5 for e in exo})
            dom = m.Domain
        CH.stop()
        want = [n for n, k in zip(ns, kinds) if n not in exo and ROOTS[k][1]]
        # a node resting on nothing but fixed inputs is a root as well
        if not ROOTS[kinds[0]][1]:
            want = want + ['kid']
        info = dict(script=scr, exo=list(exo))
        expect(sorted(m.FreeParameters) == sorted(want), 'free parameters %s, expected %s' % (m.FreeParameters, want), **info)
        expect(sorted(d.Name for d in dom) == sorted(want), 'domains of %s, expected those of %s' % ([d.Name for d in dom], want), **info)
        expect([d.Name for d in dom] == list(m.FreeParameters), 'domains are not in the order of the free parameters', **info)
        for d in dom:
            if d.Name == 'kid':
                lo, hi, mu, sd = -math.inf, math.inf, 0, 1
            else:
                _, _, lo, hi, mu, sd = ROOTS[kinds[ns.index(d.Name)]]
            expect(isinstance(d, Domain) and close(d.Lower, lo) and close(d.Upper, hi) and close(d.Location, mu) and close(d.Scale, sd),
                   'domain %s, expected [%s, %s], mean %s, sd %s' % (d, lo, hi, mu, sd), **info)
        tick('transitions', 2)
        tick('traces')
        ST.state((tuple(kinds), exo))
    ST.sample({'script': scr})


# ---------------------------------------------------------------- particles
OPS = ('flatten', 'distance', 'likelihood', 'copy', 'json', 'note', 'oldcopy')


def targets():
    from sims_pars.fit.targets import AbsSingleData

    class T(AbsSingleData):
        def get_var_obs(self):
            return 1.0

        def calc_distance(self, sim):
            return abs(sim[self.Name] - self.Value)

        def calc_likelihood(self, sim):
            return -(sim[self.Name] - self.Value) ** 2 / 7
    return {'y1': T('y1', 4.0), 'y2': T('y2', -1.0)}


SCR = 'PCore M {\nx ~ mcflip(1, 2)\nz = x * 2\nu ~ mcflip(z, 1)\n}'


class Ref:
    def __init__(self, pars, sims):
        self.pars, self.sims, self.notes = dict(pars), dict(sims), {}

    def dist(self):
        return abs(self.sims['y1'] - 4.0) + abs(self.sims['y2'] + 1.0)

    def lik(self):
        return -((self.sims['y1'] - 4.0) ** 2 + (self.sims['y2'] + 1.0) ** 2) / 7

    def flat(self):
        self.notes['Xs'] = [self.pars['x']]
        self.notes['Ys'] = {'y1': self.sims['y1'], 'y2': self.sims['y2']}


def check(pt, ref, what, info):
    expect(gen.canon(pt.Pars.Locus) == gen.canon(ref.pars), '%s: parameters %s, expected %s' % (what, dict(pt.Pars), ref.pars), **info)
    expect(dict(pt.Sims) == ref.sims, '%s: simulation %s, expected %s' % (what, pt.Sims, ref.sims), **info)
    got = {k: pt.Notes[k] for k in pt.Notes}
    for k, v in ref.notes.items():
        expect(k in got, '%s: note %s is missing' % (what, k), **info)
        g = got[k]
        ok = close(g, v) if isinstance(v, float) else (list(map(float, g)) == v if isinstance(v, list) else
                                                       {a: float(b) for a, b in g.items()} == v if isinstance(v, dict) else g == v)
        expect(ok, '%s: note %s is %r, expected %r' % (what, k, g, v), **info)
        expect(pt[k] is got[k], '%s: pt[%s]' % (what, k), **info)


def hist(first, depth):
    from sims_pars.fit.base import Particle
    calls = []

    def sim(p):
        calls.append(1)
        return {'y1': p['x'] + 2.5, 'y2': p['u'] * 2.0, 'other': 99.0}
    CH.start(())
    m = model_class(sim)(targets(), SCR)
    CH.stop()
    if first == ['flatten']:
        pt = m.simulate(m.sample_prior())
        del pt.Sims['y2']
        expect_raises(KeyError, lambda: m.calc_distance(pt), 'scoring a simulation that lacks a target')
        expect_raises(KeyError, lambda: m.calc_likelihood(m.simulate(m.sample_prior()).copy() if False else pt), 'likelihood of a simulation that lacks a target')
    for r in range(depth):
        for rest in itertools.product(OPS, repeat=r):
            ops = list(first) + list(rest)
            CH.start((1, 0))
            c = m.sample_prior()
            CH.start(())
            pt = m.simulate(c)
            ref = Ref(dict(c), {'y1': c['x'] + 2.5, 'y2': c['u'] * 2.0, 'other': 99.0})
            others = []
            for i, op in enumerate(ops):
                info = dict(history=ops[:i + 1])
                n0 = len(calls)
                pt, ref = step(m, pt, ref, op, others, info, i)
                expect(len(calls) == n0, '%s ran a simulation' % op, **info)
                check(pt, ref, 'after %s' % op, info)
                for j, (o, rf) in enumerate(others):
                    check(o, rf, 'another particle after %s' % op, info)
                tick('transitions')
            tick('traces')
            ST.state((tuple(ops), sorted(ref.notes)))
            CH.stop()
    ST.sample({'histories starting with': first, 'depth': depth})


def step(m, pt, ref, op, others, info, i):
    from sims_pars.fit.base import Particle
    if op == 'flatten':
        m.flatten(pt)
        ref.flat()
    elif op in ('distance', 'likelihood'):
        key = 'distance' if op == 'distance' else 'log_lik'
        want = ref.dist() if op == 'distance' else ref.lik()
        got = (m.calc_distance if op == 'distance' else m.calc_likelihood)(pt)
        expect(close(got, want), '%s %s, expected %s' % (op, got, want), **info)
        ref.notes[key] = want
    elif op == 'copy':
        q = pt.copy()
        r = Ref(ref.pars, ref.sims)
        for k in ('Xs', 'Ys'):
            if k in ref.notes:
                r.notes[k] = ref.notes[k]
        expect(q is not pt and q.Pars is not pt.Pars and q.Pars.Locus is not pt.Pars.Locus and q.Notes is not pt.Notes, 'a copy shares its parameters or notes', **info)
        expect(isinstance(q, Particle) and fitkit.close(q.Pars.LogProb, pt.Pars.LogProb), 'copy: log probability', **info)
        others.append((pt, ref))
        # marks on the copy stay on the copy
        q.Pars['x'] = r.pars['x'] = 40.0 + i
        q['mark'] = r.notes['mark'] = 'c%d' % i
        return q, r
    elif op == 'oldcopy':
        if others:
            others.append((pt, ref))
            return others.pop(0)
    elif op == 'json':
        js = pt.to_json()
        text = json.dumps({'Pars': js['Pars'], 'Sims': js['Sims'], 'Notes': js['Notes']}, default=float)
        q = Particle.from_json(json.loads(text))
        r = Ref(ref.pars, ref.sims)
        r.notes = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in ref.notes.items()}
        expect(fitkit.close(q.Pars.LogProb, pt.Pars.LogProb), 'JSON form: log probability %s, was %s' % (q.Pars.LogProb, pt.Pars.LogProb), **info)
        # read back without going through text: a copy all the same
        q2 = Particle.from_json(pt.to_json())
        q2.Pars['x'] = 55.0
        q2['mark'] = 'zz'
        q2.Sims['other'] = 1.0
        others.append((pt, ref))
        return q, r
    elif op == 'note':
        pt['mine'] = ref.notes['mine'] = 'n%d' % i
    return pt, ref


# ---------------------------------------------------------------- parameter sets
def collection(n):
    from sims_pars.fit.base import Particle
    from sims_pars.fit.results import ParameterSet
    from sims_pars.bayesnet import Chromosome
    CH.start(())
    m = model_class(lambda p: {'y1': p['x'] + 2.5, 'y2': p['u'] * 2.0, 'other': 99.0})(targets(), SCR)
    for vals in itertools.product((1.0, 3.0), repeat=2 * n):
        ps = ParameterSet('Alg')
        want, pred = [], []
        for i in range(n):
            c = m.serve({'x': vals[2 * i], 'u': vals[2 * i + 1] + 2 * vals[2 * i]})
            pt = m.simulate(c)
            m.flatten(pt)
            ps.append(pt)
            want.append({'x': vals[2 * i], 'z': 2 * vals[2 * i], 'u': vals[2 * i + 1] + 2 * vals[2 * i]})
            pred.append({'y1': want[-1]['x'] + 2.5, 'y2': want[-1]['u'] * 2})
        info = dict(values=vals)
        expect(len(ps) == n, 'size %d of a set of %d particles' % (len(ps), n), **info)
        if n:
            rows = ps.to_df().to_dict('records')
            expect([gen.canon(r) for r in rows] == [gen.canon(w) for w in want], 'table %s, expected %s' % (rows, want), **info)
            rows = ps.to_pred_df().to_dict('records')
            expect([gen.canon(r) for r in rows] == [gen.canon(w) for w in pred], 'predictions %s, expected %s' % (rows, pred), **info)
        ps.keep('Eps', 0.5)
        ps.keep('Eps', 0.25)
        ps.keep('Acc', 1)
        expect(ps['Eps'] == 0.25 and ps['Acc'] == 1, 'notes %s' % ps.Notes, **info)
        js = ps.to_json()
        expect(js['Algorithm'] == 'Alg' and js['Notes'] == {'Eps': 0.25, 'Acc': 1} and
               [gen.canon(r) for r in js['Posterior']] == [gen.canon(w) for w in want], 'JSON form %s' % js, **info)
        js['Notes']['Eps'] = js['Settings']['n'] = 7
        for r in js['Posterior']:
            r['x'] = -1
        js = ps.to_json()
        expect(js['Notes'] == {'Eps': 0.25, 'Acc': 1} and js['Settings'] == {} and
               [gen.canon(r) for r in js['Posterior']] == [gen.canon(w) for w in want], 'changing the JSON form changed the set: %s' % js, **info)
        tick('transitions', 4)
        tick('traces')
        ST.state((n, vals))
    CH.stop()
    ST.sample({'particles': n})


# ---------------------------------------------------------------- scores are computed once
def scores(miss, depth):
    """Particles at (or off) their targets: whatever the score is (0 included), it is computed from the targets once."""
    from sims_pars.fit.base import Particle
    from sims_pars.fit.targets import AbsSingleData
    calls = {'d': 0, 'l': 0}

    class T(AbsSingleData):
        def get_var_obs(self):
            return 1.0

        def calc_distance(self, sim):
            calls['d'] += 1
            return abs(sim[self.Name] - self.Value)

        def calc_likelihood(self, sim):
            calls['l'] += 1
            return -(sim[self.Name] - self.Value) ** 2
    ys = {'y%d' % i: 1.0 + m for i, m in enumerate(miss)}
    CH.start((0,))
    m = model_class(lambda p: dict(ys))({k: T(k, 1.0) for k in ys}, SCR)
    wd, wl = float(sum(miss)), -float(sum(v * v for v in miss))
    for ops in itertools.product(('d', 'l', 'json', 'copy'), repeat=depth):
        CH.start(())
        pt = m.simulate(m.serve({'x': 1.0, 'u': 1.0}))
        calls.update(d=0, l=0)
        known = {'d': 0, 'l': 0}
        for i, op in enumerate(ops):
            info = dict(values=ys, target=1.0, history=ops[:i + 1])
            if op == 'json':
                pt = Particle.from_json(json.loads(json.dumps(pt.to_json(), default=float)))
            elif op == 'copy':
                pt = pt.copy()
                known = {'d': 0, 'l': 0} if 'distance' not in pt.Notes and 'log_lik' not in pt.Notes else known
                calls.update(d=0, l=0)
            else:
                got = m.calc_distance(pt) if op == 'd' else m.calc_likelihood(pt)
                want = wd if op == 'd' else wl
                expect(close(got, want), 'score %s, expected %s' % (got, want), **info)
                known[op] = 1
            for k in 'dl':
                expect(calls[k] <= len(ys) * known[k], 'a kept score was computed again', **info)
            tick('transitions')
        tick('traces')
        ST.state((tuple(miss), ops))
        CH.stop()
    ST.sample({'distance to the targets': miss, 'depth': depth})


# ---------------------------------------------------------------- records of chromosomes
COPS = ('set', 'impulse', 'same', 'clone', 'json', 'score', 'data', 'swap')


def cview(c):
    return dict(c.Locus), None if math.isnan(c.LogProb) else c.LogProb


def chromosomes(first, depth):
    """Histories of changes to a chromosome and of the forms taken of it: each form is what the chromosome was at that time."""
    from sims_pars.bayesnet import Chromosome
    for rest in itertools.product(COPS, repeat=depth - 1):
        ops = [first] + list(rest)
        cur = Chromosome({'a': 1.0, 'b': 2, 'c': 'yes'}, -1.5)
        ref = ({'a': 1.0, 'b': 2, 'c': 'yes'}, -1.5)
        others, forms = [], []
        for i, op in enumerate(ops):
            info = dict(history=ops[:i + 1])
            if op == 'set':
                cur['a'] = 10.0 + i
                ref = (dict(ref[0], a=10.0 + i), None)
            elif op == 'impulse':
                cur.impulse({'b': 20 + i, 'zz': 1})
                ref = (dict(ref[0], b=20 + i), None)
            elif op == 'same':
                cur.impulse({'zz': 5})
            elif op == 'score':
                cur.LogProb = -float(i)
                ref = (ref[0], -float(i))
            elif op == 'clone':
                others.append((cur, ref))
                cur = cur.clone()
            elif op == 'swap':
                if others:
                    others.append((cur, ref))
                    cur, ref = others.pop(0)
            elif op == 'json':
                js = cur.to_json()
                forms.append((js, lambda j, r: (j['Locus'], j['LogProb'] if r[1] is not None else None if math.isnan(j['LogProb']) else j['LogProb']) == (r[0], r[1]), ref, info))
                others.append((Chromosome.from_json(js), ref))
                js2 = cur.to_json()
                back = Chromosome.from_json(js2)
                js2['Locus']['a'] = -99
                expect(cview(back) == ref, 'changing the record read changed the chromosome read from it: %s' % (cview(back),), **info)
            else:
                js = cur.to_data()
                want = dict(ref[0]) if ref[1] is None else dict(ref[0], LogProb=ref[1])
                forms.append((js, lambda j, r: j == r, want, info))
                cur.to_data()['a'] = -98
            expect(cview(cur) == ref, 'chromosome %s, expected %s' % (cview(cur), ref), **info)
            expect(bool(cur) and len(cur) == len(ref[0]) and list(cur) == list(ref[0].items()) and set(cur.keys()) == set(ref[0]) and
                   all(cur[k] == v and k in cur for k, v in ref[0].items()) and 'zz' not in cur, 'listing of a chromosome', **info)
            expect(cur.is_evaluated() == (ref[1] is not None), 'evaluated: %s' % cur.is_evaluated(), **info)
            for o, r in others:
                expect(cview(o) == r, 'another chromosome became %s, was %s' % (cview(o), r), **info)
            for f, same, r, when in forms:
                expect(same(f, r), 'a record taken before became %s, was %s' % (f, r), taken=when['history'], **info)
            tick('transitions')
        tick('traces')
        ST.state((tuple(ops), str(ref)))
    empty = Chromosome()
    expect(bool(empty) and len(empty) == 0 and not empty.is_evaluated() and str(empty) == 'empty', 'the empty chromosome')
    ST.sample({'histories starting with': first, 'depth': depth})


def genes(n):
    """Tables over chromosomes: one row each, in order; means by column."""
    from sims_pars.bayesnet import Chromosome
    grid = list(itertools.product((1.0, 4.0), (0, -3), (None, -2.0)))
    for pick in itertools.product(grid, repeat=n):
        gs = [Chromosome({'a': a, 'b': b}) if lp is None else Chromosome({'a': a, 'b': b}, lp) for a, b, lp in pick]
        info = dict(chromosomes=pick)
        rows = Chromosome.to_data_frame(gs).to_dict('records')
        expect(len(rows) == n, 'table of %d rows' % len(rows), **info)
        for r, (a, b, lp) in zip(rows, pick):
            expect(r['a'] == a and r['b'] == b and (r['LogProb'] == lp if lp is not None else ('LogProb' not in r or math.isnan(r['LogProb']))) and
                   set(r) <= {'a', 'b', 'LogProb'}, 'row %s of (%s, %s, %s)' % (r, a, b, lp), **info)
        mean = Chromosome.mean(gs)
        expect(set(mean) == {'a', 'b'} and close(mean['a'], sum(p[0] for p in pick) / n) and close(mean['b'], sum(p[1] for p in pick) / n), 'means %s' % mean, **info)
        if pick[0] == grid[0]:
            s = Chromosome.summarise(gs)
            expect(set(s.columns) == {'a', 'b'} and close(s['a']['mean'], mean['a']) and s['b']['count'] == n and
                   s['b']['min'] == min(p[1] for p in pick) and s['b']['max'] == max(p[1] for p in pick), 'summary', **info)
        tick('transitions', 3)
        tick('traces')
        ST.state(pick)
    ST.sample({'chromosomes': n})
