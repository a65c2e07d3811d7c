"""Failures: every draw, density, simulation and distance of an operation fails once; nothing is hidden, nothing false stays behind."""
import math
import sys
from .. import core, fitkit, gen, rnd, sim
from ..core import CH, ST, close, expect, law, tick
from . import c04, c16, c24

BOUNDS = {
    'quick': 'all networks with <=3 nodes: every failure point of sampling, evaluating, minimal sampling and every single or pair intervention; simulation cores: '
             'all networks with <=2 nodes and a fifth of those with 3, strides of the requests on one, chain and fork, every failure point of generating, breeding, '
             'every third intervention, samplers; data models: every failure point of serving and scoring; 3 fitters x 2 settings x every failing draw or simulation '
             '(<= 150 points, then every fifth), on a new fitter and after another fit, then two fits of either model',
    'thorough': 'all networks with <= 3 nodes on all strides and every intervention; 4 fits after the failure',
}
ASSUMPTIONS = ['failures are exceptions of their own kind (not look-up errors, nor the ValueError by which ABC-SMC is told of an impossible proposal)',
               'a failed intervention may have been applied in part; it is complete once it has been repeated']


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            spec = gen.spec_of(sh, list(gen.SCHEMES)[i % 5])
            out.append(['chrom', spec])
            if n < 3 or i % 5 == 0 or tier != 'quick':
                for t in ('one', 'chain', 'fork'):
                    mod = 3 if n < 3 else 17
                    out.append(['core', t, spec, 1 if tier != 'quick' and n < 3 else mod, i % mod if tier == 'quick' or n == 3 else 0, 3 if tier == 'quick' else 1])
    out.append(['model'])
    for f in c24.KW:
        for v in range(2):
            for part in range(8):
                out.append(['fit', f, v, part, 2 if tier == 'quick' else 4])
    return out


def run(job):
    gen.install()
    {'chrom': chrom, 'core': cores, 'model': model, 'fit': fit}[job[0]](*job[1:])
    ST.sample({'job': job})


def failing(fn, k, pattern=(0, 1, 1), **info):
    """Run fn with its k-th draw or density failing and fixed answers before; True if there was such a point."""
    gen.FAULT[:] = [k]
    gen.FORCE[:] = list(pattern)
    try:
        fn()
    except gen.Fault:
        return True
    finally:
        hit = not gen.FAULT
        del gen.FAULT[:], gen.FORCE[:]
    expect(not hit, 'the failure of answer %d was hidden' % k, **info)
    return False


def again(fn, k, key, **info):
    """Law of fn right after its k-th answer failed."""
    def once():
        failing(fn, k, **info)
        return key(fn())
    got, n = law(once)
    tick('transitions', n)
    return got


def points(fn_of, **info):
    """k, result of fn_of() set up afresh, for every failure point."""
    for k in range(200):
        state, fn = fn_of()
        if not failing(fn, k, **info):
            return
        tick('failures')
        tick('transitions')
        yield k, state


def chrom(spec):
    from sims_pars.bayesnet import Chromosome
    from sims_pars.fn import evaluate_nodes, sample, sample_chromosome, sample_minimally
    bn = gen.build(spec)
    text = bn.to_script()
    exo = {e: 7 + i for i, e in enumerate(gen.exo(spec))}
    names = [nd[0] for nd in spec]
    vals = dict(exo)
    for nd in spec:
        if nd[1] != 'E':
            vals[nd[0]] = gen.outcomes(nd, vals)[-1][0]
    lp = gen.logpdf(spec, vals)

    # functions: the values given and the network stay, and the next call is as good as the first
    info = dict(script=gen.script(spec))
    for label, call in (('sample', lambda g: sample(bn, g)), ('sample_chromosome', lambda g: sample_chromosome(bn, g)),
                        ('sample_minimally', lambda g: sample_minimally(bn, [names[-1]], g)), ('evaluate_nodes', lambda g: evaluate_nodes(bn, g))):
        given = dict(vals) if label == 'evaluate_nodes' else dict(exo)
        keep = gen.canon(given)
        ref, _ = law(lambda: repr(norm(call(dict(given)))))
        for k, _ in points(lambda: (None, lambda: call(given)), call=label, **info):
            expect(gen.canon(given) == keep and bn.to_script() == text, '%s failed and changed its input' % label, point=k, **info)
            got = again(lambda: call(given), k, lambda r: repr(norm(r)), **info)
            expect(got == ref, '%s right after a failure: %s, expected %s' % (label, got, ref), point=k, **info)
        got, _ = law(lambda: repr(norm(call(given))))
        expect(got == ref, '%s after a failure: %s, expected %s' % (label, got, ref), **info)
        tick('traces')

    for imp, with_bn in c04.operations(names):
        if not with_bn:
            continue
        ref, keeps = c04.reference(spec, vals, imp, True)
        info = dict(script=gen.script(spec), values=vals, impulse=imp)
        touched = set(imp).union(*[gen.descendants(spec, x) for x in imp if x in names])

        def setup():
            ch = Chromosome(dict(vals), lp)
            return ch, lambda: ch.impulse(imp, bn)
        for k, ch in points(setup, **info):
            now = dict(ch)
            expect(list(now) == list(vals), 'the set of loci changed', point=k, **info)
            for n in names:
                expect(n in touched or now[n] == vals[n], '%s changed although nothing upstream was touched' % n, point=k, **info)
                expect(imp.get(n) is None or now[n] in (vals[n], imp[n]), '%s is neither as before nor as given' % n, point=k, **info)
            expect(not ch.is_evaluated() or close(ch.LogProb, gen.logpdf(spec, {n: now[n] for n in names})),
                   'after the failure of answer %d the chromosome still reports the density %s of values it no longer has' % (k, ch.LogProb), now=now, **info)

            def once():
                c = Chromosome(dict(now), math.nan)
                c.impulse(imp, bn)
                return gen.canon(dict(c))
            got, c = law(once)
            expect(got == ref, 'the intervention repeated after a failure: %s, expected %s' % (got, ref), point=k, **info)
            tick('transitions', c)
            tick('traces')
            ST.state((spec, sorted(imp.items(), key=str), k))
            ST.outcome(sorted(got))


def norm(x):
    if hasattr(x, 'Locus'):
        return [sorted((k, float(v)) for k, v in x.Locus.items()), None if math.isnan(x.LogProb) else round(x.LogProb, 9)]
    if isinstance(x, dict):
        return sorted((k, float(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return round(float(x), 9)


def cores(tree, spec, mod, off, stride):
    for j, groups in enumerate(sim.configs(tree, spec)):
        if j % mod == off and sim.valid(spec, groups):
            family(spec, groups, j, stride)


def family(spec, groups, j, stride):
    info = dict(script=gen.script(spec), groups=groups)
    bn = gen.build(spec)
    sc = sim.build(bn, groups)
    exo = {e: 7 + i for i, e in enumerate(gen.exo(spec))}
    pat = ([0], [1], [1, 0])[j % 3]

    def start(ready):
        gen.FORCE[:] = pat
        try:
            pcs = sim.grow(sc, groups, exo)
            for p in pcs.values():
                if ready:
                    p.get_samplers()
                    p.get_samplers(False)
        finally:
            del gen.FORCE[:]
        return pcs
    pcs = start(False)
    keys = sim.keys_of(pcs)

    # generating and breeding: a failure leaves no one behind, and the next attempt is as good as the first
    ref, _ = law(lambda: sim.snap(sim.grow(sc, groups, exo)))
    given = dict(exo)
    for k, _ in points(lambda: (None, lambda: sc.generate('r', given)), at='generating', **info):
        expect(given == exo, 'generating failed and changed the values given', point=k, **info)
    for i, (name, up, _, _) in enumerate(groups):
        if up is None:
            continue
        parent = 'r' if up == 0 else [p for p in pcs if sim.group_of(p, groups) == up][0]

        def setup():
            cs = start(j % 2)
            return cs, lambda: cs[parent].breed('new', name)
        for k, cs in points(setup, at='breeding ' + name, **info):
            expect('new' not in cs[parent].Children and sim.snap({p: c for p, c in cs.items()}) == sim.snap(start(False)),
                   'a child whose generation failed stays behind', point=k, **info)
            state = {p: dict(v) for p, v in sim.unsnap(sim.snap(cs)).items()}

            def once():
                c2 = start(j % 2)
                gen.FAULT[:], gen.FORCE[:] = [k], [0, 1, 1]
                try:
                    c2[parent].breed('new', name)
                except gen.Fault:
                    pass
                finally:
                    del gen.FAULT[:], gen.FORCE[:]
                return gen.canon(c2[parent].breed('new', name).Locus)
            got, n = law(once)
            want, _ = law(lambda: gen.canon(start(False)[parent].breed('new', name).Locus))
            expect(got == want, 'breeding after a failure: %s, expected %s' % (got, want), point=k, state=str(state), **info)
            tick('transitions', n)
    got, _ = law(lambda: sim.snap(sim.grow(sc, groups, exo)))
    expect(got == ref, 'law of the values after failures: %s, expected %s' % (got, ref), **info)
    tick('traces', 2)

    # samplers: a failed draw changes nothing, nor does the next one notice
    cs = start(False)
    before = sim.snap(cs)
    for p, c in cs.items():
        for sh in (True, False):
            for nm, s in c.get_samplers(sh).items():
                want, _ = law(lambda: gen.num(s()))
                for k, _ in points(lambda: (None, s), at='sampler %s of %s' % (nm, p), **info):
                    expect(sim.snap(cs) == before, 'a sampler failed and changed a core', point=k, **info)
                    got = again(s, k, gen.num, **info)
                    expect(got == want, 'sampler %s of %s right after a failure: %s, expected %s' % (nm, p, got, want), point=k, **info)
                got, _ = law(lambda: gen.num(s()))
                expect(got == want, 'sampler %s of %s after a failure: %s, expected %s' % (nm, p, got, want), **info)
    fresh = start(False)
    for p, c in fresh.items():
        for k, _ in points(lambda: (None, lambda: (c.get_samplers(), c.get_samplers(False))), at='obtaining samplers', **info):
            pass
    sim.check_samplers(spec, groups, fresh, info)

    # interventions: once repeated, it is as if the first attempt had not been made
    state = sim.unsnap(sim.snap(start(False)))
    for m, (at, imp) in enumerate(c16.operations(pcs, exo)):
        if (m + j) % stride or not imp:
            continue
        want = sim.ref_impulse(spec, groups, state, at, imp)
        sub = [p for p in pcs if at in sim.lineage(p)]
        ops = dict(at=at, impulse=imp, before=str(state), **info)

        def setup():
            cs = start(True)
            return cs, lambda: cs[at].impulse(imp)
        for k, cs in points(setup, **ops):
            now = sim.unsnap(sim.snap(cs))
            touched = set(imp).union(*[gen.descendants(spec, x) for x in imp])
            for p in now:
                expect(set(now[p]) == set(state[p]), 'the set of values of %s changed' % p, point=k, **ops)
                for n, v in now[p].items():
                    expect(n in touched and p in sub or v == state[p][n], '%s of %s changed although nothing upstream was touched' % (n, p), point=k, **ops)

            def once():
                c2 = start(True)
                gen.FAULT[:], gen.FORCE[:] = [k], [0, 1, 1]
                try:
                    c2[at].impulse(imp)
                except gen.Fault:
                    pass
                finally:
                    del gen.FAULT[:], gen.FORCE[:]
                c2[at].impulse(imp)
                for p in c2:
                    lp = sim.prior_of(spec, sim.unsnap(sim.snap(c2)), p, keys[p] - set(exo) if p == 'r' else keys[p])
                    expect(close(c2[p].LogPrior, lp), 'prior of %s is %s, expected %s' % (p, c2[p].LogPrior, lp), point=k, **ops)
                last.append(c2)
                return sim.snap(c2)
            last = []
            got, n = law(once)
            expect(got == want, 'the intervention repeated after a failure: %s, expected %s' % (got, want), point=k, **ops)
            if k % 2 == 0:
                sim.check_samplers(spec, groups, last[-1], dict(ops, point=k))
            tick('transitions', n)
            tick('traces')
            ST.state((spec, groups, at, str(imp), k))
            ST.outcome(sorted(got))


def model():
    """Data models: serving, scoring prior, distance and likelihood."""
    fitkit.quiet()
    from sims_pars.fit.base import DataModel, Domain, Particle
    from sims_pars.fit.targets import AbsSingleData, read_targets
    doms = [Domain('x')]

    class Sims(dict):
        def __getitem__(self, k):
            gen.trip()
            return dict.__getitem__(self, k)

    class Near(AbsSingleData):
        """A target whose distance and likelihood may fail."""
        def get_var_obs(self):
            return 1.0

        def calc_distance(self, sim):
            gen.trip()
            return abs(sim[self.Name] - self.Value)

        def calc_likelihood(self, sim):
            gen.trip()
            return -abs(sim[self.Name] - self.Value)

    for scr in ('PCore A {\nx ~ mcflip(0, 1)\ny ~ mcflip(x, 2)\nz = x + y\n}', 'PCore A {\nk = 2\nx ~ mcflip(k, 1)\nw ~ mcflip(e, 1)\n}'):
        class M(DataModel):
            def simulate(self, pars):
                gen.trip()
                return Particle(pars, Sims(a=pars['x'] + 1.0, b=pars['x'] - 1.0, a1=0.0, b1=0.0))
            Domain = doms
        gen.FORCE[:] = [0]
        tar = {'a': 1.5, 'b': {'m': 2.0, 'l': 1.5, 'u': 2.5}}
        m = M(read_targets(tar), scr, exo={'e': 3} if 'e' in scr.split('mcflip')[2] else {})
        rated = M(read_targets({'a': 'norm(1, 1)', 'b': 'mcflip(0, 1)'}), scr, exo=m.ExoParameters)
        del gen.FORCE[:]
        m.Data['a1'], rated.Data['a1'] = Near('a', 1.25), Near('a', 1.25)
        m.Data['b1'], rated.Data['b1'] = Near('b', 2.25), Near('b', 2.25)
        prof = c24.profile(m)
        free = {'x': 1.0}
        for label, call in (('serve', lambda: m.serve(free)), ('sample_prior', m.sample_prior)):
            want, _ = law(lambda: repr(norm(call())))
            for k, _ in points(lambda: (None, call), call=label, script=scr):
                expect(free == {'x': 1.0} and c24.profile(m) == prof, '%s failed and changed its input' % label, point=k, script=scr)
                got = again(call, k, lambda r: repr(norm(r)), script=scr)
                expect(got == want, '%s right after a failure: %s, expected %s' % (label, got, want), point=k, script=scr)
            got, _ = law(lambda: repr(norm(call())))
            expect(got == want, '%s after a failure: %s, expected %s' % (label, got, want), script=scr)
            tick('traces')

        def new():
            gen.FORCE[:] = [1, 0]
            try:
                return m.simulate(m.sample_prior())
            finally:
                del gen.FORCE[:]
        for label, call in (('distance', m.calc_distance), ('likelihood', rated.calc_likelihood), ('flatten', lambda p: (m.flatten(p), repr(p.Notes))[1])):
            want = call(new())

            def setup():
                pt = new()
                return pt, lambda: call(pt)
            for k, pt in points(setup, call=label, script=scr):
                expect(not {'distance', 'log_lik'} & set(pt.Notes), 'a %s that failed was noted' % label, point=k, script=scr)
                expect(call(pt) == want, '%s after a failure: %s, expected %s' % (label, call(pt), want), point=k, script=scr)
                ST.state((label, scr, k))

        def setup():
            p = new().Pars
            p.reset_probability()
            return p, lambda: m.evaluate_prior(p)
        for k, p in points(setup, call='evaluate_prior', script=scr):
            expect(not p.is_evaluated(), 'a prior that could not be evaluated was noted', script=scr)
            p2 = p.clone()
            p2.reset_probability()
            expect(close(m.evaluate_prior(p), m.evaluate_prior(p2)), 'prior after a failure', script=scr)


class R(c24.R):
    def u(self):
        gen.trip()
        return c24.R.u(self)

    def gauss(self, mu=0.0, sd=1.0):
        gen.trip()
        return c24.R.gauss(self, mu, sd)

    def index(self, n, p=None):
        gen.trip()
        return c24.R.index(self, n, p)


def fit(kind, variant, part, after):
    """A fit that fails leaves the fitter and the model as good as new."""
    fitkit.quiet()
    emu = sys.modules['sims_pars.fit.hme.emulator'].GPREmulator
    emu.answer = staticmethod(lambda out, us: (out == 'y' and 2 + 9 * us[0] or 2.0 + us[-1] / 2, 0.1))
    emu.log, emu.memory = [], 0.01
    ms = c24.models()
    for m in ms.values():
        def bad(pars, was=m.simulate):
            gen.trip()
            return was(pars)
        m.simulate = bad
    st = dict(c24.START[kind], **({'parallel': False} if variant and kind != 'bhm' else {'max_wave': 2} if variant else {}))
    prof = {k: c24.profile(m) for k, m in ms.items()}
    ref = {}

    def result(f, m, seq):
        with rnd.owned(R(seq)):
            f.fit(ms[m])
        with rnd.owned(R(seq + 1)):
            return c24.table(f.sample_posteriors(3)), repr(c24.canon(f.Monitor.Trajectories))

    def left(f, seq):
        try:
            with rnd.owned(R(seq)):
                return c24.table(f.sample_posteriors(3))
        except AssertionError as e:
            return 'AssertionError'

    CH.start(())
    with fitkit.in_process(True), c24.latin():
        for m in ms:
            for seq in (0, 1):
                ref[m, seq] = result(c24.fitter(kind, st), m, seq)
        k = part
        while True:
            f = c24.fitter(kind, st)
            info = dict(fitter=kind, settings=st, point=k)
            m = 'AB'[k % 2]
            gen.FAULT[:] = [k]
            raised = False
            try:
                with rnd.owned(R(k % 3)):
                    f.fit(ms[m])
            except gen.Fault:
                raised = True
            finally:
                hit = not gen.FAULT
                del gen.FAULT[:]
            expect(raised or not hit, 'the failure of answer %d was hidden' % k, **info)
            if not raised:
                break
            tick('failures')
            # what is left does not depend on earlier fits
            old = c24.fitter(kind, st)
            result(old, 'BA'[k % 2] if k % 3 else m, k % 2)
            gen.FAULT[:] = [k]
            try:
                with rnd.owned(R(k % 3)):
                    old.fit(ms[m])
            except gen.Fault:
                pass
            finally:
                del gen.FAULT[:]
            a, b = left(f, k), left(old, k)
            expect(a == b, 'posteriors after a failed fit: %s, but %s if there was a fit before' % (a, b), **info)
            expect({a: f.Settings[a] for a in st} == st, 'settings %s' % f.Settings, **info)
            expect({a: c24.profile(x) for a, x in ms.items()} == prof, 'a failed fit changed a model', **info)
            for i in range(after):
                m, seq = 'AB'[(k // 2 + i) % 2], (k + i) % 2
                got = result(f, m, seq)
                expect(got == ref[m, seq], 'fit of %s after a failure differs from that of a new fitter:\n%s\n%s' % (m, got, ref[m, seq]), **info)
                tick('transitions')
            tick('traces')
            ST.state((kind, variant, k))
            ST.outcome(ref[m, seq])
            k += 8 if k < 150 else 40
        f = c24.fitter(kind, st)
        for m in ms:
            expect(result(f, m, 0) == ref[m, 0], 'failures of one fitter reached another', fitter=kind, settings=st)
    CH.stop()
