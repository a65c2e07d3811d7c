"""Transcripts of the system's results, with their order, for comparison between processes that iterate sets in different orders.

python -m mc.repro JOB [LABEL]   prints one JSON line {label: digest} (or the full transcript of LABEL)
"""
import hashlib
import itertools
import json
import os
import subprocess
import sys

from . import core, fitkit, gen, rnd, sim
from .core import CH, paths

NAMES = ('a', 'b', 'c', 'd')
COUNT = {'paths': 0}


# ---------------------------------------------------------------- orders of iteration of sets
def seeds_for(k, limit=4000):
    """For every order in which a set of the first k names can be iterated, the first hash seed that gives it."""
    import math
    import concurrent.futures as cf
    found = {}
    code = 'import sys\nprint("".join(set(sys.argv[1])))'

    def probe(s):
        env = {'PYTHONHASHSEED': str(s)}
        return s, subprocess.run([sys.executable, '-S', '-c', code, ''.join(NAMES[:k])], env=env, capture_output=True, text=True).stdout.strip()
    with cf.ThreadPoolExecutor(8) as ex:
        for lo in range(0, limit, 64):
            for s, o in ex.map(probe, range(lo, lo + 64)):
                found.setdefault(o, s)
            if len(found) == math.factorial(k):
                break
    return sorted(found.values())


# ---------------------------------------------------------------- forms
def form(x):
    """Text of a result that keeps the order of lists and dictionaries and forgets that of sets."""
    import numpy as np
    import pandas as pd
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted(json.dumps(form(v)) for v in x)
    if isinstance(x, pd.DataFrame):
        return ['table', list(map(str, x.columns))] + [form(r) for r in x.to_dict('records')]
    if isinstance(x, dict) or hasattr(x, 'Locus') and hasattr(x, 'keys'):
        items = x.items() if isinstance(x, dict) else x.Locus.items()
        return ['dict'] + [[str(k), form(v)] for k, v in items]
    if isinstance(x, np.ndarray):
        return form(x.tolist())
    if isinstance(x, (list, tuple)) or type(x).__name__ in ('dict_keys', 'dict_values', 'dict_items', 'OutEdgeView', 'NodeView'):
        return [form(v) for v in x]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, float, np.number)):
        return '%.12g' % float(x)
    return str(x)


def drawn(fn, bound=None):
    out = []
    for ch, _, r in paths(fn, bound=bound):
        out.append([list(ch), form(r)])
        COUNT['paths'] += 1
    return out


# ---------------------------------------------------------------- cases
def cases(tier):
    """(label, function) in a fixed order."""
    for n in (1, 2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            yield 'net %d %d' % (n, i), (net, gen.spec_of(sh, 'plain'), i)
    for n in (1, 2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            if not any(k == 'R' for k, _ in sh):
                continue
            for t in sim.FOUR:
                mod = 1 if n == 1 else (4 if t in ('one', 'chain') else 9) if n == 2 else (70 if t in ('one', 'chain') else 600)
                if tier != 'quick':
                    mod = 1 if n < 3 else mod // 5
                yield 'cores %s %d %d' % (t, n, i), (cores, gen.spec_of(sh, 'plain'), t, mod, i % mod)
    if tier != 'quick':
        for i, sh in enumerate(gen.shapes(4)):
            if i % 8 == 0:
                yield 'net 4 %d' % i, (net, gen.spec_of(sh, 'plain'), i)
    for kind in ('abc', 'smc', 'bhm'):
        for seq in range(3):
            yield 'fit %s %d' % (kind, seq), (fits, kind, seq)
    for seq in range(3):
        yield 'ga %d' % seq, (ga, seq)
    yield 'models', (models,)
    yield 'tables', (tables,)
    yield 'words', (words,)


def net(spec, i):
    from sims_pars.bayesnet import bayes_net_from_json, bayes_net_from_script
    from sims_pars.bayesnet import dag as D
    from sims_pars import fn
    out = []
    names = [nd[0] for nd in spec]
    ex = {e: 7 + k for k, e in enumerate(gen.exo(spec))}
    order = list(reversed(range(len(spec)))) if i % 2 else None
    for how in ('script', 'open', 'json'):
        if how == 'open':
            bn = gen.build(spec, order, how='append')
            out.append(form([bn.copy().to_json(), bn.to_json()]))
            bn.complete()
        else:
            bn = bayes_net_from_script(gen.script(spec, order))
            if how == 'json':
                bn = bayes_net_from_json(bn.to_json())
        out.append(form([bn.Order, bn.Roots, bn.Leaves, bn.Exo, bn.RVRoots, list(bn.DAG.nodes), list(bn.DAG.edges), bn.to_json(), bn.to_script(), str(bn), repr(bn)]))
        for d in (bn.clone(), bn.copy(), bn.copy('N'), bn.merge('K', bayes_net_from_script('PCore Z {\nd = 1\nb = d\n}'))):
            out.append(form([d.to_json(), list(d.DAG.nodes)]))
        out.append(drawn(lambda: fn.sample(bn, dict(ex))))
        if how != 'script':
            continue
        g = bn.DAG
        out.append(drawn(lambda: fn.sample_chromosome(bn, dict(ex))))
        for tar in gen.subsets(names, 1):
            out.append(form([g.sort(set(tar)), bn.sort(set(tar)), g.upstream(set(tar)), g.downstream(set(tar)), D.minimal_dag(g, set(tar)).order(),
                             D.get_sufficient_nodes(g, set(tar)), [D.minimal_requirements(g, t, set(tar)) for t in tar]]))
            for src in (True, False):
                out.append(drawn(lambda: fn.sample_minimally(bn, set(tar), dict(ex), src)))
            CH.start(())
            c0 = fn.sample_chromosome(bn, dict(ex))
            CH.stop()

            def shock():
                c = c0.clone()
                c.impulse({k: (None if k == tar[-1] and k not in ex else 30 + j) for j, k in enumerate(tar)}, bn)
                return [c, c.LogProb, c.to_json(), c.to_data(), repr(c)]
            out.append(drawn(shock))
        for nm in names:
            out.append(form([g.parents(nm), g.children(nm), g.ancestors(nm), g.descendants(nm), bn[nm].Parents, str(bn[nm]), bn[nm].to_json()]))
    return out


def cores(spec, tree, mod, off):
    from sims_pars.simulation.fn import find_free_parameters, get_all_fixed_sc, get_all_float_sc
    out = []
    exo = {e: 7 + k for k, e in enumerate(gen.exo(spec))}
    if tree == 'one':
        for make in (get_all_fixed_sc, get_all_float_sc):
            sc = make(gen.script(spec))
            out.append(drawn(lambda: [sc.generate('p', dict(exo)), find_free_parameters(sc, dict(exo))], 1))
    for j, groups in enumerate(sim.configs(tree, spec)):
        if j % mod != off or not sim.valid(spec, groups):
            continue
        bn = gen.build(spec)
        sc = sim.build(bn, groups)
        out.append(form([[g.to_json() for g in sc.SGs.values()], sc.to_json(), [repr(g) for g in sc.SGs.values()]]))

        def life():
            pcs = sim.grow(sc, groups, exo, {1} if len(groups) == 2 else ())
            r = [[p, pc, pc.LogPrior, list(iter(pc)), repr(pc)] for p, pc in pcs.items()]
            for pc in pcs.values():
                for sh in (True, False):
                    r.append(pc.list_actors(sh))
                    r.append([[k, s()] for k, s in pc.get_samplers(sh).items()])
                for grp in pc.SG.Children:
                    r.append(list(pc.get_child_samplers(grp)))
            for at, pc in list(pcs.items()):
                pc.impulse({k: None for k in pc.Locus if k not in exo})
                pc.impulse([k for k in pc.Locus if k not in exo][:1] or [spec[0][0]])
                r += [[p, q, q.LogPrior, q.DeepLogPrior] for p, q in pcs.items()]
                r.append([[k, s()] for k, s in pc.get_samplers().items()])
            if len(groups) > 1:
                q = list(pcs.values())[1]
                r.append([q.duplicate('twin'), pcs['r'].clone(copy_sc=True, include_children=True).Children])
                q.detach_from_parent(True)
                r.append([q, q.list_actors(False)])
            return r
        out.append(drawn(life, 1))
    return out


class R(rnd.Rnd):
    """A fixed stream of answers: each depends on its position only."""

    def __init__(self, seq):
        rnd.Rnd.__init__(self)
        self.k = seq * 11
        gen.DRAW[0] = self.u

    def u(self):
        self.k += 1
        return (0.11 + self.k * 0.6180339887498949) % 1

    def gauss(self, mu=0.0, sd=1.0):
        self.k += 1
        return mu + sd * (0.1, 0.4, -0.3, 0.9, -1.1)[self.k % 5]

    def index(self, n, p=None):
        cand = [j for j in range(n) if p is None or p[j] > 0]
        self.k += 1
        return cand[self.k % len(cand)]


SCR = 'PCore A {\na ~ mcunif(0, 8)\nb ~ mcunif(1, 3)\nc ~ mcunif(0, 1)\nd = a * b + k\n}'


def model():
    from sims_pars.fit.base import DataModel, Particle
    from sims_pars.fit.targets import read_targets

    class M(DataModel):
        def simulate(self, pars):
            return Particle(pars, {'d': pars['d'] + pars['c'], 'b': pars['b'] * 2, 'a': pars['a']})
    return M(read_targets({'d': 9.0, 'b': {'m': 4.0, 'l': 3.5, 'u': 4.5}, 'a': 4.0}), SCR, exo={'k': 1.0})


def particles(pts):
    return [[p.Pars, p.Pars.LogProb, p.Sims, p.Notes] for p in pts]


def fits(kind, seq):
    emu = sys.modules['sims_pars.fit.hme.emulator'].GPREmulator
    emu.answer = staticmethod(lambda out, us: (out == 'd' and 2 + 9 * us[0] or 2.0 + us[-1] / 2, 0.1))
    emu.log, emu.memory = [], 0.0
    from .checks.c23 import Latin, latin
    from sims_pars.fit import ApproxBayesCom, ApproxBayesComSMC
    out = []
    with fitkit.in_process(), rnd.owned(R(seq)):
        m = model()
        out.append(form([m.FreeParameters, [str(d) for d in m.Domain], m.sample_prior(), m.serve({'b': 2.0, 'a': 1.0}), list(m.Data)]))
        if kind == 'abc':
            alg = ApproxBayesCom(n_test=6, p_test=0.4, verbose=0, n_core=1, parallel=False)
        elif kind == 'smc':
            alg = ApproxBayesComSMC(n_iter=24, max_round=2, min_acc=0.0, verbose=0, n_core=1, parallel=False)
        else:
            import sims_pars.fit.hme.alg as A
            from sims_pars.fit.hme import BayesHistoryMatching
            with latin():
                alg = BayesHistoryMatching(max_wave=1, n_ems=6, n_sims=4)
                alg.fit(m)
                po = alg.sample_posteriors(4)
                out.append(form([particles(po.Particles), po.Notes, po.to_json(), po.to_df(), emu.log]))
                return out
        alg.fit(m)
        po = alg.sample_posteriors(4)
        out.append(form([particles(po.Particles), po.Notes, po.to_json(), po.to_df(), alg.Monitor.Trajectories, alg.Settings]))
    COUNT['paths'] += 1
    return out


def ga(seq):
    import types
    from sims_pars.bayesnet import Chromosome
    from sims_pars.fit.base import Domain
    from sims_pars.fit.ga.cross import get_crossover
    from sims_pars.fit.ga.mutate import get_mutator
    from sims_pars.fit.ga.select import get_selector
    obj = types.SimpleNamespace(Domain=[Domain(n, 'Double', 0, 9) for n in NAMES], FreeParameters=list(NAMES))
    pop = []
    for i in range(4):
        p = Chromosome({n: 1.0 + i + j for j, n in enumerate(NAMES)})
        p.LogLikelihood = p.LogPosterior = p.LogPrior = -float(i)
        pop.append(p)
    out = []
    with rnd.owned(R(seq)):
        for c in ('shuffle', 'average'):
            out.append(form(get_crossover(c).crossover(pop[0], pop[3], obj)))
        m = get_mutator('rw')
        m.set_scales(pop, obj)
        out.append(form([m.propose(p, obj) for p in pop]))
        for s in ('importance', 'tour'):
            try:
                out.append(form(get_selector(s).select(pop, obj)))
            except AssertionError:
                out.append('refused')
    COUNT['paths'] += 1
    return out


def models():
    """Networks of shipped distributions, with the draws of scipy and numpy under control."""
    from sims_pars import bayes_net_from_script, sample
    from sims_pars.simulation import NodeSet, as_simulation_core
    out = []
    scr = 'PCore S {\na ~ norm(0, 1)\nb ~ unif(0, exp(a))\nc ~ gamma(b+1, 2)\nd ~ beta(c+1, 2)\ne ~ binom(5, d)\nf ~ cat({"x": d, "y": 1-d})\ng = a + b * c\n}'
    scr = scr.replace('f ~ cat({"x": d, "y": 1-d})\n', '')
    with rnd.owned(R(5)):
        bn = bayes_net_from_script(scr)
        out.append(form([sample(bn), sample(bn), bn.to_json(), bn.to_script()]))
        ns = NodeSet('r', as_fixed=['a', 'c'])
        ns.new_child('s', as_fixed=['d'], as_floating=['e'])
        sc = as_simulation_core(bn, ns)
        p = sc.generate('p')
        q = p.breed('q', 's')
        out.append(form([p, q, p.LogPrior, q.LogPrior, q.list_actors(), [[k, s.sample(3)] for k, s in q.get_samplers().items()]]))
    COUNT['paths'] += 1
    return out


def tables():
    """Data tables and regressions."""
    import pandas as pd
    from sims_pars.data.reg.glm import LogisticRegression, MultinomialLogisticRegression
    from sims_pars.data.static import ConditionalProbabilityTable, TransitionMatrix
    from sims_pars.util import resample
    out = []
    cpt = pd.DataFrame([{'a': x, 'b': y, 'c': z, 'p': 1.0 + i} for i, (x, y, z) in enumerate(itertools.product('ab', 'cd', 'ac'))])
    tm = pd.DataFrame([[.2, .3, .5], [.1, .1, .8], [.4, .4, .2]], index=list('abc'), columns=list('abc'))
    with rnd.owned(R(3)):
        t = ConditionalProbabilityTable(cpt, ['a', 'b', 'c'], 'p')
        for u in (t, t.marginalise('a'), t.condition(b='c'), t.marginalise('c').condition(a='b'), t.condition(c='a', a='a')):
            out.append(form([[u() for _ in range(6)], list(u.Groups), repr(u)]))
        m = TransitionMatrix(tm)
        out.append(form([[m(k) for k in 'abcabcabc'], m.StateFrom, m.StateTo, repr(m)]))
        js = {'Intercepts': [0.1, 0.2, 0.3], 'Labels': ['c', 'a', 'b'],
              'Regressions': [[{'Name': 'a', 'Type': 'Boolean', 'Value': 0.5}, {'Name': 'b', 'Type': 'Continuous', 'Value': k}] for k in (1, 2, 3)]}
        mm = MultinomialLogisticRegression(js)
        xs = {'a': True, 'b': 0.2}
        out.append(form([mm.expectation(xs), [mm.predict(xs)[0] for _ in range(5)], mm.get_sampler(xs).sample(5)]))
        out.append(form(resample([0.1, -2, 1.5, 0], list('abcd'), [{'k': 1}, {'k': 2}, {'k': 3}, {'k': 4}])[0]))
    COUNT['paths'] += 1
    return out


def words():
    """Parsing: what expressions, calls and scripts are read as."""
    from sims_pars import parse_distribution
    from sims_pars.util import parse_function, parse_math_expression
    out = []
    for e in ('a + b*c - d', 'd*d + exp(c)/b', 'min(a, b, c, d)', 'a', '3'):
        p = parse_math_expression(e)
        out.append(form([p.Var if isinstance(p.Var, (set, frozenset)) else list(p.Var), str(p), p.execute({n: 2.0 + i for i, n in enumerate(NAMES)})]))
    for f in ('norm(a, b)', 'unif(b=c+d, a=a)', 'gamma(a+1, rate=b)', 'beta(a, b)', 'mcflip(w=a, loc=b*c)'):
        q = parse_function(f)
        out.append(form([q.Function if hasattr(q, 'Function') else '', str(q), q.to_json(), q.get_arguments({n: 2.0 + i for i, n in enumerate(NAMES)})]))
    for f in ('norm(a, b)', 'gamma(a, b)', 'beta(a+1, b)', 'cat(kv)'):
        d = parse_distribution(f, {'a': 1.0, 'b': 2.0, 'kv': {'c': 1, 'a': 2, 'b': 3}})
        out.append(form([str(d), d.to_json() if hasattr(d, 'to_json') and d.json else '', d.Interval, d.Type]))
    COUNT['paths'] += 1
    return out


# ---------------------------------------------------------------- worker
def transcript(case):
    fn, args = case[0], case[1:]
    gen.DRAW[0] = None
    try:
        return json.dumps(fn(*args))
    except core.Violation as v:
        return 'violation ' + v.msg
    except Exception as e:
        import traceback
        return 'error %s %s %s' % (type(e).__name__, e, traceback.format_exc()[-600:].replace(os.getcwd(), ''))
    finally:
        CH.stop()


def main():
    job = json.loads(sys.argv[1])
    fitkit.quiet()
    tier, part, parts = job
    todo = [c for i, c in enumerate(cases(tier)) if i % parts == part]
    if len(sys.argv) > 2:
        print(dict(todo)[sys.argv[2]] and transcript(dict(todo)[sys.argv[2]]))
        return
    real = sys.stdout
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    res, again = {}, {}
    for label, c in todo:
        res[label] = transcript(c)
    n = COUNT['paths']
    if os.environ.get('MC_REPEAT'):
        for label, c in reversed(todo):
            again[label] = transcript(c)
    sys.stdout = real
    dig = {k: hashlib.blake2b(v.encode(), digest_size=12).hexdigest() for k, v in res.items()}
    print(json.dumps({'digests': dig, 'unstable': [k for k in again if res[k] != again[k]], 'errors': {k: v[:900] for k, v in res.items() if v[:5] in ('error', 'viola')},
                      'paths': n, 'size': sum(map(len, res.values()))}))


if __name__ == '__main__':
    main()
