"""Log density of an assignment: sum of the random nodes' log densities given their parents' values."""
import itertools
import math
from .. import gen
from ..core import CH, ST, close, expect, tick

BOUNDS = {
    'quick': 'all networks with <=3 nodes x 2 schemes, every parent-closed set of assigned nodes x 4 values per node '
             '(two on support, one off support, NaN), all insertion orders of the assignment for <=3 entries; all '
             '4-node networks x full assignments over 3 values; invalid-parameter and numeric-distribution families',
    'thorough': 'as quick with every parent-closed assignment over 4 values for 4-node networks and all schemes',
}
ASSUMPTIONS = ['mcflip stands for any distribution; formulas of shipped distributions are checked by C11',
               'a random node is only evaluated when its parents are among the assigned values']


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for sh in gen.shapes(n):
            for sc in list(gen.SCHEMES)[:2 if tier == 'quick' else 5]:
                out.append(['closed', gen.spec_of(sh, sc)])
    for i, sh in enumerate(gen.shapes(4)):
        out.append(['full' if tier == 'quick' else 'closed', gen.spec_of(sh, list(gen.SCHEMES)[i % 5])])
    for k in gen.big_shapes():
        out.append(['big', gen.big_spec(k)])
    out.append(['param', None])
    out.append(['sampled', None])
    return out


def run(job):
    mode, spec = job
    if mode == 'param':
        return param()
    if mode == 'sampled':
        return sampled()
    bn = gen.build(spec, range(len(spec)))
    names = [nd[0] for nd in spec]
    pa = gen.parents(spec)
    sets = [tuple(names)] if mode != 'closed' else [
        s for s in gen.subsets(names, 1)
        if all(set(pa[n]) <= set(s) for n in s if gen.by_name(spec)[n][1] == 'R')]
    for s in sets:
        for vals in assignments(spec, s, mode):
            check(bn, spec, vals, orders=(mode == 'closed' and len(vals) <= 3))
    ST.sample({'script': gen.script(spec)})


def assignments(spec, s, mode):
    """Values on and off the support given the values chosen so far."""
    out = [{}]
    for nd in spec:
        if nd[0] not in s:
            continue
        nxt = []
        for v in out:
            if nd[1] == 'R':
                m = gen.value_at(nd, v)
                alts = [m, m + 1, m + 0.5] + ([math.nan] if mode == 'closed' else [])
                if mode == 'big':
                    alts = [m + 1, m] if len(out) < 40 else [m]
            elif all(p in v for p, _ in nd[2]) and nd[1] == 'F':
                m = gen.value_at(nd, v)
                alts = [m, m + 1] if mode == 'closed' else [m]       # deterministic nodes never contribute
            else:
                alts = [0, 2.5] if mode == 'closed' else [1]
            for a in alts:
                d = dict(v)
                d[nd[0]] = a
                nxt.append(d)
        out = nxt
    return out


def check(bn, spec, vals, orders):
    from sims_pars import evaluate_nodes, sample
    from sims_pars.bayesnet import Chromosome
    ref = gen.logpdf(spec, vals)
    keys = list(vals)
    perms = itertools.permutations(keys) if orders else (keys, keys[::-1])
    for od in perms:
        d = {k: vals[k] for k in od}
        got = evaluate_nodes(bn, d)
        expect(close(got, ref), 'log density %r, expected %r' % (got, ref), values=vals, script=gen.script(spec))
        expect(all(close(d[k], vals[k]) for k in vals) and len(d) == len(vals), 'evaluation altered the values')
        tick('transitions')
    d = dict(vals, zz_foreign=3)
    expect(close(evaluate_nodes(bn, d), ref), 'a name that is not in the network changed the density', values=vals)
    expect(close(evaluate_nodes(bn, Chromosome(vals)), ref), 'density of a chromosome differs from that of its values',
           values=vals)
    tick('transitions', 2)
    tick('traces', 1)
    ST.state((spec, gen.canon(vals)))
    ST.outcome(round(ref, 9) if ref == ref else 'nan')


def param():
    """Parameters outside their domain give -inf instead of an error, whatever else is in the assignment."""
    gen.install()
    from sims_pars import bayes_net_from_script, evaluate_nodes
    from scipy.stats import norm, gamma
    bn = bayes_net_from_script('''
    PCore P {
        s
        t = s - 1
        x ~ norm(0, s)
        y ~ norm(x, t)
        z ~ mcflip(loc=x, w=t)
        g ~ gamma(s, t)
    }''')
    for s in (-1, 0, 0.5, 1, 2, math.nan, math.inf):
        for t in (-1, 0, 1, s - 1):
            for x in (0, 1.5, -3):
                for yy in (0, 2):
                    for zz in (x, x + t, 9):
                        for g in (-1, 0.5):
                            v = {'s': s, 't': t, 'x': x, 'y': yy, 'z': zz, 'g': g}
                            if not (s > 0 and t > 0):
                                ref = -math.inf
                            elif math.isinf(s):
                                continue
                            else:
                                ref = (norm.logpdf(x, 0, s) + norm.logpdf(yy, x, t) + gen.flip_logpdf(zz, x, t)
                                       + gamma.logpdf(g, s, scale=1 / t))
                            got = evaluate_nodes(bn, v)
                            expect(close(got, ref), 'log density %r, expected %r' % (got, ref), values=v)
                            tick('transitions')
                            tick('traces')
                            ST.state(tuple(v.values()))
    # a single invalid node is enough, alone or with valid ones
    expect(evaluate_nodes(bn, {'s': -1, 'x': 0}) == -math.inf, 'invalid parameter is not -inf')
    expect(close(evaluate_nodes(bn, {'s': 2, 't': 1}), 0), 'no random node: density must be 0')
    expect(close(evaluate_nodes(bn, {}), 0), 'empty assignment: density must be 0')


def sampled():
    """sample_chromosome: the recorded log density is that of the recorded values."""
    from ..core import paths
    from sims_pars import sample_chromosome
    for n in (1, 2, 3):
        for sh in gen.shapes(n):
            spec = gen.spec_of(sh, 'plain')
            bn = gen.build(spec)
            cond = {e: 2 for e in gen.exo(spec)}
            for _, w, ch in paths(lambda: sample_chromosome(bn, cond)):
                vals = {k: ch[k] for k in ch.keys()}
                expect(set(vals) == {nd[0] for nd in spec}, 'sampled chromosome misses nodes')
                expect(close(ch.LogProb, gen.logpdf(spec, vals)), 'LogProb %r of sampled chromosome, expected %r' % (
                    ch.LogProb, gen.logpdf(spec, vals)), script=gen.script(spec), values=vals)
                expect(close(math.exp(ch.LogProb), float(w)), 'density differs from the probability of the draw')
                expect(ch.is_evaluated(), 'not marked as evaluated')
                tick('transitions')
                tick('traces')
