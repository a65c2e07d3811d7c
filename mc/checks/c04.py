"""Interventions on a chromosome: explicit-state search over operation histories, exact law of every transition."""
import itertools
import math
from fractions import Fraction
from .. import gen
from ..core import CH, ST, close, expect, law, tick

BOUNDS = {
    'quick': 'all networks with <=3 nodes (2 naming schemes) and every fifth 4-node network: every state reachable '
             'in <=2 operations (<=12 expanded per network) x all single and pair interventions with values '
             '{0, 5, None}, with and without network, foreign keys, partial chromosomes; exact law per transition',
    'thorough': 'as quick with all 4-node networks, <=3 operations, <=400 states expanded per network',
}
ASSUMPTIONS = ['mcflip stands for any distribution', 'partial chromosomes hold the parents of each of their nodes']


def jobs(tier):
    out = []
    depth, cap = (2, 12) if tier == 'quick' else (3, 400)
    for n in (1, 2, 3):
        for sh in gen.shapes(n):
            for sc in ('plain', 'reverse'):
                out.append(['bfs', gen.spec_of(sh, sc), depth, cap])
    for i, sh in enumerate(gen.shapes(4)):
        if tier != 'quick' or i % 5 == 0:
            out.append(['bfs', gen.spec_of(sh, list(gen.SCHEMES)[i % 5]), 1, 8 if tier == 'quick' else 60])
    for k in gen.big_shapes():
        for rev in (False, True):
            out.append(['big', gen.big_spec(k, rev), 1, 3])
    return out


def operations(names, n_pairs=True):
    vals = (0, 5, None)
    for k in names:
        for v in vals:
            yield {k: v}, True
        yield {k: 0.5}, False
    for a, b in itertools.permutations(names, 2):
        if a < b:
            for va, vb in ((5, None), (None, 5), (None, None), (0, 5)):
                yield {a: va, b: vb}, True
            yield {b: 5, a: None}, True
            yield {a: 1, b: 0}, False
    if len(names) > 2:
        yield {names[0]: None, names[1]: 0, names[2]: None}, True
        yield dict.fromkeys(names), True
        yield {n: 3 for n in names}, True
    yield {}, True
    yield {}, False
    yield {'zz_foreign': 4}, True
    yield {'zz_foreign': 4}, False
    yield {'zz_foreign': 4, names[0]: 2}, True
    yield {'extra': 9}, True
    yield {'extra': 9, names[-1]: None}, True


def reference(spec, vals, imp, with_bn):
    """Law of the new values, and whether the recorded density is still valid."""
    imp = {k: v for k, v in imp.items() if k in vals}
    if not with_bn:
        d = dict(vals)
        d.update(imp)
        return {gen.canon(d): Fraction(1)}, not imp
    redo = set()
    for k, v in imp.items():
        if v is None:
            redo.add(k)
        if k in gen.by_name(spec):
            redo |= gen.descendants(spec, k)
    redo -= {k for k, v in imp.items() if v is not None}
    states = [(dict(vals, **{k: v for k, v in imp.items() if v is not None}), Fraction(1))]
    for nd in spec:
        if nd[0] not in redo or nd[0] not in vals or nd[1] == 'E':
            continue
        states = [(dict(s, **{nd[0]: v}), w * p) for s, w in states for v, p in gen.outcomes(nd, s)]
    res = {}
    for s, w in states:
        res[gen.canon(s)] = res.get(gen.canon(s), 0) + w
    return res, not imp


def run(job):
    mode, spec, depth, cap = job
    from sims_pars.bayesnet import Chromosome
    bn = gen.build(spec, list(range(len(spec)))[::-1])
    names = [nd[0] for nd in spec]
    # initial: all-default answers, one foreign locus the network does not know
    vals = {nd[0]: 0 for nd in spec}
    for nd in spec:
        if nd[1] != 'E':
            vals[nd[0]] = gen.outcomes(nd, vals)[-1][0]
        else:
            vals[nd[0]] = 2
    inits = [dict(vals, extra=7), dict(reversed(list(vals.items())))]
    # partial chromosomes: drop leaves
    leaves = [n for n in names if not gen.children(spec)[n]]
    if len(leaves) < len(names):
        inits.append({k: v for k, v in vals.items() if k not in leaves})
    if mode == 'big':
        inits = inits[:1]
    seen = set()
    for init in inits:
        frontier = [(init, 0)]
        seen.add(gen.canon(init))
        expanded = 0
        while frontier and expanded < cap:
            cur, d = frontier.pop(0)
            expanded += 1
            ops = operations([k for k in cur if k != 'extra'])
            if mode == 'big':
                ops = big_ops(names)
            for imp, with_bn in ops:
                for lp in ((-1.5,) if d or len(imp) > 1 else (-1.5, 0.0, math.nan)):
                    nxt = step(Chromosome, bn, spec, cur, imp, with_bn, lp)
                if d + 1 < depth:
                    for k in nxt:
                        if k not in seen:
                            seen.add(k)
                            frontier.append((dict(k), d + 1))
    ST.sample({'script': gen.script(spec), 'states': len(seen)})


def big_ops(names):
    for k in names:
        yield {k: None}, True
        yield {k: 4}, True
    for a, b in zip(names, names[2:]):
        yield {a: 4, b: None}, True
        yield {b: 3, a: None}, True


def step(Chromosome, bn, spec, cur, imp, with_bn, lp):
    ref, keeps = reference(spec, cur, imp, with_bn)
    info = dict(script=gen.script(spec), values=cur, impulse=imp, with_network=with_bn)
    before = gen.canon(cur)
    given = dict(imp)

    def once():
        ch = Chromosome(dict(cur), lp)
        twin = ch.clone()
        ch.impulse(imp, bn) if with_bn else ch.impulse(imp)
        expect(gen.canon(dict(twin)) == before and close(twin.LogProb, lp),
               'an intervention reached the clone of the chromosome', **info)
        if keeps:
            expect(close(ch.LogProb, lp), 'the recorded density changed although nothing did', **info)
        else:
            expect(not ch.is_evaluated() and math.isnan(ch.LogProb),
                   'the recorded density %r survived a change of the values' % (ch.LogProb,), **info)
        expect(list(ch.keys()) == list(cur), 'the set of loci changed', **info)
        twin.impulse({k: 99 for k in cur})
        return gen.canon({k: ch[k] for k in ch.keys()})

    got, k = law(once)
    expect(imp == given, 'the intervention given by the caller was altered', **info)
    expect(got == ref, 'values after the intervention: got %s, expected %s' % (
        {str(dict(a)): str(b) for a, b in got.items()}, {str(dict(a)): str(b) for a, b in ref.items()}), **info)
    tick('transitions', k)
    tick('traces', k)
    ST.state((spec, before, sorted(imp.items(), key=str), with_bn, str(lp)))
    ST.outcome(sorted(got.items()))
    return got
