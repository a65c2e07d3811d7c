"""Network construction: all histories of definitions, redefinitions, cyclic attempts, freeze and defrost."""
import itertools
from .. import gen
from ..core import CH, ST, expect, expect_raises, tick

NAMES = ('a', 'b', 'c')
BOUNDS = {
    'quick': 'all histories of <=3 operations over 31 operations (definitions of 3 names with every kind and parent '
             'set including self references, complete, defrost); depth 4 from states deduplicated by graph and '
             'insertion order; all networks <=4 nodes: relations against brute force in 2 definition orders',
    'thorough': 'depth 4 without deduplication of the last level, 5 naming schemes and all definition orders for 4 '
                'nodes',
}
ASSUMPTIONS = ['names stand for any names; other naming schemes are explored in the relations family']


def defs():
    out = []
    for n in NAMES:
        others = [m for m in NAMES if m != n]
        out += [(n, 'V', ()), (n, 'E', ()), (n, 'R', ())]
        for r in (1, 2):
            for pas in itertools.combinations(others, r):
                out += [(n, 'F', pas), (n, 'R', pas)]
        out.append((n, 'F', (n,)))
    return out


OPS = defs() + ['complete', 'defrost']


def jobs(tier):
    out = []
    for i in range(len(OPS)):
        for j in range(len(OPS)):
            out.append(['hist', [i, j], 1 if tier == 'quick' else 2])
    for n in (1, 2, 3, 4):
        for i, sh in enumerate(gen.shapes(n)):
            scs = list(gen.SCHEMES)
            if n == 4 and tier == 'quick':
                scs = [scs[i % 5]]
            for sc in scs:
                perms = list(itertools.permutations(range(n)))
                if tier == 'quick' or n == 4:
                    perms = [perms[0], perms[-1], perms[len(perms) // 2]][:2 if n == 4 else 3]
                out.append(['rel', gen.spec_of(sh, sc), perms])
    for k in gen.big_shapes():
        sp = gen.big_spec(k)
        out.append(['rel', sp, [list(range(len(sp)))[::-1], list(range(len(sp)))]])
    return out


def node_of(d):
    name, k, pas = d
    return [name, k, [[p, 1 + i] for i, p in enumerate(pas)], NAMES.index(name) + 1]


class Model:
    """Reference: name -> node, plus the frozen flag."""

    def __init__(self):
        self.nodes, self.frozen = {}, False

    def key(self):
        return tuple(sorted((k, v[1], tuple(map(tuple, v[2]))) for k, v in self.nodes.items())), self.frozen

    def apply(self, op):
        """Returns False when the operation has to be rejected."""
        if op == 'complete':
            self.frozen = True
            return True
        if op == 'defrost':
            self.frozen = False
            return True
        if self.frozen:
            return False
        nd = node_of(op)
        pa = {p for p, _ in nd[2]}
        if nd[0] in pa:
            return False
        ch = {n: {m for m in self.nodes if n in [p for p, _ in self.nodes[m][2]]} for n in self.nodes}
        if pa & gen.closure(ch, nd[0]):
            return False
        self.nodes[nd[0]] = nd
        for p in pa:
            self.nodes.setdefault(p, [p, 'E', [], 0])
        return True

    def spec(self):
        left, out = dict(self.nodes), []
        while left:
            for n in sorted(left):
                if not {p for p, _ in left[n][2]} & set(left):
                    out.append(left.pop(n))
                    break
        return out


def do(bn, model, op):
    if op == 'complete':
        model.apply(op)
        bn.complete()
    elif op == 'defrost':
        model.apply(op)
        bn.defrost()
    else:
        text = gen.definition(node_of(op))
        if model.apply(op):
            bn.append_from_definition(text)
        else:
            expect_raises(AttributeError, lambda: bn.append_from_definition(text),
                          'definition %r must be rejected' % text, state=model.key())
    tick('transitions')


def run(job):
    if job[0] == 'rel':
        return relations(job)
    gen.install()
    from sims_pars.bayesnet import BayesianNetwork
    _, first, extra = job
    seen = set()
    for tail in itertools.product(range(len(OPS)), repeat=extra):
        hist = list(first) + list(tail)
        bn, model = BayesianNetwork('H'), Model()
        for i in hist:
            do(bn, model, OPS[i])
            if i == hist[-1] or extra == 1:
                pass
        compare(bn, model, [OPS[i] for i in hist])
        tick('traces')
        # one more level from every distinct (graph, insertion order)
        k = (model.key(), tuple(bn.DAG.nodes), tuple(bn.DAG.edges))
        if k in seen:
            continue
        seen.add(k)
        if extra == 1 and len(seen) <= 2:
            for op in OPS:
                bn, model = BayesianNetwork('H'), Model()
                for i in hist:
                    do(bn, model, OPS[i])
                do(bn, model, op)
                compare(bn, model, [OPS[i] for i in hist] + [op])
                tick('traces')
    ST.sample([str(OPS[i]) for i in first])


def compare(bn, model, hist):
    ST.state(model.key())
    spec = model.spec()
    check_relations(bn, spec, dict(history=[str(h) for h in hist]))
    expect(bn.is_frozen() == model.frozen, 'frozen flag', history=hist)
    # the definitions in force are the last accepted ones
    from sims_pars import sample
    names = [n[0] for n in spec]
    cond = {e: 2 for e in gen.exo(spec)}
    CH.start((1,) * 10)
    got = sample(bn, cond)
    vals = dict(cond)
    for nd in spec:
        if nd[1] != 'E':
            vals[nd[0]] = gen.outcomes(nd, vals)[-1][0]
    CH.stop()
    expect(gen.canon(got) == gen.canon(vals), 'values %s do not follow the definitions in force (%s)' % (
        dict(got), vals), history=[str(h) for h in hist])


def check_relations(bn, spec, info, light=False):
    names = [nd[0] for nd in spec]
    by = gen.by_name(spec)
    pa = gen.parents(spec)
    ch = gen.children(spec)
    order = list(bn.Order)
    expect(sorted(order) == sorted(names), 'Order %s does not list the nodes %s once each' % (order, names), **info)
    for n in names:
        expect(all(order.index(p) < order.index(n) for p in pa[n]), 'Order %s is not topological' % order, **info)
    rv = {n for n in names if by[n][1] == 'R'}
    rvroots = {n for n in rv if not gen.ancestors(spec, n) & rv}
    for label, got, ref in (('Roots', bn.Roots, {n for n in names if not pa[n]}),
                            ('Leaves', bn.Leaves, {n for n in names if not ch[n]}),
                            ('Exo', bn.Exo, {n for n in names if by[n][1] == 'E'}),
                            ('RVRoots', bn.RVRoots, rvroots)):
        expect(sorted(got) == sorted(ref), '%s = %s, expected %s' % (label, list(got), sorted(ref)), **info)
    for n in names:
        expect(n in bn, 'defined node is not in the network', **info)
        expect(set(bn[n].Parents) == pa[n], 'parents of %s: %s' % (n, bn[n].Parents), **info)
        expect(set(bn.DAG.parents(n)) == pa[n] and set(bn.DAG.children(n)) == ch[n], 'edges of %s' % n, **info)
        expect(bn.is_rv(n) == (n in rv), 'is_rv(%s)' % n, **info)
        expect(bn.is_exogenous(n) == (by[n][1] == 'E'), 'is_exogenous(%s)' % n, **info)
        expect(bn.needs_calculation(n) == (by[n][1] in 'RF'), 'needs_calculation(%s)' % n, **info)
        expect(bool(bn.has_randomness(n)) == (n in rv or bool(gen.ancestors(spec, n) & rv)),
               'has_randomness(%s)' % n, **info)
    expect('zz' not in bn, 'unknown node reported as member', **info)
    if light:
        return
    for s in gen.subsets(names) if len(names) <= 4 else [names[::2]]:
        got = bn.sort(list(s))
        expect(sorted(got) == sorted(s) and all(order.index(x) < order.index(y) for x, y in zip(got, got[1:])),
               'sort(%s) = %s' % (s, got), **info)
    for n in names if len(names) <= 4 else ():
        for giv in gen.subsets([m for m in names if m != n], 1):
            need = gen.sufficient(spec, [n], giv) - set(giv)
            expect(bool(bn.has_randomness(n, set(giv))) == bool(need & rv),
                   'has_randomness(%s, given=%s)' % (n, giv), **info)
            rest = need - {n}
            det = bool(bn.is_deterministic(n, set(giv)))
            if by[n][1] in 'RE' or any(by[m][1] in 'RE' for m in rest):
                expect(not det, 'is_deterministic(%s, given=%s) though it is random or not set' % (n, giv), **info)
            elif by[n][1] == 'V' or giv and all(by[m][1] == 'V' for m in rest):
                expect(det, 'is_deterministic(%s, given=%s)' % (n, giv), **info)
            tick('transitions')


def relations(job):
    _, spec, perms = job
    for od in perms:
        for how in ('script', 'frozen', 'open'):
            bn = gen.build(spec, od, declare=(how != 'open'), how=how)
            info = dict(script=gen.script(spec, od), how=how)
            check_relations(bn, spec, info)
            tick('traces')
            if how == 'script':
                expect(bn.is_frozen(), 'a network read from a script is complete', **info)
            if bn.is_frozen():
                expect_raises(AttributeError, lambda: bn.append_from_definition('new_node = 1'),
                              'a complete network accepted a definition', **info)
                check_relations(bn, spec, info)
                bn.defrost()
                expect(not bn.is_frozen(), 'defrost', **info)
                check_relations(bn, spec, info)
                bn.append_from_definition('new_node = %s + 1' % spec[-1][0])
                check_relations(bn, spec + [['new_node', 'F', [[spec[-1][0], 1]], 1]], info)
            else:
                bn.complete()
                check_relations(bn, spec, info)
    ST.state(spec)
    ST.sample({'script': gen.script(spec)})
