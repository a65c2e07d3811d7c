"""Combining two networks: merge and extend on all pairs of small networks over the same names."""
import itertools
from .. import gen
from ..core import CH, ST, expect, expect_raises, tick
from .c05 import check_relations
from .c06 import descriptions

NAMES = ('a', 'b', 'c')
BOUNDS = {
    'quick': 'all ordered pairs of networks over subsets of 3 names (kinds value/exogenous/function, every parent set '
             'and every topological placement of the names; one in three pairs of 3-node networks), frozen and open, '
             'with descriptions: merge, extend with and without override',
    'thorough': 'all pairs, and random kinds included',
}
ASSUMPTIONS = ['an exogenous declaration is the absence of a definition; pairs where extend would have to choose '
               'between a definition and an exogenous declaration of the same name are left out']


def nets(kinds0, kinds1, which):
    seen, out = set(), []
    for n in (1, 2, 3):
        for sh in gen.shapes(n, kinds0, kinds1):
            for names in itertools.permutations(NAMES, n):
                spec = [[names[i], k, [[names[p], 2 + which] for p in pas], 10 * which + NAMES.index(names[i]) + 1]
                        for i, (k, pas) in enumerate(sh)]
                key = tuple(sorted((nd[0], nd[1], tuple(sorted(p for p, _ in nd[2]))) for nd in spec))
                if key not in seen:
                    seen.add(key)
                    out.append(spec)
    return out


def jobs(tier):
    k1 = 'F' if tier == 'quick' else 'FR'
    A, B = nets('VE', k1, 0), nets('VE', k1, 1)
    out = []
    for i, a in enumerate(A):
        out.append([a, [b for j, b in enumerate(B)
                        if tier != 'quick' or len(a) + len(b) < 6 or (i + j) % 3 == 0], i % 2])
    return out


def topo(nodes):
    """Topologically sorted spec, or None when cyclic."""
    left, out = dict(nodes), []
    while left:
        free = [n for n in sorted(left) if not {p for p, _ in left[n][2]} & set(left)]
        if not free:
            return None
        for n in free:
            out.append(left.pop(n))
    return out


def fill(nodes):
    for nd in list(nodes.values()):
        for p, _ in nd[2]:
            nodes.setdefault(p, [p, 'E', [], 0])
    return nodes


def merged(a, b):
    nodes = {nd[0]: nd for nd in a}
    nodes.update({nd[0]: nd for nd in b if nd[1] != 'E'})
    fill(nodes)
    spec = topo(nodes)
    if spec is None:
        return None
    used = {p for nd in spec for p, _ in nd[2]}
    return [nd for nd in spec if nd[1] != 'E' or nd[0] in used]


def extended(a, b, override):
    nodes = {nd[0]: nd for nd in b}
    for nd in a:
        old = nodes.get(nd[0])
        if old is not None and old[1] != nd[1] and 'E' in (old[1], nd[1]):
            return 'ambiguous'
        if override or old is None:
            nodes[nd[0]] = nd
    return topo(fill(nodes))


def make(spec, name, frozen):
    from sims_pars.bayesnet import BayesianNetwork
    bn = BayesianNetwork(name)
    for nd in spec:
        bn.append_from_definition(gen.definition(nd) + ' # of%s' % name)
    if frozen:
        bn.complete()
    return bn


def values_ok(bn, spec, info):
    from sims_pars import sample
    cond = {e: 3 for e in gen.exo(spec)}
    CH.start((1,) * 10)
    got = sample(bn, cond)
    CH.stop()
    vals = dict(cond)
    for nd in spec:
        if nd[1] != 'E':
            vals[nd[0]] = gen.outcomes(nd, vals)[-1][0]
    expect(gen.canon(got) == gen.canon(vals), 'values %s, expected %s' % (dict(got), vals), **info)


def check(bn, spec, origin, info):
    check_relations(bn, spec, info)
    values_ok(bn, spec, info)
    des = descriptions(bn)
    for nd in spec:
        if nd[1] != 'E':
            expect(des[nd[0]] == 'of' + origin[nd[0]], 'description of %s is %r' % (nd[0], des[nd[0]]), **info)


def run(job):
    gen.install()
    a, bs, fz = job
    for j, b in enumerate(bs):
        info = dict(first=[gen.definition(x) for x in a], second=[gen.definition(x) for x in b])
        na, nb = make(a, 'A', fz), make(b, 'B', j % 2)
        na.add_user_defined_func('fa', len)
        nb.add_user_defined_func('fb', max)
        ref = merged(a, b)
        if ref is None:
            expect_raises(AttributeError, lambda: na.merge('C', nb), 'merging into a cycle', **info)
        else:
            c = na.merge('C', nb)
            origin = {nd[0]: 'A' for nd in a}
            origin.update({nd[0]: 'B' for nd in b if nd[1] != 'E'})
            check(c, ref, origin, dict(info, op='merge'))
            expect(c.Name == 'C', 'name of the merged network')
            expect(c.UserDefinedFunctions == {'fa': len, 'fb': max}, 'user defined functions are lost', **info)
            c.complete()
            check(c, ref, origin, dict(info, op='merge, complete'))
        for x, sp, n, f in ((na, a, 'A', fz), (nb, b, 'B', j % 2)):
            check(x, sp, {nd[0]: n for nd in sp}, dict(info, op='original %s after merge' % n))
            expect(x.is_frozen() == bool(f) and x.Name == n, 'merge changed an original', **info)
        tick('traces')
        tick('transitions', 3)
        for override in (True, False):
            ref = extended(a, b, override)
            if ref == 'ambiguous':
                continue
            nb = make(b, 'B', (j + 1) % 2)
            inf = dict(info, op='extend', override=override)
            if ref is None:
                expect_raises(AttributeError, lambda: na.extend(nb, override), 'extending into a cycle', **inf)
            else:
                c = na.extend(nb, override=override)
                mine, theirs = {nd[0]: 'A' for nd in a}, {nd[0]: 'B' for nd in b}
                origin = dict(theirs, **mine) if override else dict(mine, **theirs)
                check(c, ref, origin, inf)
                expect(c.is_frozen(), 'an extended network is complete', **inf)
            check(na, a, {nd[0]: 'A' for nd in a}, dict(inf, op='original after extend'))
            expect(na.is_frozen() == bool(fz), 'extend changed the original', **inf)
            tick('traces')
            tick('transitions', 2)
        ST.state((a, b))
    c = na.extend()
    check(c, a, {nd[0]: 'A' for nd in a}, dict(op='extend nothing', first=a))
    expect(c is not na, 'extend() has to give a new network')
    ST.sample({'first': gen.script(a), 'second': gen.script(bs[-1])})
