"""Group hierarchies: which allocations are accepted, and the exact law of the values of the generated cores."""
import itertools
from .. import gen, sim
from ..core import ST, expect, expect_raises, law, tick

BOUNDS = {
    'quick': 'all networks with <=2 nodes x all requests on hierarchies one, chain, fork and three-level chain; 3-node networks '
             'x all requests on one and chain, and a fifth of fork and three-level chain; two cores per first child group; values given '
             'at generation or breeding',
    'thorough': 'all requests on all hierarchies for 3 nodes; 4-node networks x a seventh of the requests on chains',
}
ASSUMPTIONS = ['a node is requested at most once along a path of groups, and not as fixed where a fixed node of a group above rests on it; '
               'exogenous nodes are not requested and are given at generation']


def jobs(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        for i, sh in enumerate(gen.shapes(n)):
            sc = list(gen.SCHEMES)[i % 5]
            for t in sim.FOUR:
                if n == 4 and (t != 'chain' or sum(k == 'R' for k, _ in sh) > 2):
                    continue
                mod = 1 if n < 3 or t in ('one', 'chain') else 5 if tier == 'quick' else 1
                if n == 4:
                    mod = 7
                out.append([t, gen.spec_of(sh, sc), mod, i % mod])
    return out


def run(job):
    tree, spec, mod, off = job
    gen.install()
    if tree == 'one':
        shortcuts(spec)
    for j, groups in enumerate(sim.configs(tree, spec)):
        if j % mod == off:
            one(spec, groups)
    ST.sample({'script': gen.script(spec), 'groups': groups})


def one(spec, groups):
    info = dict(script=gen.script(spec), groups=groups)
    bn = gen.build(spec)
    if not sim.valid(spec, groups):
        expect_raises(AssertionError, lambda: sim.build(bn, groups), 'a floating node upstream of a fixed one', **info)
        tick('rejected')
        return
    sc = sim.build(bn, groups)
    reopened(spec, groups, info)
    exo = {e: 7 + i for i, e in enumerate(gen.exo(spec))}
    twice = {1} if len(groups) == 2 else ()
    pcs = sim.grow(sc, groups, exo, twice)
    keys = sim.keys_of(pcs)
    for p, pc in pcs.items():
        g = groups[sim.group_of(p, groups)]
        expect(pc.Group == g[0] and pc.Nickname == p.split('@')[-1], 'group or nickname of a core', **info)
        for nm in g[2]:
            expect(any(nm in keys[q] for q in sim.lineage(p)), '%s is to be fixed but core %s has no value' % (nm, p), **info)
        expect(set(bn.Order) >= set(keys[p]), 'unknown nodes in a core', **info)
        for q in sim.lineage(p)[1:]:
            both = keys[p] & keys[q]
            expect(not any(gen.by_name(spec)[n][1] == 'R' for n in both), 'random nodes %s are held by a core and by one '
                   'above it' % both, **info)
        sm = pc.get_samplers()
        for nm in g[3]:
            expect(nm in sm or any(nm in keys[q] for q in sim.lineage(p)), 'requested floating %s is neither sampled nor known '
                   'at core %s' % (nm, p), **info)
    # every node of the network is held or sampled by some core
    held = set().union(*keys.values())
    sampled = {p: set(pc.get_samplers()) | set(pc.get_samplers(False)) for p, pc in pcs.items()}
    pa = gen.parents(spec)
    for nm in set(bn.Order) - held - set().union(*sampled.values()) - set(exo):
        for p in keys:
            known = set(exo).union(*[keys[q] | set(groups[sim.group_of(q, groups)][3]) for q in sim.lineage(p)])
            expect(not pa[nm] <= known, 'core %s knows all the parents of %s, but it is nowhere' % (p, nm), **info)

    asked = {x for g in groups for x in g[2] + g[3]}
    for p in keys:
        seen = set(exo).union(*[keys[q] for q in sim.lineage(p)])
        for nd in spec:
            free = any(g[3] for g in groups) or asked & gen.descendants(spec, nd[0])
            expect(nd[1] not in 'VF' or nd[0] in asked or free or not pa[nd[0]] <= seen or nd[0] in seen,
                   'core %s sees the parents of %s but not its value' % (p, nd[0]), **info)

    def once():
        cs = sim.grow(sc, groups, exo, twice)
        expect(sim.keys_of(cs) == keys, 'the set of values depends on chance', **info)
        return sim.snap(cs)
    got, k = law(once)
    want = sim.ref_growth(spec, keys, exo, info)
    expect(got == want, 'law of the values: %s, expected %s' % ({str(a): str(b) for a, b in got.items()},
                                                                {str(a): str(b) for a, b in want.items()}), **info)
    tick('transitions', k)
    tick('traces', k)
    ST.state((spec, groups))
    ST.outcome(sorted(got))
    # values may be given
    root = [n for n in keys['r'] if n not in exo]
    for nm in root[:2]:
        pc = sc.generate('r', dict(exo, **{nm: 40}))
        expect(pc[nm] == 40, 'given value of %s is not used' % nm, **info)
        for ch in gen.by_name(spec).values():
            if ch[0] in pc.Locus and ch[1] == 'F' and nm in [x for x, _ in ch[2]]:
                expect(gen.num(pc[ch[0]]) == gen.num(gen.value_at(ch, {x: pc[x] for x, _ in ch[2]})),
                       'value of %s does not follow from the given one' % ch[0], **info)
    if len(groups) > 1:
        r = sc.generate('r', exo)
        path = [p for p in keys if sim.group_of(p, groups) == 1][0]
        for nm in sorted(keys[path]):
            c = r.breed('x' + nm, groups[1][0], exo={nm: 41})
            expect(c[nm] == 41 and set(c.Locus) == keys[path], 'value of %s given at breeding' % nm, **info)
            for ch in spec:
                if ch[0] in c.Locus and ch[1] == 'F' and nm in [x for x, _ in ch[2]]:
                    expect(gen.num(c[ch[0]]) == gen.num(gen.value_at(ch, {x: c[x] for x, _ in ch[2]})),
                           'value of %s does not follow from the one given at breeding' % ch[0], **info)
        expect_raises(ValueError, lambda: (r.breed('z', groups[1][0]), r.breed('z', groups[1][0])), 'same nickname twice', **info)
        expect_raises(KeyError, lambda: r.breed('y', 'NoGroup'), 'unknown group', **info)


def allocation(ns):
    bps = [sorted((k, b.Type, sorted(b.ToRead or ()), list(b.ToSample or ())) for k, b in d.items())
           for d in (ns.LocalSamplers, ns.SharedSamplers)]
    return [ns.Name, list(ns.FixedNodes), list(ns.FloatingNodes), list(ns.ExoNodes), list(ns.ListeningNodes), bps,
            [allocation(c) for c in ns.Children.values()]]


def reopened(spec, groups, info):
    """A hierarchy in use accepts no change; re-opened and put on the network again, it is as good as new."""
    from sims_pars.simulation import as_simulation_core
    ns = sim.hierarchy(groups)
    first = as_simulation_core(gen.build(spec), ns)
    ref = allocation(first.RootNode)
    expect_raises(AssertionError, lambda: as_simulation_core(gen.build(spec), ns), 'a hierarchy was put to use twice', **info)
    expect_raises(AssertionError, lambda: ns.new_child('late'), 'a group was added to a hierarchy in use', **info)
    expect(allocation(ns) == ref, 'a refused request changed the hierarchy', **info)
    names = {nd[0] for nd in spec}
    other = gen.build([['o_' + nd[0], nd[1], [['o_' + p, w] for p, w in nd[2]], nd[3]] for nd in spec]
                      + [[n, 'R', [], 2] for n in sorted(names)])
    for bn in (gen.build(spec), other, gen.build(spec)):
        ns.defrost()
        as_simulation_core(bn, ns)
        tick('transitions')
    expect(allocation(ns) == ref, 're-opened hierarchy: %s, a new one: %s' % (allocation(ns), ref), **info)


def shortcuts(spec):
    """The ready-made cores: everything fixed, everything floating, or (no group given) the leaves floating."""
    from sims_pars.simulation.fn import as_simulation_core, find_free_parameters, get_all_fixed_sc, get_all_float_sc
    text = gen.script(spec)
    info = dict(script=text)
    exo = {e: 7 + i for i, e in enumerate(gen.exo(spec))}
    by = gen.by_name(spec)
    bn = gen.build(spec)
    fixed = [n for n in bn.Order if n in exo or by[n][1] in 'VFR']
    leaves = [n for n in bn.Order if not gen.children(spec)[n]]
    for how, sc, fl in (('fixed', get_all_fixed_sc(text), []), ('float', get_all_float_sc(text), list(bn.Order)),
                        ('default', as_simulation_core(bn), leaves)):
        groups = [['Root', None, [] if how != 'fixed' else list(bn.Order), [n for n in fl if n not in exo]]]
        expect(sc.RootSG == 'Root' and sc.Name == bn.Name, '%s core: root %s, name %s' % (how, sc.RootSG, sc.Name), **info)
        given = dict(exo)
        pc = sc.generate(exo=given)
        keys = {'r': set(pc.Locus)}
        expect(given == exo, 'generating changed the values given', **info)
        expect(pc.Nickname == bn.Name, 'a core without a nickname is called %s' % pc.Nickname, **info)
        if how == 'fixed':
            expect(keys['r'] == set(fixed), 'all fixed: the core holds %s' % sorted(keys['r']), **info)
            expect(not pc.get_samplers() and not pc.get_samplers(False), 'all fixed: samplers %s' % list(pc.get_samplers()), **info)
        else:
            for n in groups[0][3]:
                expect(n in pc.get_samplers() or by[n][1] != 'R' and n in pc, '%s: no sampler of %s' % (how, n), **info)
        if how == 'float':
            expect(not any(by[n][1] == 'R' for n in keys['r'] if n in by), 'all floating: the core holds %s' % sorted(keys['r']), **info)
        got, k = law(lambda: sim.snap({'r': sc.generate('r', exo)}))
        want = sim.ref_growth(spec, keys, exo, info)
        expect(got == want, 'law of the %s core: %s, expected %s' % (how, got, want), **info)
        sim.check_samplers(spec, groups, {'r': pc}, info)
        free = find_free_parameters(sc, exo)
        expect(sorted(free) == sorted(n for n in keys['r'] if n in by and by[n][1] == 'R' and
                                      not any(by[a][1] == 'R' for a in gen.ancestors(spec, n) if a in by)),
               '%s: free parameters %s of the values %s' % (how, free, sorted(keys['r'])), **info)
        tick('transitions', k)
        # changing one core, or the values given, leaves the rest as it was
        a, b = sc.generate('a', given), sc.generate('b', given)
        before = gen.canon(b.Locus)
        for n in sorted(keys['r']):
            a.impulse({n: 43})
        given.update({n: 44 for n in given})
        expect(gen.canon(b.Locus) == before and all(v == 44 for v in given.values()), 'an intervention at one core reached another, '
               'or the values given', **info)
