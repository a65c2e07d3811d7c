"""Samplers of simulation cores: exact conditional law given the current values, before and after interventions."""
from .. import gen, sim
from ..core import ST, expect, law, tick

BOUNDS = {
    'quick': 'all networks with <=2 nodes x all requests on four hierarchies; 3-node networks x an eighth of the requests on one and chain and a '
             '24th on fork and three-level chain; samplers obtained before and after interventions at the root and at the children',
    'thorough': 'all requests on one and chain, half of those on fork and three-level chain for 3 nodes',
}
ASSUMPTIONS = ['requests as in C14', 'the values fixed in a core are not overridden at breeding']


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            if not any(k == 'R' for k, _ in sh):
                continue
            for t in sim.FOUR:
                mod = 1 if n < 3 else (8 if t in ('one', 'chain') else 24) if tier == 'quick' else 1 if t in ('one', 'chain') else 2
                out.append([t, gen.spec_of(sh, list(gen.SCHEMES)[i % 5]), mod, i % mod])
    return out


def run(job):
    tree, spec, mod, off = job
    gen.install()
    for j, groups in enumerate(sim.configs(tree, spec)):
        if j % mod == off and sim.valid(spec, groups):
            one(spec, groups, j)
    ST.sample({'script': gen.script(spec), 'groups': groups})


def one(spec, groups, j):
    info = dict(script=gen.script(spec), groups=groups)
    bn = gen.build(spec)
    sc = sim.build(bn, groups)
    exo = {e: 7 + i for i, e in enumerate(gen.exo(spec))}
    gen.FORCE[:] = ([0], [1], [0, 1], [1, 1, 0])[j % 4]
    try:
        pcs = sim.grow(sc, groups, exo, {1} if len(groups) == 2 else ())
    finally:
        del gen.FORCE[:]
    sim.check_samplers(spec, groups, pcs, info)
    # samplers obtained now are used again after interventions
    old = {(p, sh): pc.get_samplers(sh) for p, pc in pcs.items() for sh in (True, False)}
    names = {k for v in old.values() for k in v}
    k0 = 0
    for at in pcs:
        sub = [p for p in pcs if at in sim.lineage(p)]
        mine = sorted(set().union(*[set(pcs[p].Locus) for p in sub]))
        for nm in mine:
            imps = [{nm: 20 + len(at)}]
            if len(mine) > 1:
                imps.append({nm: 3, mine[0]: 5})
            for imp in imps:
                gen.FORCE[:] = [1]
                try:
                    pcs[at].impulse(imp)
                finally:
                    del gen.FORCE[:]
                inf = dict(info, at=at, impulse=imp)
                # first the ones obtained before: obtaining new ones brings the shared actors up to date
                state = {p: dict(gen.canon(pcs[p].Locus)) for p in pcs}
                for (p, sh), sm in old.items():
                    vis = sim.visible(state, p)
                    for x, s in sm.items():
                        want = sim.ref_sampler(spec, vis, x)
                        got, c = law(lambda: gen.num(s()))
                        expect(got == want, 'sampler of %s at %s obtained before: law %s, expected %s' % (
                            x, p, {str(a): str(b) for a, b in got.items()}, {str(a): str(b) for a, b in want.items()}), **inf)
                        tick('transitions', c)
                k0 += sim.check_samplers(spec, groups, pcs, inf, shared=(True,))
                k0 += sim.check_samplers(spec, groups, pcs, inf, shared=(False,))
    extras(spec, pcs, info)
    tick('traces', 1 + k0)
    ST.state((spec, groups))
    ST.outcome(sorted(names))


def extras(spec, pcs, info):
    """Access by name, several draws, mediators, samplers of a child group."""
    state = {p: dict(gen.canon(pcs[p].Locus)) for p in pcs}
    for p, pc in pcs.items():
        vis = sim.visible(state, p)
        for nm in pc.list_actors():
            want = sim.ref_sampler(spec, vis, nm)
            s = pc.get_sampler(nm)
            got, _ = law(lambda: gen.num(s.sample()))
            expect(got == want, 'get_sampler(%s)' % nm, core=p, **info)
            ind = {}
            for a, u in want.items():
                for b, v in want.items():
                    ind[a, b] = ind.get((a, b), 0) + u * v
            if len(want) <= 4:
                got, _ = law(lambda: tuple(gen.num(v) for v in s.sample(2)))
                expect(got == ind, 'two draws of %s are not independent draws of its law' % nm, core=p, **info)
            act = pc.get_actors(False).get(nm)
            if hasattr(act, 'sample_with_mediators'):
                given = {n: v for n, v in vis.items() if n != nm}
                need = gen.sufficient(spec, [nm], given)
                ref = {}
                for key, w in gen.joint(spec, {n: v for n, v in given.items() if n in need}, need).items():
                    key = tuple((a, b) for a, b in key if a not in given)
                    ref[key] = ref.get(key, 0) + w
                got, _ = law(lambda: gen.canon(act.sample_with_mediators(pc)))
                expect(got == ref, 'draw of %s with its mediators: %s, expected %s' % (
                    nm, {str(a): str(b) for a, b in got.items()}, {str(a): str(b) for a, b in ref.items()}), core=p, **info)
            tick('transitions', 3)
        for grp in pc.SG.Children:
            chd = [q for q in pcs if sim.up(q) == p and pcs[q].Group == grp]
            ca = pc.get_child_samplers(grp)
            expect(set(ca) == set(pcs[chd[0]].list_actors()), 'samplers of child group %s' % grp, **info)
