"""Interventions on a hierarchy of cores: histories of interventions, exact law of each transition."""
from .. import gen, sim
from ..core import ST, expect, law, tick

BOUNDS = {
    'quick': 'all networks with <=2 nodes x all requests x four hierarchies; 3-node networks x a 20th (fork: a 90th) of the requests (a third of that with two or more random nodes); from two or three '
             'reached states: every single, pair and list intervention at every core (values {20, 0, none}); histories of 2',
    'thorough': '3-node networks x a third (fork: a twelfth) of the requests, histories of 3',
}
ASSUMPTIONS = ['requests as in C14', 'interventions name nodes held in the subtree of the core they are applied to']


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            for t in sim.FOUR:
                many = 3 if tier == 'quick' and sum(k == 'R' for k, _ in sh) > 1 else 1
                mod = 1 if n < 3 else (90 if t == 'fork' else 20) if tier == 'quick' else (12 if t == 'fork' else 3)
                mod *= many if n == 3 else 1
                out.append([t, gen.spec_of(sh, list(gen.SCHEMES)[i % 5]), mod, (5 * i) % mod, 2 if tier == 'quick' else 3])
    return out


def run(job):
    tree, spec, mod, off, depth = job
    gen.install()
    for j, groups in enumerate(sim.configs(tree, spec)):
        if j % mod == off and sim.valid(spec, groups):
            one(spec, groups, j, depth)
    ST.sample({'script': gen.script(spec), 'groups': groups})


def operations(pcs, exo):
    for at in sorted(pcs):
        sub = [p for p in pcs if at in sim.lineage(p)]
        mine = sorted(set().union(*[set(pcs[p].Locus) for p in sub]))
        if at == 'r':
            yield at, {}
            yield at, []
        for i, nm in enumerate(mine):
            yield at, {nm: 20}
            yield at, {nm: 0}
            if nm not in exo:
                yield at, {nm: None}
                yield at, [nm]
            for o in mine[i + 1:]:
                yield at, {nm: 20, o: 30}
                if o not in exo:
                    yield at, {nm: 20, o: None}
                if nm not in exo:
                    yield at, {o: 20, nm: None}
                    if o not in exo:
                        yield at, [o, nm]


def one(spec, groups, j, depth):
    info = dict(script=gen.script(spec), groups=groups)
    bn = gen.build(spec)
    sc = sim.build(bn, groups)
    exo = {e: 7 + i for i, e in enumerate(gen.exo(spec))}
    twice = {1} if len(groups) == 2 else ()

    def start(hist, pattern):
        gen.FORCE[:] = pattern
        try:
            pcs = sim.grow(sc, groups, exo, twice)
            for p in pcs.values():          # half of the cores have their samplers ready
                if j % 2:
                    p.get_samplers()
                    p.get_samplers(False)
            for at, imp in hist:
                pcs[at].impulse(imp)
        finally:
            del gen.FORCE[:]
        return pcs

    pcs = start([], [0])
    ops = list(operations(pcs, exo))
    hists = [[]] + [[o] for o in ops[j % 7::7][:1 if len(spec) == 3 and depth == 2 else 2]]
    if depth > 2:
        hists += [[a, b] for a in ops[j % 11::11][:2] for b in ops[j % 5::5][:2]]
    for hist in hists:
        pat = ([0], [1], [1, 0])[(j + len(hist)) % 3]
        state = sim.unsnap(sim.snap(start(hist, pat)))
        for at, imp in ops:
            keep = dict(imp) if isinstance(imp, dict) else list(imp)

            def once():
                pcs = start(hist, pat)
                pcs[at].impulse(imp)
                return sim.snap(pcs)
            want = sim.ref_impulse(spec, groups, state, at, imp)
            got, k = law(once)
            expect(imp == keep, 'the intervention of the caller was altered')
            expect(got == want, 'state after the intervention: %s, expected %s' % (
                {str(a): str(b) for a, b in got.items()}, {str(a): str(b) for a, b in want.items()}),
                history=hist, at=at, impulse=imp, before=str(state), **info)
            tick('transitions', k)
            tick('traces')
            ST.state((spec, groups, str(state), at, str(imp)))
    ST.outcome(sorted(got) if ops else ())
