"""Minimal sampling: exactly the needed nodes, exactly the marginal law, only the needed exogenous inputs."""
from .. import gen
from ..core import CH, ST, expect, expect_raises, law, tick

BOUNDS = {
    'quick': 'all networks with <=3 nodes x 3 naming schemes x all (targets, given) set pairs (given values all zero too); every 4-node network x '
             'all targets of size <=2 x all given sets of size <=1; larger networks x all single/pair targets',
    'thorough': 'as quick with all 5 naming schemes for 3 nodes and all (targets, given) pairs for 4-node networks',
}
ASSUMPTIONS = ['random draws are the finite distribution mcflip registered through DistributionCentre.register']
GIVEN = (0, 7.5, -2, 11, 3)
ZEROS = (0, 0.0, 0, 0, 0)


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for sh in gen.shapes(n):
            for s, sc in enumerate(gen.SCHEMES):
                if tier == 'quick' and s > 2:
                    continue
                out.append(['all', gen.spec_of(sh, sc), s % 2])
    for i, sh in enumerate(gen.shapes(4)):
        out.append(['lim' if tier == 'quick' else 'all', gen.spec_of(sh, list(gen.SCHEMES)[i % 5]), i % 2])
    for k in gen.big_shapes():
        for rev in (0, 1):
            out.append(['big', gen.big_spec(k, bool(rev)), rev])
    return out


def run(job):
    mode, spec, rev = job
    bn = gen.build(spec, list(range(len(spec)))[::-1 if rev else 1])
    names = [nd[0] for nd in spec]
    ex = gen.exo(spec)
    if mode == 'all':
        for inc in gen.subsets(names):
            for giv in gen.subsets(names):
                one(bn, spec, inc, giv)
                if giv and (len(names) < 3 or rev == len(giv) % 2):
                    one(bn, spec, inc, giv, ZEROS)
    elif mode == 'lim':
        for inc in gen.subsets(names, 0, 2):
            for giv in gen.subsets(names, 0, 1):
                one(bn, spec, inc, giv, ZEROS if len(inc) == 1 and rev else GIVEN)
                if ex and not set(ex) <= set(giv):
                    one(bn, spec, inc, tuple(set(giv) | set(ex)))
    else:
        for inc in gen.subsets(names, 0, 2):
            one(bn, spec, inc, tuple(ex))
            mid = names[len(names) // 2]
            one(bn, spec, inc, tuple(set(ex) | {mid}))
    ST.sample({'script': gen.script(spec)})


def one(bn, spec, inc, giv, values=GIVEN):
    from sims_pars import sample_minimally
    names = [nd[0] for nd in spec]
    cond = {n: values[names.index(n) % 5] for n in giv}
    keep = dict(cond)
    need = gen.sufficient(spec, inc, cond)
    ex = gen.exo(spec)
    info = dict(script=gen.script(spec), targets=inc, given=cond)
    if any(e in need and e not in cond for e in ex):
        CH.start(())
        expect_raises(ValueError, lambda: sample_minimally(bn, list(inc), cond),
                      'minimal sampling without a needed exogenous value', **info)
        tick('transitions')
        return
    ref = {}
    for k, p in gen.joint(spec, cond, need).items():
        d = dict(k)
        kk = (gen.canon({x: d[x] for x in inc}), gen.canon({x: v for x, v in d.items() if x not in inc}))
        ref[kk] = ref.get(kk, 0) + p

    def key(r):
        sinks, med = r
        return gen.canon(sinks), gen.canon(med)

    got, k = law(lambda: sample_minimally(bn, list(inc), cond), key)
    expect(cond == keep, 'the caller\'s given values were altered', **info)
    expect(got == ref, 'law of (targets, mediators) differs: got %s, expected %s' % (
        list(got.items())[:3], list(ref.items())[:3]), **info)
    tick('traces', k)
    tick('transitions', k)
    ST.state((spec, inc, sorted(cond.items())))
    ST.outcome(sorted(got.items()))
    if len(inc) == 1:
        got2, k = law(lambda: sample_minimally(bn, set(inc), cond, sources=False), gen.canon)
        ref2 = {}
        for (a, b), p in ref.items():
            ref2[a] = ref2.get(a, 0) + p
        expect(got2 == ref2, 'without sources the targets differ', **info)
        tick('traces', k)
