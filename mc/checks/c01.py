"""Forward sampling: exact joint law of sample() on every small network, given-set and definition order."""
import itertools
from .. import gen
from ..core import CH, ST, expect, expect_raises, law, tick

BOUNDS = {
    'quick': 'all networks with <=3 nodes (kinds value/random/exogenous/function) x 5 naming schemes x all definition '
             'orders x all given sets x 2 value assignments; all 4-node networks x all given sets; 6 larger networks',
    'thorough': 'as quick, plus all 4-node networks x all naming schemes x all definition orders and all 5-node '
                'networks without value nodes x given sets of size <= 2',
}
ASSUMPTIONS = ['random draws are the finite distribution mcflip registered through DistributionCentre.register; '
               'it stands for any distribution']
GIVEN = ((0, 7.5, -2, 11, 3), (1, 1 / 3 * 1e-7, 0, 1e16 / 7, 2))


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for sh in gen.shapes(n):
            for sc in gen.SCHEMES:
                for o, od in enumerate(itertools.permutations(range(n))):
                    if tier == 'quick' and n == 3 and sc != 'plain' and o not in (0, 5):
                        continue
                    out.append(['small', gen.spec_of(sh, sc), list(od), (o + n) % 2, o % 2])
    for i, sh in enumerate(gen.shapes(4)):
        scs = list(gen.SCHEMES)
        if tier == 'quick':
            out.append(['small', gen.spec_of(sh, scs[i % 5]), [[3, 2, 1, 0], [0, 1, 2, 3]][i % 2], i % 2, i // 2 % 2])
        else:
            for s, sc in enumerate(scs):
                for o, od in enumerate(itertools.permutations(range(4))):
                    if o % 5 == s:
                        out.append(['small', gen.spec_of(sh, sc), list(od), o % 2, s % 2])
    if tier != 'quick':
        for i, sh in enumerate(gen.shapes(5, 'RE')):
            if i % 2 == 0:
                out.append(['lim', gen.spec_of(sh, 'plain'), [4, 3, 2, 1, 0], 1, 1])
    for k in gen.big_shapes():
        for rev in (False, True):
            sp = gen.big_spec(k, rev)
            out.append(['big', sp, list(range(len(sp)))[::-1 if rev else 1], 1, 1])
    return out


def check_given(bn, spec, given, extra=None):
    from sims_pars import sample
    ex = gen.exo(spec)
    arg = dict(given)
    if extra:
        arg.update(extra)
    keep = dict(arg)
    if any(e not in given for e in ex):
        CH.start(())
        expect_raises(ValueError, lambda: sample(bn, arg), 'sampling without an exogenous value', given=given)
        tick('transitions')
        return
    ref = gen.joint(spec, arg)

    def once():
        r = sample(bn, cond=arg) if arg else sample(bn)
        return r

    got, k = law(once, gen.canon)
    tick('traces', k)
    tick('transitions', k)
    expect(arg == keep, 'sample() altered the caller\'s given values', given=given)
    ST.outcome(sorted(got.items()))
    expect(got == ref, 'joint law of sample() differs from the definition of the network: got %s, expected %s'
           % (fmt(got), fmt(ref)), given=given, spec=spec)
    ST.state((spec, sorted(given.items())))


def fmt(lw):
    return {str(dict(k)): str(v) for k, v in sorted(lw.items())[:6]}


def run(job):
    mode, spec, order, gv, how = job
    bn = gen.build(spec, order, declare=bool(gv), how='script' if how else 'frozen')
    names = [nd[0] for nd in spec]
    expect(sorted(bn.Order) == sorted(names), 'nodes of the network: %s' % bn.Order)
    ex = gen.exo(spec)
    if mode == 'small':
        for sub in gen.subsets(names):
            check_given(bn, spec, {n: GIVEN[gv][names.index(n)] for n in sub})
    else:
        for sub in gen.subsets([n for n in names if n not in ex], 0, 2 if mode == 'lim' else 1):
            check_given(bn, spec, {n: GIVEN[gv][names.index(n) % 5] for n in list(sub) + ex})
        if ex:
            check_given(bn, spec, {})
    if mode != 'lim':
        check_given(bn, spec, {n: 2 for n in ex}, {'not_a_node': 99})
    # an unfrozen network samples the same way
    if len(spec) <= 2:
        bn2 = gen.build(spec, order, how='open')
        check_given(bn2, spec, {n: 5 for n in ex})
    ST.sample({'script': gen.script(spec, order), 'order': bn.Order})
