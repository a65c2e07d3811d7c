"""Group hierarchies over small networks: enumeration, driving the real simulation cores, reference semantics.

A configuration is (spec, groups) with groups = [[name, parent index or None, as_fixed, as_floating], ...].
Every non-exogenous node is requested at most once along a path from the root group.
"""
import itertools
from fractions import Fraction

from . import gen
from .core import expect, law, tick

TREES = {'one': (None,), 'chain': (None, 0), 'fork': (None, 0, 0), 'chain3': (None, 0, 1), 'chain4': (None, 0, 1, 2)}
FOUR = ('one', 'chain', 'fork', 'chain3')


def options(tree):
    """What may be requested of one node: tuple of (group, how)."""
    n = len(tree)
    out = [()]
    out += [((g, h),) for g in range(n) for h in 'fl']
    if tree == (None, 0, 0):
        out += [((1, a), (2, b)) for a in 'fl' for b in 'fl']
    return out


def configs(tree_name, spec):
    tree = TREES[tree_name]
    names = [nd[0] for nd in spec if nd[1] != 'E']
    for combo in itertools.product(options(tree), repeat=len(names)):
        gs = [['G%d' % i, p, [], []] for i, p in enumerate(tree)]
        for nm, opt in zip(names, combo):
            for g, h in opt:
                gs[g][2 if h == 'f' else 3].append(nm)
        if not redone(spec, gs):
            yield gs


def redone(spec, groups):
    """A group asks for its own fixed value of something a fixed node of a group above already rests upon."""
    for _, p, fx, _ in groups:
        while p is not None:
            if any(set(fx) & gen.ancestors(spec, x) for x in groups[p][2]):
                return True
            p = groups[p][1]
    return False


def valid(spec, groups):
    """A group may not ask for a floating node upstream of one of its own fixed nodes."""
    for _, _, fx, fl in groups:
        up = set(fx).union(*[gen.ancestors(spec, x) for x in fx]) if fx else set()
        if any(d in up and d not in fx for d in fl):
            return False
    return True


def hierarchy(groups):
    from sims_pars.simulation import NodeSet
    ns = []
    for name, p, fx, fl in groups:
        if p is None:
            ns.append(NodeSet(name, as_fixed=list(fx) or None, as_floating=list(fl) or None))
        else:
            ns.append(ns[p].new_child(name, as_fixed=list(fx) or None, as_floating=list(fl) or None))
    return ns[0]


def build(bn, groups):
    from sims_pars.simulation import as_simulation_core
    return as_simulation_core(bn, hierarchy(groups))


def grow(sc, groups, exo, twice=()):
    """Root and one core per group (two for the groups in `twice`); {path: core}."""
    pcs = {}
    where = {}
    for i, (name, p, _, _) in enumerate(groups):
        if p is None:
            pcs['r'] = sc.generate('r', dict(exo))
            where[i] = ['r']
            continue
        where[i] = []
        for path in where[p]:
            for k in range(2 if i in twice else 1):
                nick = 'c%d%s' % (i, 'ab'[k])
                pcs[path + '@' + nick] = pcs[path].breed(nick, name)
                where[i].append(path + '@' + nick)
    return pcs


def group_of(path, groups):
    if path == 'r':
        return 0
    return int(path.split('@')[-1][1])


def up(path):
    return path.rsplit('@', 1)[0] if '@' in path else None


def lineage(path):
    out = []
    while path is not None:
        out.append(path)
        path = up(path)
    return out


def snap(pcs):
    return tuple((p, gen.canon(pcs[p].Locus)) for p in sorted(pcs))


def unsnap(s):
    return {p: dict(v) for p, v in s}


def visible(state, path):
    vals = {}
    for p in reversed(lineage(path)):
        vals.update(state.get(p, {}))
    return vals


def keys_of(pcs):
    return {p: set(pcs[p].Locus) for p in pcs}


def paths_in_order(keys):
    return sorted(keys, key=lambda p: (p.count('@'), p))


def ref_growth(spec, keys, exo, info):
    """Exact law of the values of all cores: each node drawn at its owner given what is visible there."""
    by = gen.by_name(spec)
    states = [({p: {} for p in keys}, Fraction(1))]
    for p in paths_in_order(keys):
        for nd in spec:
            nm = nd[0]
            if nm not in keys[p]:
                continue
            nxt = []
            for st, w in states:
                vis = visible(st, p)
                if p == 'r' and nm in exo:
                    outs = [(exo[nm], Fraction(1))]
                else:
                    expect(by[nm][1] != 'E', 'an exogenous node is held by core %s' % p, **info)
                    expect(all(x in vis for x, _ in nd[2]), 'core %s holds %s but does not see all of its parents' % (p, nm),
                           **info)
                    outs = gen.outcomes(nd, vis)
                for v, q in outs:
                    s2 = {a: dict(b) for a, b in st.items()}
                    s2[p][nm] = v
                    nxt.append((s2, w * q))
            states = nxt
    return collect(states)


def collect(states):
    res = {}
    for st, w in states:
        k = tuple((p, gen.canon(st[p])) for p in sorted(st))
        res[k] = res.get(k, 0) + w
    return res


def ref_impulse(spec, groups, state, at, imp):
    """Exact law of the state after an intervention at core `at` (imp: dict or list)."""
    given = {k: v for k, v in imp.items() if v is not None} if isinstance(imp, dict) else {}
    free = [k for k in imp if k not in given]
    shocked = set(free).union(*[gen.descendants(spec, k) for k in imp]) if imp else set()
    shocked = (shocked - set(given)) | set(free)
    states = [({p: dict(v) for p, v in state.items()}, Fraction(1))]
    sub = [p for p in sorted(state, key=lambda p: (p.count('@'), p)) if at in lineage(p)]
    for p in sub:
        for nd in spec:
            nm = nd[0]
            if nm not in state[p]:
                continue
            if nm in given:
                for st, _ in states:
                    st[p][nm] = given[nm]
            elif nm in shocked and nd[1] != 'E':
                nxt = []
                for st, w in states:
                    for v, q in gen.outcomes(nd, visible(st, p)):
                        s2 = {a: dict(b) for a, b in st.items()}
                        s2[p][nm] = v
                        nxt.append((s2, w * q))
                states = nxt
    return collect(states)


def ref_sampler(spec, vis, k):
    """Law of a fresh draw of k: what is visible is given, the rest upstream is drawn."""
    given = {n: v for n, v in vis.items() if n != k}
    need = gen.sufficient(spec, [k], given)
    j = gen.joint(spec, {n: v for n, v in given.items() if n in need}, need)
    res = {}
    for key, w in j.items():
        v = dict(key)[k]
        res[v] = res.get(v, 0) + w
    return res


def floating(spec, groups, state, path):
    """Samplers a core must have: nodes requested floating in its group that are not visible there."""
    g = groups[group_of(path, groups)]
    vis = visible(state, path)
    return [k for k in g[3] if k not in vis]


def check_samplers(spec, groups, pcs, info, only=None, shared=(True, False), n_paths=None):
    """Every sampler of every core follows the conditional law given the values visible at the core."""
    state = {p: dict(gen.canon(pcs[p].Locus)) for p in pcs}
    k = 0
    for p, pc in pcs.items():
        if only is not None and p not in only:
            continue
        vis = visible(state, p)
        for sh in shared:
            sm = pc.get_samplers(sh)
            for nm in floating(spec, groups, state, p):
                expect(nm in sm, 'core %s has no sampler of %s' % (p, nm), **info)
            expect(sorted(pc.list_actors(sh)) == sorted(sm), 'list of actors', **info)
            for nm, s in sm.items():
                want = ref_sampler(spec, vis, nm)
                got, c = law(lambda: gen.num(s()))
                expect(got == want, 'sampler of %s at %s (shared=%s): law %s, expected %s' % (
                    nm, p, sh, {str(a): str(b) for a, b in got.items()}, {str(a): str(b) for a, b in want.items()}),
                    state=str(state), **info)
                k += c
    tick('transitions', k)
    return k


def prior_of(spec, state, path, fixed_keys):
    vis = visible(state, path)
    lp = 0.0
    for nd in spec:
        if nd[0] in fixed_keys and nd[1] == 'R':
            lp += gen.flip_logpdf(vis[nd[0]], gen.value_at(nd, vis), 1)
    return lp
