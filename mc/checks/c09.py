"""Graph queries against brute force on all small directed acyclic graphs."""
import itertools
from .. import gen
from ..core import ST, expect, tick

BOUNDS = {
    'quick': 'all labelled-by-order DAGs with <=4 nodes x 3 insertion orders x all node sets / (targets, given) pairs; '
             'all 1024 5-node DAGs x single and pair arguments',
    'thorough': 'as quick with all (targets, given) pairs for 5 nodes and all 32768 6-node DAGs x single arguments',
}
ASSUMPTIONS = ['the targets of remove_upstream and remove_downstream are kept, as the methods spell out']
NAMES = ['c', 'a', 'e', 'b', 'd', 'f']


def jobs(tier):
    out = []
    for n in (1, 2, 3, 4, 5) + (() if tier == 'quick' else (6,)):
        pairs = list(itertools.combinations(range(n), 2))
        masks = range(1 << len(pairs))
        step = 1 if n < 5 else 16
        for lo in range(0, 1 << len(pairs), step):
            out.append([n, list(masks[lo:lo + step]), 'all' if n < 5 or (tier != 'quick' and n == 5) else 'lim'])
    return out


def run(job):
    n, masks, mode = job
    pairs = list(itertools.combinations(range(n), 2))
    for m in masks:
        edges = [(NAMES[a], NAMES[b]) for i, (a, b) in enumerate(pairs) if m >> i & 1]
        for ins in range(3 if n < 5 else 1):
            graph(NAMES[:n], edges, ins, mode)
    ST.sample({'nodes': NAMES[:n], 'edges': edges})


def build(names, edges, ins):
    from sims_pars.bayesnet.dag import DAG
    g = DAG()
    ns = names[::-1] if ins == 1 else names
    for x in (ns if ins != 2 else ()):
        g.add_node(x, loci=x)
    for a, b in (edges[::-1] if ins == 1 else edges):
        g.add_edge(a, b)
    for x in names:
        g.add_node(x, loci=x)
    return g


def shape(g):
    return sorted(g.nodes), sorted(g.edges)


def graph(names, edges, ins, mode):
    from sims_pars.bayesnet import dag
    g = build(names, edges, ins)
    before = shape(g)
    pa = {x: {a for a, b in edges if b == x} for x in names}
    ch = {x: {b for a, b in edges if a == x} for x in names}
    anc = {x: gen.closure(pa, x) for x in names}
    des = {x: gen.closure(ch, x) for x in names}
    info = dict(edges=edges)

    def eq(label, got, ref, ordered=False):
        expect(sorted(got) == sorted(ref), '%s = %s, expected %s' % (label, sorted(got), sorted(ref)), **info)
        if ordered:
            got = list(got)
            for i, x in enumerate(got):
                expect(not anc[x] & set(got[i + 1:]), '%s = %s is not in topological order' % (label, got), **info)
        tick('transitions')

    eq('roots', g.roots(), [x for x in names if not pa[x]])
    eq('leaves', g.leaves(), [x for x in names if not ch[x]])
    eq('order', g.order(), names, True)
    expect(g.check_acyclic(), 'an acyclic graph is reported as cyclic', **info)
    for x in names:
        eq('parents(%s)' % x, g.parents(x), pa[x])
        eq('children(%s)' % x, g.children(x), ch[x])
        eq('ancestors(%s)' % x, g.ancestors(x), anc[x])
        eq('descendants(%s)' % x, g.descendants(x), des[x])
        h = build(names, edges, ins)
        h.remove_in_edges(x)
        expect(shape(h) == (before[0], [e for e in before[1] if e[1] != x]), 'remove_in_edges(%s): %s' % (x, shape(h)), **info)
        h = build(names, edges, ins)
        h.remove_out_edges(x)
        expect(shape(h) == (before[0], [e for e in before[1] if e[0] != x]), 'remove_out_edges(%s): %s' % (x, shape(h)), **info)
        for y in names:
            if y in anc[x] or y == x:
                h = build(names, edges, ins)
                h.add_edge(x, y)
                expect(not h.check_acyclic(), 'a cyclic graph is reported as acyclic', extra=(x, y), **info)
    sets = list(gen.subsets(names, 0, None if mode == 'all' else 2))
    for s in sets:
        eq('upstream(%s)' % (s,), g.upstream(s), set().union(*[anc[x] for x in s]))
        eq('downstream(%s)' % (s,), g.downstream(list(s)), set().union(*[des[x] for x in s]))
        eq('get_offsprings(%s)' % (s,), dag.get_offsprings(g, s), set().union(*[des[x] for x in s]))
        eq('sort(%s)' % (s,), g.sort(list(s)[::-1]), s, True)
        for label, gone in (('remove_upstream', set().union(*[anc[x] for x in s])),
                            ('remove_downstream', set().union(*[des[x] for x in s]))):
            for arg in [list(s)] + list(s[:1] if len(s) == 1 else ()):
                h = build(names, edges, ins)
                getattr(h, label)(arg)
                left = set(names) - (gone - set(s))
                expect(shape(h) == (sorted(left), [e for e in before[1] if set(e) <= left]),
                       '%s(%s) leaves %s' % (label, arg, shape(h)), **info)
        mid = {x for x in names if x in s or (any(y in anc[x] for y in s) and any(y in des[x] for y in s))}
        sub = dag.minimal_dag(g, list(s))
        eq('minimal_dag(%s)' % (s,), sub.nodes, mid)
        eq('edges of minimal_dag(%s)' % (s,), sub.edges, [e for e in edges if set(e) <= mid])
        eq('order of minimal_dag', sub.order(), mid, True)
        # deliberately not related to the query: the arguments are not changed
        for giv in gen.subsets(names, 0, None if mode == 'all' else 1):
            need, todo = set(), list(s)
            while todo:
                x = todo.pop()
                if x not in need:
                    need.add(x)
                    if x not in giv:
                        todo.extend(pa[x])
            for form in (list(giv), {k: 0 for k in giv}) if len(giv) < 3 else (set(giv),):
                eq('get_sufficient_nodes(%s | %s)' % (s, giv), dag.get_sufficient_nodes(g, list(s), form), need)
                eq('get_minimal_nodes(%s | %s)' % (s, giv), dag.get_minimal_nodes(g, list(s), form), need - set(giv))
                if len(s) == 1 and s[0] not in giv:
                    eq('minimal_requirements(%s | %s)' % (s, giv), dag.minimal_requirements(g, s[0], list(form)),
                       need - set(s), True)
        eq('get_sufficient_nodes(%s)' % (s,), dag.get_sufficient_nodes(g, set(s)), set(s).union(*[anc[x] for x in s]))
    # union of two graphs
    for cut in range(len(edges) + 1):
        a = build(names[:max(1, len(names) - 1)], [e for e in edges[:cut] if names[-1] not in e or len(names) == 1], 0)
        b = build(names, edges[cut:], 0)
        sa, sb = shape(a), shape(b)
        m = dag.merge_dag(a, b)
        expect(shape(m) == (sorted(set(sa[0]) | set(sb[0])), sorted(set(sa[1]) | set(sb[1]))),
               'merge_dag: %s' % (shape(m),), **info)
        expect(shape(a) == sa and shape(b) == sb, 'merge_dag altered its arguments', **info)
        eq('roots of the merged graph', m.roots(), [x for x in names if x not in {e[1] for e in shape(m)[1]}])
        if mode != 'all':
            break
    c = g.copy()
    c.add_edge(names[0], 'zz')
    c.remove_node(names[-1])
    expect(shape(g) == before, 'a query or a change of a copy altered the graph', **info)
    ST.state((names, edges))
    tick('traces')
