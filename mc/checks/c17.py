"""Life cycle of simulation cores: histories of breeding, copying, removing, detaching, cloning and interventions."""
import itertools
from .. import gen, sim
from ..core import ST, close, expect, expect_raises, tick

BOUNDS = {
    'quick': '2-node networks x all requests on a chain, every 4th on a three-level chain, every 9th on a fork; '
             '3-node networks x every 60th / 200th / 600th request; single operations on chains of four: '
             'all histories of 2 operations (breed, sibling, duplicate, prototype, remove, detach with and without collecting, '
             'four kinds of clone, moving to another simulation core, interventions) over every core; forced draws',
    'thorough': 'the same histories over 2-6 times as many requests, histories of 3 operations on 2-node networks',
}
ASSUMPTIONS = ['requests as in C14', 'draws are forced to one pattern (laws are decided by C14-C16)']


STRIDE = {('chain', 2): (1, 1), ('chain3', 2): (4, 1), ('fork', 2): (9, 3),
          ('chain4', 2): (3, 1), ('chain4', 3): (150, 30), ('chain', 3): (60, 10), ('chain3', 3): (200, 40), ('fork', 3): (600, 120)}


def jobs(tier):
    out = []
    for n in (2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            for t in ('chain', 'fork', 'chain3', 'chain4'):
                mod = STRIDE[t, n][tier != 'quick']
                d = 1 if t == 'chain4' else 2
                out.append([t, gen.spec_of(sh, list(gen.SCHEMES)[i % 5]), mod, (7 * i) % mod, d,
                            3 if tier != 'quick' and n == 2 and d == 2 else d])
    return out


def run(job):
    tree, spec, mod, off, dmin, depth = job
    gen.install()
    for j, groups in enumerate(sim.configs(tree, spec)):
        if j % mod == off and sim.valid(spec, groups):
            World(spec, groups, j).explore(depth if j % 8 == 0 else dmin)
    ST.sample({'script': gen.script(spec), 'groups': groups})


class Node:
    def __init__(self, nick, group, parent):
        self.nick, self.group, self.parent = nick, group, parent
        self.locus, self.children, self.lp, self.blind, self.sc = {}, {}, 0.0, False, 0

    def visible(self):
        vals = self.parent.visible() if self.parent else {}
        vals.update(self.locus)
        return vals

    def sub(self):
        out = [self]
        for c in self.children.values():
            out += c.sub()
        return out


class World:
    def __init__(self, spec, groups, j):
        self.spec, self.groups, self.j = spec, groups, j
        self.info = dict(script=gen.script(spec), groups=groups)
        self.exo = {e: 7 + i for i, e in enumerate(gen.exo(spec))}
        self.fixed, self.bn = {}, None

    # -- one pair (reference node, real core) per object ever made
    def fresh(self):
        self.bn = self.bn or gen.build(self.spec)
        self.sc = sim.build(self.bn, self.groups)
        self.scs = [self.sc]
        self.pairs = []
        root = self.sc.generate('r', dict(self.exo))
        if not self.fixed:
            self.fixed = {g[0]: set(self.sc[g[0]].Fixed) for g in self.groups}
        rn = Node('r', 'G0', None)
        self.draw(rn, self.exo)
        self.pairs.append((rn, root))
        for i, (name, p, _, _) in enumerate(self.groups):
            if p is None:
                continue
            for node, pc in list(self.pairs):
                if node.group == self.groups[p][0]:
                    self.bred(node, 'c%d' % i, name, {}, pc.breed('c%d' % i, name))
        return rn, root

    def draw(self, node, exo):
        """Values of a new core: held nodes given by exo, or drawn with the forced answer 1."""
        vals = node.parent.visible() if node.parent else {}
        vals.update(exo)
        for nd in self.spec:
            if nd[0] in self.fixed[node.group] and nd[0] not in exo:
                vals[nd[0]] = self.force(nd, vals, 1)
        node.locus = {k: v for k, v in vals.items() if k in self.fixed[node.group] or k in exo}
        self.prior(node)

    @staticmethod
    def force(nd, vals, b):
        if nd[1] == 'V':
            return nd[3]
        return gen.value_at(nd, vals) + (b if nd[1] == 'R' else 0)

    def prior(self, node):
        vis = node.visible()
        node.lp = sum(gen.flip_logpdf(vis[nd[0]], gen.value_at(nd, vis), 1) for nd in self.spec
                      if nd[1] == 'R' and nd[0] in self.fixed[node.group])

    def bred(self, parent, nick, group, exo, pc, keep=True):
        n = Node(nick, group, parent)
        n.sc = parent.sc
        self.draw(n, exo)
        if keep:
            parent.children[nick] = n
        self.pairs.append((n, pc))
        return n

    # -- operations
    def operations(self):
        for i, (n, _) in enumerate(self.pairs):
            blind = any(m.blind for m in [n] + self.above(n))
            g = [x for x in self.groups if x[0] == n.group][0]
            kids = [x[0] for x in self.groups if x[1] is not None and self.groups[x[1]][0] == n.group]
            if not blind:
                for k in kids:
                    yield 'breed', i, k
                    yield 'prototype', i, k
                if n.parent:
                    yield 'sibling', i
                    yield 'duplicate', i
                    yield 'detach', i, True
                if not any(m.blind for m in n.sub()):
                    subkeys = sorted(set().union(*[self.fixed[m.group] for m in n.sub()]))
                    for k in subkeys[:2]:
                        yield 'impulse', i, k
                    if not n.parent:
                        for a, b in itertools.product((False, True), repeat=2):
                            yield 'clone', i, a, b
                        yield 'move', i
            if n.parent:
                yield 'detach', i, False
                if n.parent.children.get(n.nick) is n:
                    yield 'remove', i

    @staticmethod
    def above(n):
        out = []
        while n.parent:
            n = n.parent
            out.append(n)
        return out

    def apply(self, op, serial):
        kind, i = op[0], op[1]
        n, pc = self.pairs[i]
        nick = 'n%d' % serial
        if kind == 'breed':
            held = sorted(self.fixed[op[2]])
            exo = {held[0]: 55} if held and serial % 2 else {}
            c = pc.breed(nick, op[2], exo=dict(exo))
            self.bred(n, nick, op[2], exo, c)
            expect(pc.get_child(nick) is c, 'get_child', **self.info)
            expect_raises(ValueError, lambda: pc.breed(nick, op[2]), 'nickname used twice', **self.info)
        elif kind == 'prototype':
            c = pc.get_prototype(op[2])
            self.bred(n, 'prototype', op[2], {}, c, keep=False)
        elif kind == 'sibling':
            c = pc.get_sibling(nick)
            self.bred(n.parent, nick, n.group, {}, c)
        elif kind == 'duplicate':
            c = pc.duplicate(nick)
            self.bred(n.parent, nick, n.group, dict(n.locus), c)
        elif kind == 'remove':
            got = self.real(n.parent).remove_children(n.nick)
            expect(got is pc, 'remove_children returns the child', **self.info)
            del n.parent.children[n.nick]
        elif kind == 'detach':
            pc.detach_from_parent(collect_pars=op[2])
            if n.parent.children.get(n.nick) is not None:
                # the child of that nickname is the one to leave
                del n.parent.children[n.nick]
            if op[2]:
                n.locus = n.visible()
            elif any(m.blind or m.locus for m in self.above(n)):
                n.blind = True
            n.parent = None
        elif kind == 'impulse':
            k = op[2]
            pc.impulse({k: 90 + serial})
            shocked = gen.descendants(self.spec, k)
            for m in n.sub():
                for nd in self.spec:
                    if nd[0] not in self.fixed[m.group]:
                        continue
                    if nd[0] == k:
                        m.locus[k] = 90 + serial
                    elif nd[0] in shocked:
                        m.locus[nd[0]] = self.force(nd, m.visible(), 1)
                self.prior(m)
        elif kind == 'move':
            sc = self.sc.clone()
            self.scs.append(sc)
            pc.reset_sc(sc)
            for m in n.sub():
                m.sc = len(self.scs) - 1
        elif kind == 'clone':
            c = pc.clone(copy_sc=op[2], include_children=op[3])
            if op[2]:
                self.scs.append(c.SG.SC)
                expect(all(c.SG.SC is not s for s in self.scs[:-1]), 'the simulation core was to be copied', **self.info)
            self.copy(n, c, None, op[3], len(self.scs) - 1 if op[2] else n.sc)

    def copy(self, n, c, parent, deep, sc):
        m = Node(n.nick, n.group, parent)
        m.locus, m.lp, m.sc = dict(n.locus), n.lp, sc
        self.pairs.append((m, c))
        if parent:
            parent.children[n.nick] = m
        if deep:
            expect(list(c.Children) == list(n.children), 'children of a clone: %s' % list(c.Children), **self.info)
            for k, x in n.children.items():
                self.copy(x, c.Children[k], m, deep, sc)

    def real(self, n):
        for a, b in self.pairs:
            if a is n:
                return b

    # -- observation
    def check(self, hist, full):
        info = dict(self.info, history=[str(h) for h in hist])
        ids = [id(p) for _, p in self.pairs]
        expect(len(set(ids)) == len(ids), 'two cores are one object', **info)
        for n, pc in self.pairs:
            expect(gen.canon(pc.Locus) == gen.canon(n.locus), 'values held by %s: %s, expected %s' % (n.nick, pc.Locus, n.locus), **info)
            expect(pc.Nickname == n.nick and pc.Group == n.group, 'nickname or group of %s' % n.nick, **info)
            expect(pc.Parent is (self.real(n.parent) if n.parent else None), 'parent of %s' % n.nick, **info)
            expect(set(pc.Children) == set(n.children) and all(pc.Children[k] is self.real(c) for k, c in n.children.items()),
                   'children of %s: %s, expected %s' % (n.nick, list(pc.Children), list(n.children)), **info)
            expect(pc.SG.SC is self.scs[n.sc], 'simulation core of %s' % n.nick, **info)
            vis = n.visible()
            for nd in self.spec:
                if nd[0] in vis:
                    expect(gen.num(pc[nd[0]]) == gen.num(vis[nd[0]]), '%s seen from %s is %r, expected %r' % (
                        nd[0], n.nick, pc[nd[0]], vis[nd[0]]), **info)
                else:
                    expect_raises(KeyError, lambda: pc[nd[0]], '%s seen from %s' % (nd[0], n.nick), **info)
            expect(gen.canon(dict(iter(pc))) == gen.canon(vis), 'iteration over %s' % n.nick, **info)
            expect(close(pc.LogPrior, n.lp), 'log prior of %s is %r, expected %r' % (n.nick, pc.LogPrior, n.lp), **info)
            expect(close(pc.DeepLogPrior, sum(m.lp for m in n.sub())), 'log prior of %s and below' % n.nick, **info)
            for c in n.children.values():
                for d in c.children.values():
                    expect(pc.find_descendant('%s@%s' % (c.nick, d.nick)) is self.real(d), 'find_descendant', **info)
                expect(pc.find_descendant(c.nick) is self.real(c), 'find_descendant', **info)
            if full and not any(m.blind for m in [n] + self.above(n)):
                self.samplers(n, pc, vis, info)
            tick('transitions')

    def samplers(self, n, pc, vis, info):
        for sh in (True, False):
            for k, s in pc.get_samplers(sh).items():
                for b in (0, 1):
                    vals = {x: v for x, v in vis.items() if x != k}
                    need = gen.sufficient(self.spec, [k], vals)
                    for nd in self.spec:
                        if nd[0] in need and nd[0] not in vals:
                            vals[nd[0]] = self.force(nd, vals, b)
                    gen.FORCE[:] = [b]
                    got = s()
                    gen.FORCE[:] = [1]
                    expect(gen.num(got) == gen.num(vals[k]), 'sampler of %s at %s gives %r, expected %r' % (k, n.nick, got, vals[k]), **info)

    def explore(self, depth):
        gen.FORCE[:] = [1]
        try:
            self.fresh()
            self.check([], True)
            first = list(self.operations())
            stack = [[o] for o in reversed(first)]
            while stack:
                hist = stack.pop()
                self.fresh()
                if self.j % 2:
                    for _, pc in self.pairs:
                        pc.get_samplers()
                for i, op in enumerate(hist):
                    self.apply(op, i)
                self.check(hist, True)
                tick('traces')
                ST.state((self.spec, self.groups, hist))
                ST.outcome(tuple((n.nick, gen.canon(n.locus)) for n, _ in self.pairs))
                if len(hist) < depth:
                    ops = list(self.operations())
                    new = set(ops) - set(first)
                    for o in ops:
                        if len(hist) < 2 or o in new:
                            stack.append(hist + [o])
        finally:
            del gen.FORCE[:]
