"""Bounded program spaces: every Bayesian network over n nodes, naming schemes, definition orders.

A network spec is a list of nodes  [name, kind, [[parent, coef], ...], const]
  V  value        name = const
  R  random       name ~ mcflip(loc=<sum coef*parent + const>, w=1)   outcomes loc (1/4), loc + 1 (3/4)
  E  exogenous    name
  F  function     name = <sum coef*parent + const>
The reference semantics below is written from that table only; it never reads the code under test.
"""
import copy
import itertools
import math
from fractions import Fraction

from . import core
from .core import CH

P0 = Fraction(1, 4)
LOG0, LOG1 = math.log(0.25), math.log(0.75)

SCHEMES = {
    'plain': ['a', 'b', 'c', 'd', 'e'],
    'reverse': ['e', 'd', 'c', 'b', 'a'],
    'prefix': ['x', 'x1', 'x10', 'x1_0', 'xx'],
    'clash': ['loc', 'beta', 'k', 'norm', 'w'],
    'case': ['B', 'b', 'A', 'a_', '_b'],
}
CLASHING = ('clash',)


def shapes(n, kinds0='VRE', kinds1='FR'):
    """All (kind, parent index tuple) lists over n nodes in topological order."""
    def rec(i):
        if i == 0:
            yield []
            return
        for base in rec(i - 1):
            j = i - 1
            for r in range(j + 1):
                for pas in itertools.combinations(range(j), r):
                    for k in (kinds1 if pas else kinds0):
                        yield base + [(k, pas)]
    return rec(n)


def spec_of(shape, scheme='plain'):
    names = SCHEMES[scheme]
    out = []
    for i, (k, pas) in enumerate(shape):
        out.append([names[i], k, [[names[p], 1 + 2 * j] for j, p in enumerate(pas)], i])
    return out


def expr(node):
    s = ['%s*%d' % (p, c) if c != 1 else p for p, c in node[2]]
    if node[3] or not s:
        s.append(str(node[3]))
    return '+'.join(s)


def definition(node):
    name, k = node[0], node[1]
    if k == 'V':
        return '%s = %s' % (name, node[3])
    if k == 'E':
        return name
    if k == 'F':
        e = expr(node)
        return '%s = %s' % (name, e)
    if k == 'R':
        return '%s ~ mcflip(loc=%s, w=1)' % (name, expr(node))
    raise ValueError(k)


def script(spec, order=None, name='M', declare=True):
    """Script text of the network; definitions listed in `order` (indices)."""
    order = range(len(spec)) if order is None else order
    used = {p for nd in spec for p, _ in nd[2]}
    lines = []
    for i in order:
        if spec[i][1] == 'E' and not declare and spec[i][0] in used:
            continue
        lines.append('    ' + definition(spec[i]))
    return 'PCore %s {\n%s\n}' % (name, '\n'.join(lines))


# ---------------------------------------------------------------- reference semantics
def by_name(spec):
    return {nd[0]: nd for nd in spec}


def value_at(node, vals):
    return sum(vals[p] * c for p, c in node[2]) + node[3]


def parents(spec):
    return {nd[0]: {p for p, _ in nd[2]} for nd in spec}


def closure(adj, x):
    seen, todo = set(), list(adj.get(x, ()))
    while todo:
        y = todo.pop()
        if y not in seen:
            seen.add(y)
            todo.extend(adj.get(y, ()))
    return seen


def ancestors(spec, x):
    return closure(parents(spec), x)


def children(spec):
    ch = {nd[0]: set() for nd in spec}
    for nd in spec:
        for p, _ in nd[2]:
            ch[p].add(nd[0])
    return ch


def descendants(spec, x):
    return closure(children(spec), x)


def exo(spec):
    return [nd[0] for nd in spec if nd[1] == 'E']


def outcomes(node, vals):
    """[(value, probability)] of one node given its parents' values; None when undefined (exogenous)."""
    if node[1] == 'V':
        return [(node[3], Fraction(1))]
    if node[1] == 'F':
        return [(value_at(node, vals), Fraction(1))]
    if node[1] == 'R':
        m = value_at(node, vals)
        return [(m, P0), (m + 1, 1 - P0)]
    return None


def joint(spec, given, needed=None):
    """Exact law over assignments of (needed | given): {tuple(sorted items): prob}."""
    res = {(): Fraction(1)}
    states = [({}, Fraction(1))]
    states = [(dict(given), Fraction(1))]
    for nd in spec:
        nm = nd[0]
        if nm in given or (needed is not None and nm not in needed):
            continue
        nxt = []
        for vals, w in states:
            for v, p in outcomes(nd, vals):
                d = dict(vals)
                d[nm] = v
                nxt.append((d, w * p))
        states = nxt
    res = {}
    for vals, w in states:
        k = canon(vals)
        res[k] = res.get(k, 0) + w
    return res


def sufficient(spec, included, given):
    """Nodes needed to know `included` when `given` are known (given included ones count)."""
    pa = parents(spec)
    need, todo = set(), list(included)
    while todo:
        x = todo.pop()
        if x in need:
            continue
        need.add(x)
        if x not in given:
            todo.extend(pa[x])
    return need


def num(v):
    """Canonical number: 2, 2.0 and np.float64(2) are the same value."""
    if isinstance(v, bool):
        return ('bool', v)
    try:
        f = float(v)
    except (TypeError, ValueError):
        return ('obj', repr(v))
    if f != f:
        return 'nan'
    return int(f) if f == int(f) and abs(f) < 1e15 else round(f, 9)


def canon(vals):
    return tuple(sorted((k, num(v)) for k, v in dict(vals).items()))


def logpdf(spec, vals):
    """Reference log density of the random nodes in vals (all their parents must be in vals)."""
    lp = 0.0
    for nd in spec:
        if nd[0] in vals and nd[1] == 'R':
            m = value_at(nd, vals)
            lp += flip_logpdf(vals[nd[0]], m, 1)
    return -math.inf if math.isnan(lp) else lp


def flip_logpdf(v, loc, w):
    if v == loc:
        return LOG0
    if v == loc + w:
        return LOG1
    if v != v or loc != loc:
        return math.nan
    return -math.inf


# ---------------------------------------------------------------- the finite distribution (public seam)
_INST = {}
FORCE = []
DRAW = [None]
FAULT = []                                      # [k]: the k-th draw or density from now on fails


class Fault(Exception):
    """A failure planted in a distribution, a simulation or a distance."""


def trip():
    if FAULT:
        FAULT[0] -= 1
        if FAULT[0] < 0:
            del FAULT[:]
            raise Fault('planted')


def install():
    """Register the finite distributions through DistributionCentre.register (public API)."""
    if _INST:
        return _INST
    core.load_sut()
    import numpy as np
    import pydantic.types as ptp
    from sims_pars.factory import AbsCreator
    from sims_pars.prob import AbsDistribution, DistributionCentre

    class McFlip(AbsDistribution):
        def __init__(self, loc, w):
            AbsDistribution.__init__(self)
            self.loc, self.w = loc, w

        @property
        def Interval(self):
            return self.loc, self.loc + self.w

        @property
        def Type(self):
            return 'Double'

        def sample(self, n=1, **kwargs):
            if n != 1:
                return np.array([self.sample() for _ in range(n)])
            trip()
            if FORCE:                           # the prologue of a history: one fixed pattern of answers
                FORCE.append(FORCE.pop(0))
                return self.loc + self.w * FORCE[-1]
            return self.loc + self.w * CH.pick(2, (P0, 1 - P0), 'flip')

        def logpdf(self, v):
            trip()
            if isinstance(v, (list, np.ndarray)):
                return np.array([flip_logpdf(x, self.loc, self.w) for x in v])
            return flip_logpdf(v, self.loc, self.w)

        def mean(self):
            return self.loc + 0.75 * self.w

        def std(self):
            return self.w * math.sqrt(3) / 4

    class CreMcFlip(AbsCreator):
        loc: float = 0
        w: ptp.PositiveFloat = 1

        def create(self):
            return McFlip(self.loc, self.w)

    class McPick(AbsDistribution):
        """One of n equally likely values loc, loc + 1, ..."""

        def __init__(self, n, loc):
            AbsDistribution.__init__(self)
            self.n, self.loc = n, loc

        @property
        def Interval(self):
            return self.loc, self.loc + self.n - 1

        @property
        def Type(self):
            return 'Double'

        def sample(self, n=1, **kwargs):
            if n != 1:
                return np.array([self.sample() for _ in range(n)])
            return float(self.loc + CH.pick(self.n, None, 'pick'))

        def logpdf(self, v):
            return -math.log(self.n) if v - self.loc in range(self.n) else -math.inf

        def mean(self):
            return self.loc + (self.n - 1) / 2

        def std(self):
            return math.sqrt((self.n ** 2 - 1) / 12)

    class CreMcPick(AbsCreator):
        n: ptp.PositiveInt = 2
        loc: float = 0

        def create(self):
            return McPick(self.n, self.loc)

    class McUnif(AbsDistribution):
        """Cheap continuous distributions; DRAW[0]() supplies the position in the unit interval."""

        def __init__(self, lo, hi):
            AbsDistribution.__init__(self)
            self.lo, self.hi = lo, hi

        @property
        def Interval(self):
            return self.lo, self.hi

        @property
        def Type(self):
            return 'Double'

        def sample(self, n=1, **kwargs):
            if n != 1:
                return np.array([self.sample() for _ in range(n)])
            return float(self.lo + (self.hi - self.lo) * DRAW[0]())

        def logpdf(self, v):
            return -math.log(self.hi - self.lo) if self.lo <= v <= self.hi else -math.inf

        def mean(self):
            return (self.lo + self.hi) / 2

        def std(self):
            return (self.hi - self.lo) / math.sqrt(12)

    class McNorm(McUnif):
        @property
        def Interval(self):
            return -math.inf, math.inf

        def sample(self, n=1, **kwargs):
            return float(self.lo + self.hi * (DRAW[0]() * 2 - 1))

        def logpdf(self, v):
            return -0.5 * ((v - self.lo) / self.hi) ** 2 - math.log(self.hi * math.sqrt(2 * math.pi))

        def mean(self):
            return self.lo

        def std(self):
            return self.hi

    class CreMcUnif(AbsCreator):
        lo: float = 0
        hi: float = 1

        def create(self):
            return McUnif(self.lo, self.hi)

    class CreMcNorm(AbsCreator):
        mu: float = 0
        sd: ptp.PositiveFloat = 1

        def create(self):
            return McNorm(self.mu, self.sd)

    def put(name, cls):
        fix = cls.schema()
        cls.schema = classmethod(lambda c, *a, **k: copy.deepcopy(fix))
        DistributionCentre.register(name, cls)
    put('mcpick', CreMcPick)
    put('mcunif', CreMcUnif)
    put('mcnorm', CreMcNorm)

    # pydantic builds the schema of a class anew for each question; it is a constant
    full = CreMcFlip.schema()
    CreMcFlip.schema = classmethod(lambda cls, *a, **k: copy.deepcopy(full) if not (a or k) else
                                   super(CreMcFlip, cls).schema(*a, **k))
    DistributionCentre.register('mcflip', CreMcFlip)
    _INST['flip'] = McFlip
    return _INST


def build(spec, order=None, declare=True, how='script', name='M'):
    """Build the network with the code under test."""
    install()
    from sims_pars.bayesnet import BayesianNetwork, bayes_net_from_script
    if how == 'script':
        return bayes_net_from_script(script(spec, order, name, declare))
    bn = BayesianNetwork(name)
    used = {p for nd in spec for p, _ in nd[2]}
    for i in (range(len(spec)) if order is None else order):
        if spec[i][1] == 'E' and not declare and spec[i][0] in used:
            continue
        bn.append_from_definition(definition(spec[i]))
    if how == 'frozen':
        bn.complete()
    return bn


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    hi = len(xs) if hi is None else hi
    for r in range(lo, hi + 1):
        yield from itertools.combinations(xs, r)


# structured larger instances -------------------------------------------------
def big_shapes():
    """A few larger networks with little randomness: chains, wide fans, diamonds, layered nets."""
    chain = [('R', ())] + [('F' if i % 4 else 'R', (i - 1,)) for i in range(1, 12)]
    fan_in = [('V' if i % 3 else 'R', ()) for i in range(7)] + [('R', tuple(range(7)))]
    fan_out = [('R', ())] + [('F', (0,)) for _ in range(6)] + [('R', (1, 4, 6))]
    diamond = [('R', ()), ('F', (0,)), ('R', (0,)), ('F', (1, 2)), ('R', (0, 3)), ('F', (3, 4)), ('R', (5,))]
    layered = [('E', ()), ('R', ()), ('F', (0, 1)), ('R', (0, 2)), ('F', (1, 2)), ('F', (3, 4)), ('R', (0, 5)),
               ('F', (2, 6))]
    two = [('R', ()), ('F', (0,)), ('V', ()), ('R', (2,)), ('F', (2, 3)), ('E', ()), ('R', (5,))]
    return {'chain': chain, 'fan_in': fan_in, 'fan_out': fan_out, 'diamond': diamond, 'layered': layered,
            'two': two}


def big_spec(kind, rev=False):
    sh = big_shapes()[kind]
    n = len(sh)
    names = ['v%02d' % (n - i if rev else i) for i in range(n)]
    return [[names[i], k, [[names[p], 1 + j % 2] for j, p in enumerate(pas)], i % 3]
            for i, (k, pas) in enumerate(sh)]
