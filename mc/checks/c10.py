"""Definitions of distributions: every way of writing the arguments gives the same distribution."""
import itertools
import math
from .. import gen
from ..core import CH, ST, close, expect, expect_raises, law, tick

BOUNDS = {
    'quick': '3-field distribution: every split of the fields into positional, keyword (all orders) and omitted x 24 '
             'argument expressions x 3 ways of giving the parents; each shipped distribution: every split x parameter '
             'grid; 7 registered signatures (mandatory parameters, names that begin with one another); arguments nobody asked for; parameter domains; names of variables equal to distributions, fields and functions; registered '
             'math functions and data functions',
    'thorough': 'as quick with all pairs and triples of argument expressions',
}
ASSUMPTIONS = ['positional arguments fill, in order, the fields not given by name (as in R)']
ENV = {'a': 2, 'b': 0.5, 'c': -3, 'beta': 4, 'k': 7, 'mc3': 6, 'p': 11, 'zero': 0}
EXPRS = ['1', '0', '0.25', '-2', '1e-07', 'a', 'b', 'zero', 'a + 1', 'a*(b + 2)', '(a)', '-a', 'a/4', 'a**2 - b', 'exp(b)',
         'sqrt(abs(c))', 'beta', 'k + beta', 'mc3', 'max(a, b)', 'ifelse(a > b, 3, 4)', 'step(a, 5, a, b)', 'p',
         'log(exp(a) + pow(a, 3))']
FIELDS = (('p', 1.5), ('q', -2.5), ('r', 3.5))
SHIPPED = {
    'k': (('k', 0.0),), 'gamma': (('shape', 1.0), ('rate', 1.0)), 'exp': (('rate', 1.0),),
    'lnorm': (('meanlog', 0.0), ('sdlog', 1.0)), 'unif': (('min', 0.0), ('max', 1.0)), 'chisq': (('df', 1.0),),
    'beta': (('shape1', 1.0), ('shape2', 1.0)), 'invgamma': (('a', None), ('rate', 1.0)),
    'norm': (('mean', 0.0), ('sd', 1.0)), 'triangle': (('a', 0.0), ('m', 0.5), ('b', 1.0)),
    'binom': (('size', 1), ('prob', 0.5)), 'pois': (('lam', 1.0),),
}
GRID = {'shape': (0.5, 3), 'rate': (0.25, 2), 'meanlog': (0, 0.5), 'sdlog': (0.3, 0.75), 'min': (-2, 0.5), 'max': (1, 4),
        'df': (2, 5), 'shape1': (0.5, 2), 'shape2': (1, 3), 'a': (3, 4.5), 'mean': (-1, 2), 'sd': (0.5, 2), 'm': (5, 5.5),
        'b': (6, 7), 'size': (1, 5), 'prob': (0.25, 0.9), 'lam': (0.5, 4), 'k': (0, 2.5)}
BAD = {'shape': (0, -1), 'rate': (0, -1), 'meanlog': (-0.5,), 'sdlog': (0, -1), 'df': (0, -2), 'shape1': (0, -1),
       'shape2': (0, -1), 'sd': (0, -1), 'size': (0, -1, 2.5), 'prob': (-0.1, 1.1), 'lam': (0, -1)}

SIGS = [(('s', 1.5), ('s2', 2.5), ('S', 3.5)), (('z', 1.5), ('y', 2.5), ('x', 3.5)), (('x10', 1.5), ('x1', 2.5), ('x', 3.5)),
        (('lo', None), ('up', None), ('at', 0.5)), (('_a'[1:], None), ('ab', 4.0), ('abc', None), ('b', -1.0)), (('n', None),),
        (('w', 0.0), ('k', -1.0), ('min', 1e-9), ('exp', 2.0))]


def jobs(tier):
    out = []
    n = len(EXPRS)
    for i in range(n):
        trip = [[i, (i + 5) % n, (i + 11) % n], [i, i, i], [(i + 3) % n, i, (i + 1) % n]]
        if tier != 'quick':
            trip += [[i, j, (i + 2 * j) % n] for j in range(n)] + [[(i + j) % n, j, i] for j in range(n)]
        out.append(['forms', trip])
    out += [['shipped', d] for d in SHIPPED]
    out += [['domain', d] for d in SHIPPED]
    out += [['cat', None], ['names', None], ['func', None], ['data', None], ['text', None], ['registry', None]]
    out += [['signature', i] for i in range(len(SIGS))]
    return out


def splits(n):
    """(positional fields in order, keyword fields in written order, omitted) for n fields."""
    for roles in itertools.product('PKO', repeat=n):
        kw = [i for i in range(n) if roles[i] == 'K']
        rest = [i for i in range(n) if roles[i] != 'K']
        # positional ones fill the first fields not named
        npos = sum(r == 'P' for r in roles)
        if any(roles[i] != 'P' for i in rest[:npos]):
            continue
        for od in itertools.permutations(kw):
            yield rest[:npos], list(od), rest[npos:]


_DONE = {}


def install():
    gen.install()
    if _DONE:
        return
    from sims_pars.factory import AbsCreator
    from sims_pars.prob import DistributionCentre
    Base = type(gen._INST['flip'])
    from sims_pars.prob import AbsDistribution

    class Rec(AbsDistribution):
        def __init__(self, *vs):
            AbsDistribution.__init__(self)
            self.vs = vs
        Interval = property(lambda self: (0, 1))
        Type = property(lambda self: 'Double')

        def sample(self, n=1, **kw):
            return self.vs

        def logpdf(self, v):
            return 0.0

        def mean(self):
            return 0

        def std(self):
            return 0

    class CreMc3(AbsCreator):
        p: float = 1.5
        q: float = -2.5
        r: float = 3.5

        def create(self):
            return Rec(self.p, self.q, self.r)

    class CreMcText(AbsCreator):
        label: str = 'dflt x'
        n: float = 1

        def create(self):
            return Rec(self.label, self.n)

    DistributionCentre.register('mc3', CreMc3)
    DistributionCentre.register('mctext', CreMcText)
    _DONE['y'] = Rec


def math_env():
    import numpy as np
    return dict(exp=math.exp, sqrt=math.sqrt, abs=abs, max=max, log=math.log, pow=pow,
                ifelse=lambda c, a, b: a if c else b, step=lambda k, c, a, b: a if k < c else b)


def names_in(exprs):
    import re
    out = set()
    for e in exprs:
        for m in re.finditer(r'[A-Za-z_]\w*(?!\w)(\s*\()?', e):
            if not m.group(1) and not re.match(r'\d', m.group(0)):
                if not re.search(r'\de$', e[:m.end()]):
                    out.add(m.group(0))
    return {x for x in out if x in ENV}


def run(job):
    install()
    globals()['do_' + job[0]](job[1])
    ST.state(job)
    ST.sample(job[0])


def write(name, pos, kw):
    return '%s(%s)' % (name, ', '.join(pos + ['%s=%s' % x for x in kw]))


def do_forms(trips):
    from sims_pars.bayesnet.loci import DistributionLoci
    from sims_pars.prob import complete_function, parse_distribution
    from sims_pars.bayesnet import Chromosome
    me = math_env()
    for tr in trips:
        ex = [EXPRS[i] for i in tr]
        vals = [float(eval(e, dict(me), dict(ENV))) for e in ex]
        for pos, kw, om in splits(3):
            text = write('mc3', [ex[i] for i in pos], [(FIELDS[i][0], ex[i]) for i in kw])
            want = tuple(vals[i] if i not in om else FIELDS[i][1] for i in range(3))
            info = dict(text=text, parents=ENV)
            full = complete_function(text)
            loci = DistributionLoci('x', text)
            pa = names_in([ex[i] for i in pos + kw])
            expect(set(loci.Parents) == pa, 'parents %s, expected %s' % (loci.Parents, pa), **info)
            dists = [parse_distribution(text, loc=dict(ENV)), parse_distribution(full, loc=dict(ENV)),
                     parse_distribution(full, loc=dict(ENV), to_complete=False),
                     parse_distribution(text.replace(' ', ''), loc=Chromosome(ENV)),
                     loci.get_distribution({p: ENV[p] for p in pa}),
                     loci.get_distribution(Chromosome({p: ENV[p] for p in pa})),
                     parse_distribution(loci.Definition, loc=dict(ENV)),
                     parse_distribution(complete_function(full), loc=dict(ENV))]
            for i, d in enumerate(dists):
                got = d.sample()
                expect(all(close(x, y, 1e-12) for x, y in zip(got, want)) and len(got) == 3,
                       'arguments %s, expected %s (way %d)' % (got, want, i), **info)
                tick('transitions')
            for d in dists[:2]:
                js = d.to_json()
                expect({k: float(v) for k, v in js['Args'].items()} ==
                       {FIELDS[i][0]: dists[0].vs[i] for i in range(3)}, 'json form %s' % js, **info)
            for p in sorted(pa)[:1]:
                env = {q: ENV[q] for q in pa if q != p}
                expect_raises((NameError, KeyError), lambda: loci.get_distribution(env),
                              'missing parent %s' % p, **info)
            tick('traces')
            ST.state(text)


def density(d, name):
    pts = (0.3, 1, 2.0, 3.5, 5.2)
    return tuple(float(d.logpdf(x)) for x in pts)


def do_shipped(name):
    unknown(name, [f for f, _ in SHIPPED[name]])
    from sims_pars.prob import complete_function, parse_distribution
    fields = SHIPPED[name]
    combos = itertools.product(*[GRID[f] for f, _ in fields])
    for vals in combos:
        byname = {f: v for (f, _), v in zip(fields, vals)}
        for pos, kw, om in splits(len(fields)):
            if any(fields[i][1] is None for i in om):
                continue
            use = dict(byname, **{fields[i][0]: fields[i][1] for i in om})
            if name == 'unif' and use['max'] <= use['min']:
                continue
            ref = parse_distribution(write(name, [], [(f, repr(use[f])) for f, _ in fields]))
            text = write(name, [repr(vals[i]) for i in pos], [(fields[i][0], 'v%d' % i) for i in kw])
            loc = {'v%d' % i: vals[i] for i in kw}
            for t, l in ((text, loc), (complete_function(text), loc)):
                d = parse_distribution(t, loc=l)
                a, b = density(d, name), density(ref, name)
                expect(all(close(x, y, 1e-12) for x, y in zip(a, b)), 'density of %s (%s): %s, expected %s' % (
                    t, l, a, b))
                expect(close(d.mean(), ref.mean()) and close(d.std(), ref.std()), 'moments of %s' % t, loc=l)
                tick('transitions')
            tick('traces')
            ST.state((text, vals))


def do_domain(name):
    """Values outside the domain of a parameter are rejected (and have no density in a network)."""
    from pydantic import ValidationError
    from sims_pars import bayes_net_from_script, evaluate_nodes
    from sims_pars.prob import parse_distribution
    fields = SHIPPED[name]
    for i, (f, _) in enumerate(fields):
        others = {g: GRID[g][0] for g, _ in fields if g != f}
        bn = bayes_net_from_script('PCore D {\n v\n x ~ %s\n y ~ norm(0, 1)\n}' % write(
            name, [], [(f, 'v')] + [(g, repr(v)) for g, v in others.items()]))
        for bad in BAD.get(f, ()) if not (name == 'invgamma' and f == 'a') else (2, 1, 0):
            text = write(name, [], [(f, 'v')] + [(g, repr(v)) for g, v in others.items()])
            expect_raises(ValidationError, lambda: parse_distribution(text, loc={'v': bad}),
                          '%s with v=%r' % (text, bad))
            for y in (None, 0.5):
                vals = {'v': bad, 'x': 1}
                if y is not None:
                    vals['y'] = y
                got = evaluate_nodes(bn, vals)
                expect(got == -math.inf, 'density with an invalid parameter is %r' % got, text=text, v=bad)
            tick('transitions', 2)
            tick('traces')
        for good in GRID[f]:
            parse_distribution(write(name, [], [(f, 'v')] + [(g, repr(v)) for g, v in others.items()]), loc={'v': good})
        expect_raises(ValidationError, lambda: parse_distribution(write(name, [], [(f, 'v')]), loc={'v': 'text'}),
                      'text for a number')
    return


def do_cat(_):
    from sims_pars.prob import complete_function, parse_distribution
    from sims_pars.bayesnet.loci import DistributionLoci
    for text in ('cat({"M": 1, "O": kk, "Y": 2*j})', 'cat(kv={"M": 1, "O": kk, "Y": 2*j})',
                 "cat({'M':1,'O':kk,'Y':2*j})"):
        for t in (text, complete_function(text)):
            for kk, j in ((1, 1), (0.5, 2), (3, 0.25)):
                d = parse_distribution(t, loc={'kk': kk, 'j': j})
                tot = 1 + kk + 2 * j
                for c, w in (('M', 1), ('O', kk), ('Y', 2 * j)):
                    expect(close(d.logpdf(c), math.log(w / tot)), 'probability of a category', text=t, kk=kk, j=j)
                    tick('transitions')
        expect(set(DistributionLoci('x', text).Parents) == {'kk', 'j'}, 'parents of %s' % text)
        tick('traces')


CLASH = ['mcflip', 'beta', 'k', 'norm', 'gamma', 'exp', 'loc', 'w', 'pois', 'mean', 'cat', 'unif', 'p', 'f', 'x1', 'seq', 'self',
         'di', 'd', 'value', 'Args', 'name', 'lam', 'e', 'pi', 'T', '_', '__x']


def do_names(_):
    """Variables may carry the name of any distribution, field or internal word."""
    from sims_pars import bayes_net_from_script, evaluate_nodes, sample
    for u, v in itertools.permutations(CLASH, 2):
        text = 'PCore N {\n %s = 3\n %s ~ mcflip(loc=%s, w=%s)\n y__ ~ mcflip(%s + 1, %s)\n}' % (u, v, u, u, v, u)
        bn = bayes_net_from_script(text)
        got, k = law(lambda: sample(bn), gen.canon)
        want = {}
        for i, p in ((0, gen.P0), (1, 1 - gen.P0)):
            for j, q in ((0, gen.P0), (1, 1 - gen.P0)):
                x = 3 + 3 * i
                want[gen.canon({u: 3, v: x, 'y__': x + 1 + 3 * j})] = p * q
        expect(got == want, 'law of %s: %s' % (text, got))
        lp = evaluate_nodes(bn, {u: 3, v: 6, 'y__': 7})
        expect(close(lp, gen.LOG1 + gen.LOG0), 'density of %s: %r' % (text, lp))
        expect(set(bn['y__'].Parents) == {u, v}, 'parents in %s' % text)
        tick('transitions', k + 1)
        tick('traces')
        ST.state(text)
    for a in ('beta', 'k', 'gamma', 'norm', 'lam', 'shape', 'exp'):
        bn = bayes_net_from_script('PCore N {\n %s = 3\n y ~ norm(%s, 1)\n z ~ gamma(%s, rate=%s)\n}' % (a, a, a, a))
        d = bn['y'].get_distribution({a: 3})
        expect(close(d.mean(), 3), 'mean of norm(%s, 1)' % a)
        expect(close(bn['z'].get_distribution({a: 3}).std(), math.sqrt(3) / 3), 'gamma of %s' % a)
        tick('transitions', 2)


    fs = {'exp': ('exp(x)', math.exp), 'abs': ('abs(x)', abs), 'floor': ('floor(x+0.5)', lambda x: math.floor(x + 0.5)),
          'sqrt': ('sqrt(x)', math.sqrt), 'step': ('step(x,2,1,0)', lambda x: 1 if x < 2 else 0), 'max': ('max(x,2)', lambda x: max(x, 2)),
          'ifelse': ('ifelse(x>1,4,5)', lambda x: 4 if x > 1 else 5)}
    for f, (e, fn) in fs.items():
        for kind in ('%s = 4', '%s', '%s ~ mcflip(4, 1)', '%s = g + 1'):
            bn = bayes_net_from_script('PCore N {\n g = 3\n x = 1.5\n %s\n u = %s\n v = %s + g\n w = %s\n t = %s * 2 + 1\n'
                                       ' y ~ mcflip(%s, 1)\n z ~ mcflip(%s + 1, %s)\n}' % (kind % f, f, f, e, f, e, f, f))
            given = {f: 4} if kind == '%s' else {}
            expect(set(bn['u'].Parents) == {f} and set(bn['v'].Parents) == {f, 'g'} and set(bn['w'].Parents) == {'x'} and
                   set(bn['t'].Parents) == {f} and set(bn['y'].Parents) == {'x'} and set(bn['z'].Parents) == {f},
                   'parents where a variable is named %s' % f)
            got, k = law(lambda: sample(bn, given), gen.canon)
            want = {}
            for q, p in ((4, gen.P0), (5, 1 - gen.P0)) if '~' in kind else ((4, 1),):
                for i, p1 in ((0, gen.P0), (1, 1 - gen.P0)):
                    for j, p2 in ((0, gen.P0), (1, 1 - gen.P0)):
                        key = gen.canon({f: q, 'g': 3, 'x': 1.5, 'u': q, 'v': q + 3, 'w': fn(1.5), 't': q * 2 + 1,
                                         'y': fn(1.5) + i, 'z': q + 1 + q * j})
                        want[key] = p * p1 * p2
            expect(got == want, 'law where a variable is named %s: %s, expected %s' % (f, got, want), kind=kind)
            tick('transitions', k)


def do_func(_):
    """Registered math functions can be used in values, expressions and arguments."""
    from sims_pars import add_math_func, bayes_net_from_script, sample
    add_math_func('mc_twice', lambda x: 2 * x)
    add_math_func('mc_affine', lambda x, a=1, b=0: a * x + b)
    add_math_func('mc_not_callable', 5)
    bn = bayes_net_from_script('''PCore F {
        u = mc_twice(4)
        v = mc_affine(u, b=3) + mc_twice(u)
        x ~ mcflip(loc=mc_affine(v, a=2), w=mc_twice(u))
        y ~ mcflip(mc_twice(x))
    }''')
    expect(set(bn['v'].Parents) == {'u'} and set(bn['x'].Parents) == {'u', 'v'}, 'parents with registered functions')
    got, k = law(lambda: sample(bn), gen.canon)
    want = {}
    for i, p in ((0, gen.P0), (1, 1 - gen.P0)):
        for j, q in ((0, gen.P0), (1, 1 - gen.P0)):
            x = 54 + 16 * i
            want[gen.canon({'u': 8, 'v': 27, 'x': x, 'y': 2 * x + j})] = p * q
    expect(got == want, 'law with registered functions: %s' % got)
    expect_raises(Exception, lambda: bayes_net_from_script('PCore F {\n u = mc_not_callable(4)\n x = u\n}') and
                  sample(bayes_net_from_script('PCore F {\n u = mc_not_callable(4)\n x = u\n}')),
                  'something that is not callable was registered')
    tick('transitions', k)
    tick('traces')


class Served:
    """A data function: serves a sampler for the parents' values."""

    def __init__(self):
        self.seen = []

    def get_sampler(self, loc):
        self.seen.append(dict(loc))
        return gen._INST['flip'](loc['m'] * 10, 1)


def do_data(_):
    from sims_pars import add_data_func, bayes_net_from_script, evaluate_nodes, sample
    from sims_pars.bayesnet import bayes_net_from_json
    src = Served()
    add_data_func('mc_data', src)
    expect_raises(Exception, lambda: add_data_func('mc_data', src), 'registered twice')
    expect_raises(Exception, lambda: add_data_func('mc_data2', object()), 'not a data function')
    text = '''PCore DF {
        m ~ mcflip(1, 1)
        x ~ mc_data(m)
        y = x + m
    }'''
    bn0 = bayes_net_from_script(text)
    for bn in (bn0, bn0.copy(), bn0.clone(), bayes_net_from_json(bn0.to_json()),
               bayes_net_from_script(bn0.copy().to_script())):
        expect(set(bn['x'].Parents) == {'m'} and bn.is_rv('x'), 'a data function in a definition')
        got, k = law(lambda: sample(bn), gen.canon)
        want = {}
        for m, p in ((1, gen.P0), (2, 1 - gen.P0)):
            for j, q in ((0, gen.P0), (1, 1 - gen.P0)):
                want[gen.canon({'m': m, 'x': 10 * m + j, 'y': 11 * m + j})] = p * q
        expect(got == want, 'law with a data function: %s' % got)
        expect(close(evaluate_nodes(bn, {'m': 2, 'x': 20}), gen.LOG1 + gen.LOG0), 'density with a data function')
        tick('transitions', k + 1)
        tick('traces')


def do_text(_):
    """Text arguments survive completion."""
    from sims_pars.prob import complete_function, parse_distribution
    for pos, kw, want in ((['"ab"'], [], ('ab', 1)), (["'a b'", '2'], [], ('a b', 2)), ([], [('label', '"z(1)"')], ('z(1)', 1)),
                          ([], [], ('dflt x', 1)), (['3'], [('label', '"q"')], ('q', 3)), ([], [('n', '4')], ('dflt x', 4))):
        text = write('mctext', pos, kw)
        for t in (text, complete_function(text), complete_function(complete_function(text))):
            got = parse_distribution(t).sample()
            expect(got[0] == want[0] and close(got[1], want[1]), '%s gives %s' % (t, got))
            tick('transitions')
        tick('traces')


def do_signature(which):
    """A distribution registered by the user, whatever the names of its parameters."""
    from pydantic import create_model
    from sims_pars import parse_distribution
    from sims_pars.bayesnet import bayes_net_from_script
    from sims_pars.prob import AbsDistribution, DistributionCentre
    from sims_pars.factory import AbsCreator
    fields = SIGS[which]

    class Held(AbsDistribution):
        def __init__(self, vs):
            AbsDistribution.__init__(self)
            self.Vs = vs

        Interval = property(lambda self: (0, 1))
        Type = property(lambda self: 'Double')

        def sample(self, n=1, **kwargs):
            return self.Vs

        def logpdf(self, v):
            return 0.0

        def mean(self):
            return 0.0

        std = mean

    class Base(AbsCreator):
        def create(self):
            return Held(tuple(getattr(self, f) for f, _ in fields))

    Cre = create_model('CreSig%d' % which, __base__=Base, **{f: (float, ... if v is None else v) for f, v in fields})
    name = 'mcsig%d' % which
    DistributionCentre.register(name, Cre)
    n = len(fields)
    exprs = ['2 + 5', 'u', '-u/4', 'max(u, 9)']
    vals = [7, 3, -0.75, 9]
    for pos, kw, om in splits(n):
        text = '%s(%s)' % (name, ', '.join([exprs[i] for i in pos] + ['%s=%s' % (fields[i][0], exprs[i]) for i in kw]))
        info = dict(definition=text, fields=fields)
        tick('transitions')
        if any(fields[i][1] is None for i in om):
            expect_raises(Exception, lambda: parse_distribution(text, {'u': 3}), 'missing argument accepted', **info)
            expect_raises(Exception, lambda: bayes_net_from_script('PCore A {\nu = 3\nx ~ %s\n}' % text)['x'].render({'u': 3}),
                          'missing argument accepted in a network', **info)
            continue
        want = tuple(float(vals[i]) if i not in om else fields[i][1] for i in range(n))
        got = parse_distribution(text, {'u': 3}).Vs
        expect(got == want, 'parameters %s, expected %s' % (got, want), **info)
        bn = bayes_net_from_script('PCore A {\nu = 3\nx ~ %s\n}' % text)
        for b in (bn, bn.clone(), bayes_net_from_script(bn.copy().to_script())):
            expect(set(b['x'].Parents) == ({'u'} if 'u' in text else set()), 'parents %s' % (b['x'].Parents,), **info)
            expect(b['x'].render({'u': 3}) == want, 'parameters in a network: %s, expected %s' % (b['x'].render({'u': 3}), want), **info)
        tick('traces')
    unknown(name, [f for f, _ in fields])
    ST.state(fields)


def unknown(name, fields):
    """Arguments nobody asked for: a name too much or a position too much, alone or along with proper ones."""
    from sims_pars import parse_distribution
    from sims_pars.bayesnet import bayes_net_from_script
    from sims_pars.prob import complete_function
    n = len(fields)
    for k in range(n + 1):
        for extra in ('nope', fields[0] + '_', fields[-1].upper() + 'x'):
            for kw in itertools.permutations(['%s=0.5' % f for f in fields[k:]] + ['%s=0.5' % extra]):
                reject('%s(%s)' % (name, ', '.join(['0.5'] * k + list(kw))))
        reject('%s(%s)' % (name, ', '.join(['0.5'] * (n - k + 1) + ['%s=0.5' % f for f in fields[n - k:]])))


def reject(text):
    from sims_pars import parse_distribution
    from sims_pars.bayesnet import bayes_net_from_script
    info = dict(definition=text)
    expect_raises(Exception, lambda: parse_distribution(text), 'unknown argument accepted', **info)
    expect_raises(Exception, lambda: parse_distribution(text.replace('0.5', 'u'), {'u': 0.5}), 'unknown argument accepted', **info)
    expect_raises(Exception, lambda: bayes_net_from_script('PCore A {\nx ~ %s\n}' % text)['x'].render(), 'unknown argument '
                  'accepted in a network', **info)
    tick('transitions')


def do_registry(_):
    from sims_pars.factory import get_atelier, AbsCreator
    from sims_pars.prob import DistributionCentre, parse_distribution
    expect(get_atelier('Distributions') is DistributionCentre, 'one registry per name')
    other = get_atelier('mc-other')
    expect(other is get_atelier('mc-other') and other is not DistributionCentre, 'registries are kept apart')
    for d in list(SHIPPED) + ['cat', 'mcflip']:
        expect(d in DistributionCentre and d in DistributionCentre.list(), '%s is not registered' % d)
        expect(d not in other, '%s leaked into another registry' % d)

    class One(AbsCreator):
        v: float = 1

        def create(self):
            return ('one', self.v)

    class Two(AbsCreator):
        v: float = 2

        def create(self):
            return ('two', self.v)
    other.register('thing', One)
    expect(other.create('thing()') == ('one', 1) and other.create('thing(5)') == ('one', 5), 'creation')
    other.register('thing', Two)
    expect(other.create('thing()') == ('two', 2) and other.list() == ['thing'], 'a new registration replaces the old one')
    expect('thing' not in DistributionCentre, 'leak')
    for bad in ('nosuch(1)', 'nosuch()'):
        expect_raises(Exception, lambda: parse_distribution(bad), 'unknown distribution')
    for bad in ('norm', '1 + 2', ''):
        expect_raises(Exception, lambda: parse_distribution(bad), 'not a call')
    tick('transitions', 20)
    tick('traces')
