"""Expressions: value, dependencies and executability of every small expression against direct evaluation."""
import itertools
import math
from ..core import ST, close, expect, expect_raises, tick

LEAVES = (('v', 'x'), ('v', 'y_1'), ('v', 'exp2'), ('c', '2'), ('c', '0.5'), ('c', '3e-1'))
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '**': lambda a, b: a ** b, '//': lambda a, b: a // b, '%': lambda a, b: a % b,
       '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b}
PREC = {'<': 1, '>=': 1, '==': 1, '+': 2, '-': 2, '*': 3, '/': 3, '//': 3, '%': 3, '**': 5}


def ref_logit(p):
    return math.log(p / (1 - p)) if 0 < p < 1 else (-math.inf if p == 0 else math.inf if p == 1 else math.nan)


F1 = {'exp': math.exp, 'log': lambda a: math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan),
      'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'ceil': math.ceil, 'floor': math.floor,
      'sqrt': lambda a: math.sqrt(a) if a >= 0 else math.nan, 'abs': abs, 'erf': math.erf,
      'logit': ref_logit, 'expit': lambda a: 1 / (1 + math.exp(-a))}
F2 = {'hypot': math.hypot, 'pow': math.pow, 'max': max, 'min': min}
F3 = {'ifelse': lambda c, a, b: a if c else b}
F4 = {'step': lambda k, c, a, b: a if k < c else b}
ENVS0 = ({'x': 1, 'y_1': 2, 'exp2': 0.25}, {'x': -1.5, 'y_1': 0.5, 'exp2': 3}, {'x': 0, 'y_1': 4, 'exp2': -2})
ENVS1 = tuple({'tan' if k == 'exp2' else k: v for k, v in e.items()} for e in ENVS0)
BOUNDS = {
    'quick': 'all expressions with <=2 operators over 6 leaves, 10 binary operators, unary minus and the 19 documented '
             'functions (outer function x inner operator and operator x function), 3 spacings, 3 environments, every '
             'subset of the variables missing; call texts: all sequences of <=3 arguments over 8 arguments and 0-2 keywords',
    'thorough': 'three nested operators over 4 leaves and 6 operators in addition',
}
ASSUMPTIONS = ['a variable does not have the name of a function called in the same expression',
               'comparisons are not used as numeric arguments of functions']


def jobs(tier):
    ops = list(BIN) + ['neg']
    fs = list(F1) + list(F2) + list(F3) + list(F4)
    out = [['op2', a, b] for a in ops for b in ops] + [['fn', f, None] for f in fs] + [['opfn', o, None] for o in BIN]
    out += [['call', n, None] for n in range(4)] + [['meta', None, None]]
    if tier != 'quick':
        s = ['+', '-', '*', '/', '**', '<']
        out += [['op3', a, [b, c]] for a in s for b in s for c in s]
    return out


# -- trees: ('v', name) ('c', text) (op, l, r) ('neg', l) ('f', name, args)
def value(t, env):
    if t[0] == 'v':
        return env[t[1]]
    if t[0] == 'c':
        return float(t[1]) if not t[1].isdigit() else int(t[1])
    if t[0] == 'neg':
        return -value(t[1], env)
    if t[0] == 'f':
        if t[1] not in ('ifelse',) and any(a[0] in ('<', '>=', '==') for a in t[2]):
            raise ValueError                 # truth values are not numbers: left out
        fn = F1.get(t[1]) or F2.get(t[1]) or F3.get(t[1]) or F4[t[1]]
        return fn(*[value(a, env) for a in t[2]])
    return BIN[t[0]](value(t[1], env), value(t[2], env))


def variables(t):
    if t[0] == 'v':
        return {t[1]}
    if t[0] == 'c':
        return set()
    if t[0] == 'f':
        return set().union(*[variables(a) for a in t[2]])
    return set().union(*[variables(a) for a in t[1:]])


def functions(t):
    if t[0] in 'vc':
        return set()
    if t[0] == 'f':
        return {t[1]}.union(*[functions(a) for a in t[2]])
    return set().union(*[functions(a) for a in t[1:]])


def text(t, sp, parent=0, right=False):
    if t[0] in 'vc':
        return t[1]
    if t[0] == 'f':
        return '%s(%s)' % (t[1], (',' + sp).join(text(a, sp) for a in t[2]))
    if t[0] == 'neg':
        s, p = '-' + text(t[1], sp, 4), 4
    else:
        p = PREC[t[0]]
        l, r = (p + 1, p) if t[0] == '**' else (p + 1 if p == 1 else p, p + 1)
        s = text(t[1], sp, l) + sp + t[0] + sp + text(t[2], sp, r)
    return '(' + s + ')' if p < parent else s


def run(job):
    kind, a, b = job
    if kind == 'op2':
        lv = LEAVES[:5] if a != 'neg' and b != 'neg' else LEAVES
        for t in op2(a, b, lv):
            check(t)
    elif kind == 'op3':
        lv = (LEAVES[0], LEAVES[1], LEAVES[3], LEAVES[4])
        for l, m, r, q in itertools.product(lv, repeat=4):
            c, d = b
            for t in ((a, (c, l, m), (d, r, q)), (a, (c, (d, l, m), r), q), (a, l, (c, m, (d, r, q))),
                      (a, (c, l, (d, m, r)), q), (a, l, (c, (d, m, r), q))):
                check(t)
    elif kind == 'fn':
        n = 1 if a in F1 else 2 if a in F2 else 3 if a in F3 else 4
        for args in itertools.product(LEAVES[:4], repeat=n):
            check(('f', a, args))
        inner = [(o, LEAVES[0], l) for o in BIN for l in (LEAVES[1], LEAVES[4])] + [('f', f, (LEAVES[1],)) for f in F1]
        for i in inner:
            for pos in range(n):
                for o in (LEAVES[2], LEAVES[3]):
                    check(('f', a, tuple(i if j == pos else o for j in range(n))))
    elif kind == 'opfn':
        for f in F1:
            for l in LEAVES[:4]:
                check((a, ('f', f, (l,)), LEAVES[1]))
                check((a, LEAVES[3], ('f', f, (l,))))
                check((a, ('f', f, (l,)), ('f', 'step', (l, LEAVES[3], LEAVES[0], LEAVES[4]))))
    elif kind == 'call':
        call(a)
    else:
        meta()
    ST.sample(job)


def op2(a, b, lv):
    if a == 'neg' and b == 'neg':
        for l in lv:
            yield l
            yield ('neg', l)
            yield ('neg', ('neg', l))
    elif a == 'neg':
        for l, r in itertools.product(lv, lv):
            yield ('neg', (b, l, r))
            yield (b, l, r)
    elif b == 'neg':
        for l, r in itertools.product(lv, lv):
            yield (a, ('neg', l), r)
            yield (a, l, ('neg', r))
    else:
        for l, m, r in itertools.product(lv, repeat=3):
            yield (a, (b, l, m), r)
            yield (a, l, (b, m, r))


def rename(t, a, b):
    if t[0] == 'v':
        return ('v', b) if t[1] == a else t
    if t[0] == 'c':
        return t
    if t[0] == 'f':
        return t[:2] + (tuple(rename(x, a, b) for x in t[2]),)
    return t[:1] + tuple(rename(x, a, b) for x in t[1:])


def attempt(t, env):
    try:
        v = value(t, env)
        if isinstance(v, complex):
            return 'skip', None
        return 'ok', v
    except (ZeroDivisionError, ValueError, OverflowError, TypeError):   # complex intermediates
        return 'skip', None


def check(t):
    from sims_pars.bayesnet import Chromosome
    from sims_pars.bayesnet.loci import parse_loci
    from sims_pars.util import parse_math_expression, parse_parents
    vs, fs = variables(t), functions(t)
    if vs & fs:
        return
    if 'exp2' in vs and 'tan' not in fs:      # a variable with the name of a function
        check(rename(t, 'exp2', 'tan'))
    ENVS = ENVS1 if 'tan' in vs else ENVS0
    ref = [attempt(t, e) for e in ENVS]
    for i, sp in enumerate(('', ' ', '  ')):
        s = text(t, sp)
        info = dict(expression=s)
        me = parse_math_expression(s)
        expect(set(me.Parents) == vs, 'depends on %s, expected %s' % (sorted(me.Parents), sorted(vs)), **info)
        expect(set(me.Func) == fs, 'calls %s, expected %s' % (sorted(me.Func), sorted(fs)), **info)
        a, b = parse_parents(s)
        expect(set(a) == vs and set(b) == fs, 'parse_parents', **info)
        expect(str(me) == s, 'text %r' % str(me), **info)
        for env, (st, want) in zip(ENVS, ref):
            if st == 'skip':
                continue
            full = dict(env, other=7)
            keep = dict(full)
            got = me(full) if i else me.execute({k: env[k] for k in vs})
            expect(close(got, want, 1e-12), 'value %r, expected %r' % (got, want), env=env, **info)
            expect(full == keep, 'the values given by the caller were altered', **info)
            ST.outcome((s, repr(got)))
            tick('transitions')
        if not vs:
            expect(close(me(), ref[0][1], 1e-12) if ref[0][0] == 'ok' else True, 'value without variables', **info)
        known = all(f not in ('max', 'min') for f in fs)
        for sub in itertools.chain.from_iterable(itertools.combinations(sorted(vs), r) for r in range(len(vs) + 1)):
            env = {k: ENVS[0][k] for k in sub}
            expect(me.is_executable(env) == (known and set(sub) == vs), 'is_executable(%s)' % (sub,), **info)
            if 'tan' not in vs and len(sub) == len(vs) - 1 and t[0] != 'f' and not fs and not any(o in repr(t) for o in ("'<'", "'>='", "'=='")) \
                    and attempt(t, ENVS[0])[0] == 'ok':
                expect(me(env) == s, 'an expression that lacks %s has no value, got %r' % (vs - set(sub), me(env)), **info)
                expect_raises(NameError, lambda: me.execute(env), 'lacking a variable', **info)
    # the same expression as the definition of a node
    if not vs and ref[0][0] != 'ok':
        return
    lo, _ = parse_loci('n0 = ' + text(t, ' '))
    if vs:
        expect(set(lo.Parents) == vs, 'node depends on %s' % set(lo.Parents), **info)
        for env, (st, want) in zip(ENVS, ref):
            if st == 'ok':
                expect(close(lo.render(Chromosome(env)), want, 1e-12), 'value of the node', **info)
        expect_raises(KeyError, lambda: lo.render({k: 1 for k in sorted(vs)[1:]}), 'node without a parent', **info)
    elif ref[0][0] == 'ok':
        expect(not set(lo.Parents) and close(lo.render({}), ref[0][1], 1e-12), 'constant node', **info)
    tick('traces')
    ST.state(t)


ARGS = [('1', set(), 1), ('-2.5', set(), -2.5), ('a', {'a'}, 3), ('a+2*b', {'a', 'b'}, 13), ('"t x"', set(), None),
        ('exp(b)', {'b'}, math.exp(5)), ('(a)', {'a'}, 3), ('max(a,2)', {'a'}, 3)]
CENV = {'a': 3, 'b': 5}


def call(n):
    """Arguments of a call: their order, keywords, dependencies and values."""
    from sims_pars.util import evaluate_function, parse_function
    for pos in itertools.product(range(len(ARGS)), repeat=n):
        for kws in ((), (2,), (3, 0)):
            args = [ARGS[i] for i in pos] + [ARGS[i] for i in kws]
            keys = [None] * n + ['kw%d' % i for i in range(len(kws))]
            for sep in (',', ', '):
                s = 'fn_x(%s)' % sep.join((k + '=' if k else '') + a[0] for k, a in zip(keys, args))
                info = dict(call=s)
                pf = parse_function(s)
                expect(pf.Function == 'fn_x', 'function %r' % pf.Function, **info)
                vs = set().union(*[a[1] for a in args])
                expect(set(pf.Parents) == vs, 'depends on %s' % set(pf.Parents), **info)
                ev = pf.get_arguments(dict(CENV))
                expect([e.get('key') for e in ev] == keys, 'keys %s' % [e.get('key') for e in ev], **info)
                for e, a in zip(ev, args):
                    want = a[2] if a[2] is not None else 'tx'
                    expect(e['value'] == want or close(e['value'], want, 1e-12), 'argument %r, expected %r' % (e['value'], want), **info)
                js = pf.to_json(dict(CENV))
                expect(js['Type'] == 'fn_x' and len(js['Args']) == len(args) and
                       all(x == y['value'] for x, y in zip(js['Args'], ev)), 'json %s' % js, **info)
                e2 = evaluate_function(pf, dict(CENV)).to_blueprint('nm')
                expect(e2 == pf.to_blueprint('nm', dict(CENV)) and e2['Name'] == 'nm' and e2['Type'] == 'fn_x', 'blueprint', **info)
                again = pf.get_arguments(dict(a=0, b=0))
                for e, a in zip(again, args):
                    if a[1]:
                        expect(e['value'] == {'a': 0, 'a+2*b': 0, 'exp(b)': 1, '(a)': 0, 'max(a,2)': 2}[a[0]],
                               'arguments of a second evaluation', **info)
                tick('transitions', 3)
                if vs:
                    expect_raises(NameError, lambda: pf.get_arguments({'a': 1} if 'b' in vs else {}), 'missing variable', **info)
            tick('traces')
            ST.state(s)


def meta():
    from sims_pars.util import MATH_FUNC, add_math_func, parse_math_expression
    names = {k for k in MATH_FUNC if not k.startswith('_')}
    expect(names >= set(F1) | (set(F2) - {'max', 'min'}) | set(F3) | set(F4), 'documented functions: %s' % sorted(names))
    before = {k: MATH_FUNC[k] for k in names}
    for s in ('x + 1', 'exp(x)', '[y for y in (x, 2)]'):
        parse_math_expression(s)({'x': 1})
    expect(set(MATH_FUNC) - {'__builtins__'} == names and all(MATH_FUNC[k] is before[k] for k in names),
           'evaluating an expression changed the functions')
    me = parse_math_expression('mc_g(x, 2) + 1')
    expect(not me.is_executable({'x': 3}), 'executable with an unknown function')
    expect(me({'x': 3}) == 'mc_g(x, 2) + 1', 'value with an unknown function')
    add_math_func('mc_g', lambda a, b: a * b)
    try:
        expect(me.is_executable({'x': 3}) and me({'x': 3}) == 7, 'registered function')
        add_math_func('mc_g', lambda a, b: a + b)
        expect(me({'x': 3}) == 6, 'a function registered again')
        add_math_func('mc_h', 3)
        expect('mc_h' not in MATH_FUNC, 'something not callable was registered')
    finally:
        MATH_FUNC.pop('mc_g', None)
    tick('traces')
    tick('transitions', 6)
