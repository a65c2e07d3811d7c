"""Scripts: layout of the text does not matter, and the generated script describes the same network."""
import itertools
from .. import gen
from ..core import ST, close, expect, expect_raises, tick
from .c05 import check_relations
from .c06 import CATALOGUE, FUNCS, VALUES, descriptions, note, same

BOUNDS = {
    'quick': 'all networks with <=3 nodes: 2 of 5 schemes x 18 layouts (indentation, spacing, tabs, comments, blank '
             'and foreign lines, line ends, header spellings) x 2 definition orders, round trip through to_script of '
             'copies, clones and defrosted networks; every third 4-node network x 3 layouts; catalogue definitions x all layouts',
    'thorough': 'as quick with all schemes and all layouts for 4-node networks',
}
ASSUMPTIONS = ['whitespace inside descriptions is not significant']


def layouts():
    def plain(ls):
        return 'PCore M {\n%s\n}' % '\n'.join('    ' + x for x in ls)

    def tabs(ls):
        return 'PCore M {\n%s\n}' % '\n'.join('\t' + x for x in ls)

    def mixed(ls):
        return 'PCore M {\n%s\n}' % '\n'.join((' \t ', '', '\t\t', '  ')[i % 4] + x + (' ', '\t', '')[i % 3]
                                              for i, x in enumerate(ls))

    def tight(ls):
        return 'PCoreM{\n%s\n}' % '\n'.join(x.replace(' ', '') for x in ls)

    def wide(ls):
        return 'PCore  M  {\n%s\n  }' % '\n'.join('  ' + '  '.join(x.split(' ')).replace('+', ' + ').replace(
            '*', '\t*  ').replace('(', ' ( ').replace(',', ' , ') for x in ls)

    def blank(ls):
        return '\n\n   \nPCore M {\n\n%s\n\n\t\n}\n\n' % '\n \n\n'.join('   ' + x for x in ls)

    def comments(ls):
        return 'PCore M {\n# a heading\n%s\n    # x ~ y : done\n#\n # q = 5\n}' % '\n # a note\n'.join(
            '    ' + x for x in ls)

    def crlf(ls):
        return 'PCore M {\r\n%s\r\n}\r\n' % '\r\n'.join('    ' + x for x in ls)

    def lower(ls):
        return 'pcore M {\n%s\n}' % '\n'.join(x for x in ls)

    def upper(ls):
        return 'PCORE M {\n%s\n}' % '\n'.join(x for x in ls)

    def preamble(ls):
        return '# model of something\n\n' + plain(ls)

    def nobrace(ls):
        return 'PCore M {\n%s\n' % '\n'.join('   ' + x for x in ls)

    def trailing_tab(ls):
        return 'PCore\tM\t{\n%s\n\t}' % '\n'.join('\t' + x.replace(' ', '\t') for x in ls)

    def indented_header(ls):
        return '\n    PCore M {\n%s\n    }\n    ' % '\n'.join('        ' + x for x in ls)

    def described(ls):
        return 'PCore M {\n%s\n}' % '\n'.join('    %s # %s' % (x, note(i)) for i, x in enumerate(ls))

    def described_tight(ls):
        return 'PCore M {\n%s\n}' % '\n'.join('%s#%s' % (x, note(i)) for i, x in enumerate(ls))

    def described_tab(ls):
        return 'PCore M {\n%s\n}' % '\n'.join('\t%s\t#\t%s\t' % (x, note(i)) for i, x in enumerate(ls))

    def duplicated(ls):
        return 'PCore M {\n%s\n%s\n}' % ('\n'.join('   ' + x for x in ls), '\n'.join('   ' + x for x in ls))

    return [plain, tabs, mixed, tight, wide, blank, comments, crlf, lower, upper, preamble, nobrace, trailing_tab,
            indented_header, described, described_tight, described_tab, duplicated]


def jobs(tier):
    out = []
    L = len(layouts())
    for n in (1, 2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            for s, sc in enumerate(gen.SCHEMES):
                if tier == 'quick' and n == 3 and (s - i) % 5 > 1:
                    continue
                out.append(['net', gen.spec_of(sh, sc), list(range(L)) if n < 3 or tier != 'quick' else list(range(i % 2, L, 2))])
    for i, sh in enumerate(gen.shapes(4)):
        for s, sc in enumerate(gen.SCHEMES):
            if tier == 'quick':
                if s == i % 5 and i % 3 == 0:
                    out.append(['net', gen.spec_of(sh, sc), [i % L, (i // 2 + 7) % L, (3 * i + 1) % L]])
            else:
                out.append(['net', gen.spec_of(sh, sc), list(range(L))])
    for k in gen.big_shapes():
        out.append(['net', gen.big_spec(k), list(range(L))])
    for d in CATALOGUE + VALUES + FUNCS:
        out.append(['cat', d, None])
    out.append(['header', None, None])
    out.append(['pseudo', None, None])
    return out


def run(job):
    gen.install()
    from sims_pars.bayesnet import BayesianNetwork, bayes_net_from_script
    mode, spec, lays = job
    if mode == 'cat':
        return catalogue(spec)
    if mode == 'header':
        for bad in ('', 'a = 1', 'Core M {\na = 1\n}', '{\na = 1\n}', 'PCore M\na = 1'):
            try:
                bayes_net_from_script(bad)
            except Exception:
                tick('transitions')
                continue
            expect(False, 'text without a header was accepted: %r' % bad)
        return
    if mode == 'pseudo':
        return pseudo()
    ref = gen.build(spec, how='frozen')
    fns = layouts()
    for li in lays:
        for od in (list(range(len(spec))), list(range(len(spec)))[::-1]):
            ls = [gen.definition(spec[i]) for i in od]
            text = fns[li](ls)
            info = dict(script=text)
            bn = bayes_net_from_script(text)
            expect(bn.Name == 'M', 'name read from the script: %r' % bn.Name, **info)
            expect(bn.is_frozen(), 'a network read from a script is complete', **info)
            check_relations(bn, spec, info, True)
            if fns[li].__name__.startswith('described'):
                want = {spec[i][0]: note(j) for j, i in enumerate(od)}
                expect(descriptions(bn) == want, 'descriptions %s, expected %s' % (descriptions(bn), want), **info)
                want_des = want
            else:
                expect(not any(descriptions(bn).values()), 'descriptions appeared from nowhere', **info)
                want_des = None
            compare(bn, ref, info)
            # generated text
            for form in (bn, bn.clone(), bn.copy(), opened(bn)):
                back = bayes_net_from_script(form.to_script())
                inf = dict(info, generated=form.to_script())
                check_relations(back, spec, inf, True)
                compare(back, ref, inf)
                if want_des:
                    expect(descriptions(back) == want_des, 'descriptions after a round trip: %s' % descriptions(back), **inf)
                expect(back.Name == 'M', 'name after a round trip', **inf)
                tick('traces')
            expect(str(opened(bn)) == opened(bn).to_script(), 'str() is the script', **info)
    ST.state((spec, lays))
    ST.sample({'script': text})


def opened(bn):
    o = bn.copy()
    if o.is_frozen():
        o.defrost()
    return o


def compare(bn, ref, info):
    for n in ref.Order:
        a, b = bn[n], ref[n]
        expect(type(a) is type(b) and strip(a.Definition) == strip(b.Definition),
               'node %s is defined as %r instead of %r' % (n, a.Definition, b.Definition), **info)
    tick('transitions')


def strip(x):
    return x.replace(' ', '') if isinstance(x, str) else x


def catalogue(d):
    from sims_pars.bayesnet import bayes_net_from_script
    ref = None
    for fn in layouts():
        text = fn(['m', d, 'y = x'])
        bn = bayes_net_from_script(text)
        ref = ref or bn
        nets = [bn, bayes_net_from_script(bn.copy().to_script()), bayes_net_from_script(opened(bn).to_script())]
        for b in nets:
            expect(sorted(b.Order) == ['m', 'x', 'y'], 'nodes %s' % b.Order, script=text)
            expect(b.Exo == ['m'], 'exogenous %s' % b.Exo, script=text)
            for m in (0.5, 2):
                if '~' in d:
                    for v in ('A', 'B', 'C') if 'cat' in d else (0.3, 1, 2.0, 4):
                        x, y = b['x'].evaluate({'m': m, 'x': v}), ref['x'].evaluate({'m': m, 'x': v})
                        expect(close(x, y, 1e-12), 'density of %s at %s: %r instead of %r' % (d, v, x, y), script=text)
                        tick('transitions')
                else:
                    x, y = b['x'].render({'m': m}), ref['x'].render({'m': m})
                    expect(close(x, y, 1e-12), 'value of %s: %r instead of %r' % (d, x, y), script=text)
                    tick('transitions')
            tick('traces')
    ST.state(d)


def pseudo():
    """Pseudo functions: parents declared, no value."""
    from sims_pars.bayesnet import bayes_net_from_script
    for pas in (('a',), ('a', 'b'), ('a', 'b', 'c')):
        for fn in layouts():
            text = fn(['x = f(%s)' % ', '.join(pas), 'y = x + a'])
            bn = bayes_net_from_script(text)
            for b in (bn, bayes_net_from_script(opened(bn).to_script()), bn.clone()):
                expect(set(b['x'].Parents) == set(pas), 'parents of a pseudo function: %s' % b['x'].Parents, script=text)
                expect(set(b.Order) == set(pas) | {'x', 'y'}, 'nodes %s' % b.Order, script=text)
                expect(b.is_exogenous('x') and not b.is_rv('x') and b.is_exogenous('a'), 'kinds', script=text)
                expect_raises(AttributeError, lambda: b['x'].render({p: 1 for p in pas}), 'a pseudo function has no value')
                tick('transitions')
                tick('traces')
