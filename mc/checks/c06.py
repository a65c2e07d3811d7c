"""JSON form, clone and copy of a network: same network, independent of the original."""
import itertools
import json
from .. import gen
from ..core import CH, ST, close, expect, expect_raises, law, tick
from .c05 import check_relations

BOUNDS = {
    'quick': 'all networks with <=2 nodes x 5 naming schemes, 3 nodes x 2 schemes, every other 4-node network, larger networks, 14 '
             'catalogue definitions: JSON text round trip, second round trip, clone, copy (frozen and open), each '
             'followed by every single-node redefinition of the copy or of the original',
    'thorough': 'as quick with all schemes for 4 nodes',
}
ASSUMPTIONS = ['constants are finite numbers', 'catalogue definitions are compared by density at fixed points']

CATALOGUE = ['x ~ norm(m, 1)', 'x ~ norm(sd=2, mean=m)', 'x ~ gamma(2)', 'x ~ exp()', 'x ~ unif(max=m+5)',
             'x ~ beta(2, shape2=m+1)', 'x ~ binom(10, 0.3)', 'x ~ pois(m+1)', 'x ~ cat({"A": 2, "B": m+1})',
             'x ~ triangle(0, 1, m+3)', 'x ~ lnorm(1, 0.5)', 'x ~ chisq(df=3)', 'x ~ k(m)', 'x ~ norm(exp(m), sqrt(4))']
VALUES = ['x = 0', 'x = -1.5', 'x = 1e-7', 'x = 2/3', 'x = exp(1)', 'x = 10**6', 'x = floor(2.5)', 'x = ifelse(1>2, 3, 4)']
FUNCS = ['x = m*2', 'x = exp(m) + log(m+3)', 'x = ifelse(m > 1, m, 0)', 'x = step(m, 2, 0, 1)', 'x = (m + 1)**2 - m/3',
         'x = max(m, 1)']


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for i, sh in enumerate(gen.shapes(n)):
            for s, sc in enumerate(gen.SCHEMES):
                if tier == 'quick' and n == 3 and (s - i) % 5 > 1:
                    continue
                out.append(['net', gen.spec_of(sh, sc), (i + s) % 3])
    for i, sh in enumerate(gen.shapes(4)):
        for s, sc in enumerate(gen.SCHEMES):
            if tier != 'quick' or (s == i % 5 and i % 2 == 0):
                out.append(['net4', gen.spec_of(sh, sc), (i + s) % 3])
    for k in gen.big_shapes():
        out.append(['net4', gen.big_spec(k), 2])
    for d in CATALOGUE + VALUES + FUNCS:
        out.append(['cat', d, 0])
    return out


def note(i):
    return ('note0', '#x~norm(0,1)', 'a=b#', 'it\'s"q"', '{}%s\\n', '\u00e9#2', 'PCoreM{')[i % 7]


def describe(text, on):
    return text.replace('\n    ', '\n    ', 1) if not on else '\n'.join(
        (ln + ' # ' + note(i)) if ln.startswith('    ') and (on == 2 or i % 2) else ln
        for i, ln in enumerate(text.split('\n')))


def descriptions(bn):
    return {n: bn.DAG.nodes[n].get('Des', '') for n in bn.DAG.nodes}


def same(bn, ref, spec, info, deep):
    expect(descriptions(bn) == descriptions(ref), 'descriptions %s, expected %s' % (
        descriptions(bn), descriptions(ref)), **info)
    for n in ref.Order:
        a, b = bn[n].to_json(), ref[n].to_json()
        a, b = ({k: sorted(v) if k == 'Parents' else v for k, v in d.items()} for d in (a, b))
        expect(a == b, 'node %s: %s instead of %s' % (n, a, b), **info)
    if spec is not None:
        check_relations(bn, spec, info, not deep)
        if deep:
            from sims_pars import sample
            cond = {e: 2 for e in gen.exo(spec)}
            got, k = law(lambda: sample(bn, cond), gen.canon)
            expect(got == gen.joint(spec, cond), 'the joint law changed', **info)
            tick('traces', k)
    tick('transitions')


def run(job):
    gen.install()
    mode, spec, des = job
    if mode == 'cat':
        return catalogue(spec)
    from sims_pars.bayesnet import bayes_net_from_json, bayes_net_from_script
    text = describe(gen.script(spec), des)
    info = dict(script=text)
    deep = mode == 'net'

    def fresh(frozen=True):
        bn = bayes_net_from_script(text)
        if not frozen:
            bn.defrost()
        return bn

    ref = fresh()
    if des == 2:
        expect(all(descriptions(ref).values()), 'descriptions in the script are lost', **info)
    for frozen in (True, False):
        bn = fresh(frozen)
        js = json.loads(json.dumps(bn.to_json()))
        keep = json.dumps(js)
        back = bayes_net_from_json(js)
        expect(json.dumps(js) == keep, 'reading altered the JSON object', **info)
        expect(back.Name == bn.Name, 'name', **info)
        same(back, ref, spec, info, deep)
        again = bayes_net_from_json(json.loads(json.dumps(back.to_json())))
        same(again, ref, spec, info, False)
        for label, make in (('clone', lambda b: b.clone()), ('copy', lambda b: b.copy()),
                            ('named copy', lambda b: b.copy('N2')),
                            ('json', lambda b: bayes_net_from_json(b.to_json()))):
            cp = make(bn)
            inf = dict(info, by=label, frozen=frozen)
            expect(cp is not bn, 'not a new network', **inf)
            expect(cp.Name == ('N2' if label == 'named copy' else bn.Name), 'name of the %s: %s' % (label, cp.Name), **inf)
            if 'copy' in label:
                expect(cp.is_frozen() == bn.is_frozen(), 'a copy is complete exactly when the original is', **inf)
            else:
                expect(cp.is_frozen(), 'a network read from JSON is complete', **inf)
            same(cp, ref, spec, inf, deep and label != 'json')
            if not deep and label != 'copy':
                continue
            # edit either side: the other one stays
            for nd in spec:
                for side in (0, 1):
                    a = fresh(frozen)
                    b = make(a)
                    edited, other = (a, b) if side == 0 else (b, a)
                    if edited.is_frozen():
                        edited.defrost()
                    edited.append_from_definition('%s = 77' % nd[0])
                    edited.append_from_definition('brand_new = %s' % nd[0])
                    inf2 = dict(inf, edited=nd[0], side=side)
                    same(other, ref, spec, inf2, False)
                    sp = [x if x[0] != nd[0] else [nd[0], 'V', [], 77] for x in spec]
                    sp = sorted(sp, key=lambda x: x[1] != 'V') + [['brand_new', 'F', [[nd[0], 1]], 0]]
                    check_relations(edited, sp, inf2, True)
                    for again in (edited.clone(), edited.copy(), bayes_net_from_json(edited.to_json())):
                        check_relations(again, sp, dict(inf2, of='the edited one'), True)
                    tick('traces')
    ST.state((spec, des))
    ST.sample({'script': text})


def catalogue(d):
    from sims_pars.bayesnet import bayes_net_from_json, bayes_net_from_script
    bn = bayes_net_from_script('PCore K {\n m # input\n %s # desc\n y = x\n}' % d)
    nets = [bn, bayes_net_from_json(json.loads(json.dumps(bn.to_json()))), bn.clone(), bn.copy(), bn.copy('Z')]
    nets.append(bayes_net_from_json(json.loads(json.dumps(nets[1].to_json()))))
    o = bn.copy()
    o.defrost()
    nets += [o, o.copy(), o.clone()]
    for i, b in enumerate(nets):
        expect(sorted(b.Order) == sorted(bn.Order), 'nodes after conversion %d: %s' % (i, b.Order), definition=d)
        expect(descriptions(b) == {'m': 'input', 'x': 'desc', 'y': ''} or (
            set(descriptions(b)) == {'m', 'x', 'y'} and descriptions(b)['x'] == 'desc' and
            descriptions(b)['m'] == 'input'), 'descriptions %s' % descriptions(b), definition=d)
        for m in (0.5, 2):
            if '~' in d:
                for v in (0.3, 1, 2.0, 4, 'A', 'B', 'C'):
                    if isinstance(v, str) != ('cat' in d):
                        continue
                    x = b['x'].evaluate({'m': m, 'x': v})
                    y = bn['x'].evaluate({'m': m, 'x': v})
                    expect(close(x, y, 1e-12), 'density of %s at %s: %r, originally %r' % (d, v, x, y))
                    tick('transitions')
            else:
                x, y = b['x'].render({'m': m}), bn['x'].render({'m': m})
                expect(close(x, y, 1e-12), 'value of %s: %r, originally %r' % (d, x, y))
                tick('transitions')
    tick('traces', len(nets))
    ST.state(d)
