"""`python3 -m mc.design`: rewrites the generated parts of DESIGN.md (between <!-- gen:X --> and <!-- end:X -->)."""
import ast
import glob
import json
import os
import re

from . import spec

HERE = spec.HERE
ORACLE = {
    'C01': 'The reference sampler of gen.py (recursion over the specification the network was built from, not over the network) gives the joint law as exact fractions; the implementation is run once per outcome vector of the draws and its law must be the same mapping.',
    'C02': 'The reference computes, from the specification, the nodes on which a target depends around the given nodes, and the marginal law with the given nodes held; both must be equal to what sample_minimally returns over all outcomes; missing needed inputs must raise.',
    'C03': 'Sum of log masses computed from the specification for each assignment of the product grid (values in and out of support, missing nodes, foreign names, every order).',
    'C04': 'An explicit-state search over histories of interventions on a chromosome; the exact law of every transition (over all draws) must be the law of the specification with the intervened nodes held and their descendants drawn anew.',
    'C05': 'A reference table (name -> last accepted definition) goes through the same operations; after each one the nodes, edges, roots, leaves, exogenous nodes and every relation are compared with those computed by brute force from the table.',
    'C06': 'The JSON form read back, the clone and the copy must describe the same network node by node, and stay as they are under every later operation on the original (and vice versa).',
    'C07': 'Every layout of a script must give the network of the specification; the generated script must read back as the same network; values must be written so that they read back equal.',
    'C08': 'Reference union of two specifications with precedence; the result, and the untouched operand, are compared node by node.',
    'C09': 'Transitive closures and path enumeration by brute force on the edge set decide every query.',
    'C10': 'Every spelling of the arguments (positional, named, mixed, permuted, spaced) must build the same distribution as the reference signature; unknown/missing ones must raise.',
    'C11': 'Densities, masses, supports, quantile grids and moments are compared with closed forms written in the check (not with scipy frozen objects used by the code); samplers are driven by chosen answers and their law enumerated.',
    'C12': 'Every expression of the bounded grammar is evaluated by Python itself on an explicit environment; dependencies and executability are computed from the syntax tree.',
    'C13': 'The law over all draws of the resampling is computed as exact fractions from the normalised weights; alignment of values and the mean weight follow by definition.',
    'C14': 'A reference reading of the node-set tree says at which level each node must live; specifications read back by the implementation must agree, for every tree and assignment within the bound.',
    'C15': 'Laws of samplers over all draws are compared with conditional laws computed from the specification given the values currently held, before and after every intervention.',
    'C16': 'A reference core (value of each node at each level) is advanced through the same histories of interventions; the exact law of every transition is compared.',
    'C17': 'A reference family tree (names, prototypes, parents, values held) goes through the same histories; consistency of the family and independence of clones are compared after each operation.',
    'C18': 'Reference dictionaries for served parameters, particles and parameter sets; counts of simulations, prior draws and scores after every history, including mutation of returned containers.',
    'C19': 'Closed-form distances of the target kinds written in the check, over the product grid of observations and simulations.',
    'C20': 'Composition of the two directions must be the identity within 1e-9, monotone and onto the domain; every limit combination.',
    'C21': 'A reference rejection sampler fed with the same enumerated draws and simulated distances; accepted sets, counts, thresholds and posteriors must be equal on every path.',
    'C22': 'A reference SMC-ABC transition (threshold, weights, ESS, resampling, Metropolis move) runs in lock-step with the algorithm on every path of draws.',
    'C23': 'A reference history-matching wave (implausibility, cut-off, candidate acceptance) in lock-step; emulators are table-driven stand-ins so that every emulator answer is enumerated.',
    'C24': 'A fit after any history must be equal to the fit of a fresh fitter with the settings the history leads to.',
    'C25': 'A reference record of steps; all histories of keep/step/reset; exported files are read back.',
    'C26': 'Reference operators on lists of chromosomes, fed with the same enumerated draws.',
    'C27': 'Brute-force tables: conditionals, marginals and transition laws computed from the raw rows.',
    'C29': 'The transcript (with order) of a reference process; every other process must give the same one.',
    'C30': 'After each planted failure: the same exception, the values before it (or those of the intervention) and the log density of the specification; then the exact law of the repeated operation, or the fit of a new fitter.',
    'C31': 'Binomial masses, inverse normal laws on the quantile grid, and a fine Runge-Kutta integration, all written in the check.',
    'C28': 'Closed forms for linear predictors, hazards, survival and their inverses on grids; samplers driven by chosen quantiles.',
}
MISSED = {'given-zero-ignored', 'stale-json-after-defrost', 'category-sorted', 'functions-shadow-variables',
          'clone-no-grandchildren', 'unused-exo-kept-fixed', 'candidates-within-design', 'emulators-kept'}


def module(pid):
    """Docstring, BOUNDS, ASSUMPTIONS of a check, without importing the code under test."""
    tree = ast.parse(open(os.path.join(HERE, 'mc/checks/%s.py' % pid.lower())).read())
    env = {}
    for nd in tree.body:
        if isinstance(nd, ast.Assign):
            t = nd.targets[0]
            nm = t.id if isinstance(t, ast.Name) else t.value.id if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) else ''
            if nm in ('BOUNDS', 'ASSUMPTIONS'):
                exec(compile(ast.Module([nd], []), 'x', 'exec'), env)
    return ast.get_docstring(tree), env['BOUNDS'], env['ASSUMPTIONS']


def gen():
    missed = MISSED | set(json.load(open(os.path.join(HERE, 'mc/missed.json'))))
    out = {}
    b = []
    costs = json.load(open(os.path.join(HERE, 'mc/costs.json')))
    for d in spec.P:
        doc, bo, asm = module(d['id'])
        b.append('### %s  %s\n' % (d['id'], d['title']))
        b.append('- Explored: %s' % doc.replace('\n', ' '))
        b.append('- Oracle: %s' % ORACLE[d['id']])
        b.append('- Bounds, quick: %s. Thorough: %s.' % (bo['quick'], bo['thorough']))
        b.append('- Assumptions: %s.' % '; '.join(asm))
        c = costs.get(d['id'])
        if c:
            b.append('- Cost of quick: about %d s on 8 cores (%s executions, %s choice points).' % (c['s'], c['e'], c['t']))
        b.append('- Beyond the tests: %s\n' % d['why_tests_cant'])
    out['props'] = '\n'.join(b)
    t = ['| planted bug | check | needs | |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        m = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        t.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '),
                                          'missed first, then strengthened' if i in missed else 'caught'))
    out['bugs'] = '\n'.join(t)
    k = json.load(open(os.path.join(HERE, 'known_findings.json')))
    out['fixes'] = '\n'.join('- ' + re.sub('^fixed: property=', '', x) for x in k['fixed'])
    return out


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    for k, v in gen().items():
        s = re.sub(r'(<!-- gen:%s -->\n).*?(<!-- end:%s -->)' % (k, k), lambda m: m.group(1) + v + '\n' + m.group(2), s, flags=re.S)
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
