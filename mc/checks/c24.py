"""Fitters: all histories of configuring, attaching, fitting, sampling and closing; every fit equals that of a new fitter."""
import itertools
import logging
import math
import sys
from .. import core, fitkit, gen, rnd
from ..core import CH, ST, close, expect, tick
from .c23 import Latin, latin

INF = math.inf
KW = {
    'abc': [{'n_test': 3}, {'p_test': 0.5, 'n_test': 2, 'bogus': 1}, {'n_core': 2, 'parallel': False}],
    'smc': [{'n_iter': 10}, {'alpha': 0.7, 'max_round': 2, 'bogus': 1}, {'p_thres': 0.95, 'parallel': False}],
    'bhm': [{'max_wave': 2}, {'cutoff': 0.5, 'bogus': 1, 'n_ems': 6}, {'n_sims': 3, 'min_acc': 0.5}],
}
START = {'abc': dict(n_test=4, p_test=0.3, verbose=0, n_core=1), 'smc': dict(n_iter=12, max_round=1, verbose=0, n_core=1, min_acc=0.0),
         'bhm': dict(max_wave=1, n_ems=8)}
OPS = [('set', 0), ('set', 1), ('set', 2), ('fit', 'A', None), ('fit', 'B', None), ('fit', 'A', 1), ('post', 3), ('attach', 'B'), ('close',)]
BOUNDS = {
    'quick': '3 fitters x all histories of <= 3 operations (9 operations: changing settings, fitting two models with and without settings, '
             'sampling posteriors, attaching, closing) x 3 sequences of draws; phases and log levels of an instrumented fitter',
    'thorough': 'histories of <= 4 operations',
}
ASSUMPTIONS = ['workers are in-order stand-ins, emulators are table-driven', 'parents of ABC-SMC are not set']
DRAWS = 3


def jobs(tier):
    out = []
    for f in KW:
        for i, a in enumerate(OPS):
            for j, b in enumerate(OPS):
                out.append(['hist', f, [i, j], 3 if tier == 'quick' else 4])
    out += [['phases', list(c)] for c in itertools.product((0, 1), repeat=4)]
    return out


class R(rnd.Rnd):
    """Fixed sequences of answers, spread out."""

    def __init__(self, seq):
        rnd.Rnd.__init__(self)
        self.k = seq * 7
        gen.DRAW[0] = self.u

    def u(self):
        self.k += 1
        return (0.11 + self.k * 0.6180339887498949) % 1

    def gauss(self, mu=0.0, sd=1.0):
        self.k += 1
        return mu + sd * (0.0, 0.4, -0.3, 0.9, -1.1)[self.k % 5]

    def index(self, n, p=None):
        cand = [j for j in range(n) if p is None or p[j] > 0]
        self.k += 1
        return cand[self.k % len(cand)]


def models():
    from sims_pars.fit.base import DataModel, Domain, Particle
    from sims_pars.fit.targets import read_targets

    def make(scr, doms, outs, tar, exo=None):
        doms = [Domain(*d) for d in doms]

        class M(DataModel):
            def simulate(self, pars):
                return Particle(pars, {k: f(pars) for k, f in outs.items()})
            Domain = doms
        with rnd.owned(R(0)):
            return M(read_targets(tar), scr, exo=exo)
    return {
        'A': make('PCore A {\nx ~ mcunif(0, 8)\n}', [('x', 'Double', 0, 8, 0, 1)], {'y': lambda p: p['x'] + 1}, {'y': 4.0}),
        'B': make('PCore B {\nx ~ mcunif(0, 8)\nw ~ mcunif(1, 3)\nq = x * k\n}', [('x', 'Double', 0, 8, 0, 1), ('w', 'Double', 1, 3, 0, 1)],
                  {'y': lambda p: p['q'], 'z': lambda p: p['w']}, {'y': 10.0, 'z': {'m': 2.0, 'l': 1.5, 'u': 2.5}}, {'k': 2.0}),
    }


def fitter(kind, st):
    from sims_pars.fit import ApproxBayesCom, ApproxBayesComSMC
    from sims_pars.fit.hme import BayesHistoryMatching
    return {'abc': ApproxBayesCom, 'smc': ApproxBayesComSMC, 'bhm': BayesHistoryMatching}[kind](**st)


def canon(x):
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return [canon(r) for r in x.reset_index().to_dict('records')]
    if isinstance(x, dict):
        return sorted((k, canon(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
        return float('%.9g' % float(x))
    return x


def table(po):
    return repr([canon(dict(p.Pars)) for p in po.Particles] + [canon(dict(p.Sims)) for p in po.Particles] + [canon(po.Notes), len(po), po.Algorithm])


def profile(m):
    return repr((m.BayesianNetwork.to_script(), m.FreeParameters, sorted(m.ExoParameters.items()), {k: str(v) for k, v in m.Data.items()}))


def run(job):
    fitkit.quiet()
    if job[0] == 'phases':
        return phases(job[1])
    _, kind, first, depth = job
    emu = sys.modules['sims_pars.fit.hme.emulator'].GPREmulator
    emu.answer = staticmethod(lambda out, us: (out == 'y' and 2 + 9 * us[0] or 2.0 + us[-1] / 2, 0.1))
    emu.log, emu.memory = [], 0.01
    ms = models()
    ref = {}
    fits = {}

    def result(st, m, seq):
        """What a new fitter with these settings does."""
        key = (repr(sorted(st.items())), m, seq)
        if key not in ref:
            with rnd.owned(R(seq)):
                f = fitter(kind, st)
                f.fit(ms[m])
            ref[key] = snap(f, seq)
        return ref[key]

    def snap(f, seq):
        with rnd.owned(R(seq + 1)):
            return table(f.sample_posteriors(3))

    defaults = fitter(kind, {}).DefaultSettings
    other = fitter(kind, {})
    CH.start(())
    with fitkit.in_process(True), latin():
        prof = {k: profile(m) for k, m in ms.items()}
        for n in range(len(first), depth + 1):
            for rest in itertools.product(range(len(OPS)), repeat=n - len(first)):
                ops = [OPS[i] for i in list(first) + list(rest)]
                info = dict(fitter=kind, history=ops)
                f = fitter(kind, START[kind])
                st = dict(START[kind])
                done, made, model = None, [], None
                for k, op in enumerate(ops):
                    seq = (k + n) % DRAWS
                    if op[0] == 'set':
                        f.update_settings(**KW[kind][op[1]])
                        st.update({a: b for a, b in KW[kind][op[1]].items() if a in defaults})
                    elif op[0] == 'fit':
                        kw = {} if op[2] is None else KW[kind][op[2]]
                        st.update({a: b for a, b in kw.items() if a in defaults})
                        with rnd.owned(R(seq)):
                            f.fit(ms[op[1]], **kw)
                        done = dict(st), op[1], seq
                        model = op[1]
                        tick('fits')
                    elif op[0] == 'attach':
                        f.attach(ms[op[1]])
                        model = op[1]
                    elif op[0] == 'close':
                        f.close()
                        model = None
                    elif op[0] == 'post' and done and model == done[1] and st == done[0]:
                        with rnd.owned(R(seq)):
                            po = f.sample_posteriors(op[1])
                        expect(len(po) == op[1], '%d particles, %d requested' % (len(po), op[1]), **info)
                        made.append((po, table(po)))
                    tick('transitions')
                    if model is None:
                        expect(f.Model.FreeParameters == [] and f.Model not in ms.values(), 'the fitter holds a model after closing', **info)
                    else:
                        expect(f.Model is ms[model], 'the fitter holds another model', **info)
                    got = {a: f.Settings[a] for a in defaults}
                    want = dict(defaults, **st)
                    if kind == 'bhm':
                        got.pop('n_pars'), want.pop('n_pars')
                    expect(got == want and 'bogus' not in f.Settings, 'settings %s, expected %s' % (f.Settings, want), **info)
                if done and model == done[1] and done[0] == st:
                    want = result(*done)
                    expect(snap(f, done[2]) == want, 'the fit differs from that of a new fitter:\n%s\n%s' % (snap(f, done[2]), want), **info)
                    made.append((None, want))
                for po, t in made:
                    expect(po is None or table(po) == t, 'a returned posterior changed afterwards', **info)
                ST.state((kind, repr(ops)))
                ST.outcome(made[-1][1] if made else None)
                tick('traces')
        expect(fitter(kind, {}).DefaultSettings == defaults and dict(other.Settings) == defaults == dict(fitter(kind, {}).Settings),
               'default settings changed', fitter=kind)
        expect({k: profile(m) for k, m in ms.items()} == prof, 'fitting changed a model', fitter=kind)
    CH.stop()
    ST.sample({'job': job})


def phases(bits):
    """The phases of a fit, once each and in order, with the model and settings in place; log levels."""
    from sims_pars.fit.base import Fitter
    from sims_pars.fit.results import ParameterSet
    ms = models()
    calls = []

    class F(Fitter):
        @property
        def DefaultSettings(self):
            return {'a': 1, 'b': 2}

        def note(self, what):
            calls.append((what, self.Model is ms['A'], dict(self.Settings), len(self.Collector)))

        def initialise(self):
            self.note('initialise')
            self.Monitor.keep(v=len(calls))
            self.Collector.append('x')

        def update(self):
            self.note('update')
            self.Monitor.step()

        def terminate(self):
            self.note('terminate')

        def sample_posteriors(self, n_collect=300):
            return self.Collector
    f = F('MC fitter %s' % bits, **({'a': 5, 'z': 9} if bits[0] else {}))
    kw = {'b': 7, 'z': 3} if bits[1] else {}
    if bits[2]:
        f.fit(ms['B'])
    del calls[:]
    f.fit(ms['A'], **kw)
    st = {'a': 5 if bits[0] else 1, 'b': 7 if bits[1] else 2}
    want = [('initialise', True, st, 0), ('update', True, st, 1), ('terminate', True, st, 1)]
    expect(calls == want, 'phases %s, expected %s' % (calls, want), bits=bits)
    rows = f.Monitor.Trajectories
    expect(list(rows.index) == [0] and list(rows['v']) == [1], 'trace %s' % rows, bits=bits)
    expect(isinstance(f.Collector, ParameterSet), 'collector %s' % f.Collector, bits=bits)
    f.close()
    expect(f.Model is not ms['A'], 'closing kept the model', bits=bits)
    # messages keep their level
    was = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    seen = []

    class H(logging.Handler):
        def emit(self, rec):
            seen.append((rec.levelno, rec.getMessage()))
    h = H()
    f.Monitor.Logger.propagate = False
    f.Monitor.Logger.addHandler(h)
    try:
        for i in range(3):
            (f.error if (i + bits[3]) % 2 else f.info)('m%d' % i)
    finally:
        logging.disable(was)
        f.Monitor.Logger.removeHandler(h)
    want = [(logging.ERROR if (i + bits[3]) % 2 else logging.INFO, 'm%d' % i) for i in range(3)]
    expect(seen == want, 'messages %s, expected %s' % (seen, want), bits=bits)
    tick('transitions', 3)
    tick('traces')
    ST.state(('phases', tuple(bits)))
