"""Shared pieces for the checks of the fitting package: models over small networks, an in-process parallel pool."""
import contextlib
import copy
import math
import sys
import types

from . import core, gen


def quiet():
    """Import the fitting package without its heavy optional parts."""
    core.load_sut()
    gen.install()
    stub_emulator()
    import sims_pars.fit
    return sims_pars.fit


class Pool:
    """Stands for joblib.Parallel: runs the delayed calls in order, results in order; like in other processes, calls work on
    copies of their arguments and the caller gets copies of the results (where `copies` is set)."""
    made = []
    copies = False

    def __init__(self, n_jobs=None, verbose=0, **kw):
        self.args = dict(kw, n_jobs=n_jobs)
        Pool.made.append(n_jobs)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def __call__(self, tasks):
        tasks = list(tasks)
        if not Pool.copies:
            return [fn(*a, **k) for fn, a, k in tasks]
        return [copy.deepcopy(fn(*copy.deepcopy(a), **copy.deepcopy(k))) for fn, a, k in tasks]


def delayed(fn):
    def call(*a, **k):
        return fn, a, k
    return call


@contextlib.contextmanager
def in_process(copies=False):
    """Every reference to joblib's Parallel / delayed and to progress bars in the system, replaced by in-order stand-ins."""
    import joblib
    import tqdm
    saved = []

    def bar(it=None, *a, **k):
        return it
    fake_tqdm = types.SimpleNamespace(tqdm=bar, trange=lambda n, *a, **k: range(n))
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith('sims_pars'):
            continue
        for k, v in list(vars(mod).items()):
            new = None
            if v is joblib.Parallel:
                new = Pool
            elif v is joblib.delayed:
                new = delayed
            elif v is tqdm:
                new = fake_tqdm
            elif v is tqdm.tqdm:
                new = bar
            elif v is joblib:
                new = types.SimpleNamespace(Parallel=Pool, delayed=delayed)
            if new is not None:
                saved.append((mod, k, v))
                setattr(mod, k, new)
    Pool.made, Pool.copies = [], copies
    try:
        yield
    finally:
        for mod, k, v in reversed(saved):
            setattr(mod, k, v)


def stub_emulator():
    """The emulator module of history matching needs gpflow; a table-driven stand-in takes its place."""
    name = 'sims_pars.fit.hme.emulator'
    if name in sys.modules:
        return
    m = types.ModuleType(name)

    class GPREmulator:
        answer = None                            # f(output, xs row) -> (mean, variance)
        log = []
        memory = 0.0                             # share of all outputs ever trained on in a prediction

        def __init__(self, output, kernel=None, **kwargs):
            self.Output, self.past = output, 0.0

        def train(self, xs, ys):
            self.past += sum(float(y[self.Output]) for y in ys) + 1
            GPREmulator.log.append(('train', self.Output, [list(map(float, x)) for x in xs],
                                    [float(y[self.Output]) for y in ys]))

        def predict(self, xs):
            import numpy as np
            GPREmulator.log.append(('predict', self.Output, [list(map(float, x)) for x in xs]))
            r = [GPREmulator.answer(self.Output, tuple(float(v) for v in x)) for x in xs]
            return np.array([[a + GPREmulator.memory * self.past] for a, _ in r]), np.array([[b] for _, b in r])
    m.GPREmulator = GPREmulator
    m.AbsEmulator = GPREmulator
    sys.modules[name] = m


def close(a, b, tol=1e-9):
    return core.close(a, b, tol)


def isnan(x):
    return isinstance(x, float) and math.isnan(x)
