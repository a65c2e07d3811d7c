"""Monitors: all histories of keep / step / reset against a reference record."""
import itertools
import logging
import os
import tempfile
from .. import core, fitkit
from ..core import ST, expect, expect_raises, tick

OPS = [('keep', {'a': 1}), ('keep', {'b': 'x', 'a': 2.5}), ('keep', {'b': None}),
       ('step', None), ('step', 0), ('step', 1), ('step', 2.5), ('step', -1), ('step', 5),
       ('reset', None), ('reset', 3), ('reset', -2)]
BOUNDS = {
    'quick': 'all histories of <= 5 operations (12 operations: keeping, stepping by one or to 5 times, resetting to 3 times); state compared '
             'after every operation; log messages at 3 levels to files',
    'thorough': 'histories of <= 6 operations',
}
ASSUMPTIONS = ['values kept are not modified afterwards by the caller']


def jobs(tier):
    n = 5 if tier == 'quick' else 6
    out = [['hist', [i, j], n] for i in range(len(OPS)) for j in range(len(OPS))]
    out += [['log', k] for k in range(8)]
    return out


def same(a, b):
    import math
    if isinstance(a, float) and math.isnan(a):
        return b is None or isinstance(b, float) and math.isnan(b)
    return a == b or a is None and (b is None or isinstance(b, float) and math.isnan(b))


class Ref:
    def __init__(self):
        self.time, self.last, self.rows = 0, {}, []

    def apply(self, op, arg):
        """-> True when the operation is refused"""
        if op == 'keep':
            self.last.update(arg)
        elif op == 'reset':
            self.time, self.last, self.rows = arg or 0, {}, []
        else:
            t = self.time + 1 if arg is None else arg
            if t < self.time:
                return True
            if t > self.time:
                self.rows.append(dict(self.last, Time=self.time))
                self.time, self.last = t, {}
        return False


def real(mon, op, arg):
    if op == 'keep':
        mon.keep(**arg)
    elif op == 'reset':
        mon.reset() if arg is None else mon.reset(arg)
    else:
        mon.step() if arg is None else mon.step(arg)


def look(mon, ref, info):
    expect(mon.Time == ref.time, 'time %s, expected %s' % (mon.Time, ref.time), **info)
    expect([dict(r) for r in mon.Records] == ref.rows, 'records %s, expected %s' % (mon.Records, ref.rows), **info)
    for k in ('a', 'b', 'c'):
        if k in ref.last:
            expect(mon[k] == ref.last[k], 'kept value of %s: %s, expected %s' % (k, mon[k], ref.last[k]), **info)
        else:
            expect_raises(KeyError, lambda: mon[k], 'a value that was not kept since the last step was found', **info)


def table(mon, ref, info):
    df = mon.Trajectories
    expect(list(df.index) == [r['Time'] for r in ref.rows], 'times %s, expected %s' % (list(df.index), ref.rows), **info)
    cols = {k for r in ref.rows for k in r if k != 'Time'}
    expect(set(df.columns) == cols, 'columns %s, expected %s' % (list(df.columns), cols), **info)
    for i, r in enumerate(ref.rows):
        for k in cols:
            expect(same(r.get(k), df[k].iloc[i]), 'row %d of %s: %s' % (i, df, r), **info)


def run(job):
    core.load_sut()
    from sims_pars.monitor import Monitor
    if job[0] == 'log':
        return logs(job[1])
    _, first, depth = job
    seen = set()
    other = Monitor('MC other')
    other.keep(a=7)
    other.step()
    other.keep(b=1)
    for n in range(len(first), depth + 1):
        for rest in itertools.product(range(len(OPS)), repeat=n - len(first)):
            hist = [OPS[i] for i in list(first) + list(rest)]
            mon, ref = Monitor('MC'), Ref()
            info = dict(history=hist)
            for k, (op, arg) in enumerate(hist):
                was = ref.time
                if ref.apply(op, arg):
                    expect_raises(KeyError, lambda: real(mon, op, arg), 'a step back from %s to %s was not refused' % (was, arg), **info)
                else:
                    real(mon, op, arg)
                if k == len(hist) - 1:        # earlier states are last ones of shorter histories
                    look(mon, ref, info)
                tick('transitions')
            key = repr(ref.rows)
            if key not in seen or len(hist) <= 4:
                seen.add(key)
                table(mon, ref, info)
            ST.state((ref.time, repr(ref.last), repr(ref.rows)))
            tick('traces')
    expect(other.Time == 1 and other.Records == [{'a': 7, 'Time': 0}] and other['b'] == 1, 'another monitor changed', job=job)
    ST.outcome(tuple(first))
    ST.sample({'job': job})


def logs(k):
    from sims_pars.monitor import Monitor
    was = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    d = tempfile.mkdtemp(prefix='mc25-')
    try:
        mon = Monitor('MC log %d' % k, stream_handler=False)
        mon.Logger.propagate = False
        path = os.path.join(d, 'log.txt')
        mon.set_log_path(path)
        say = [(('info', 'INFO'), ('warning', 'WARNING'), ('error', 'ERROR'))[i] for i in
               ((k >> 2) % 2, 1 + (k >> 1) % 2, (k % 2) * 2)]
        for i, (fn, _) in enumerate(say):
            getattr(mon, fn)('message %d of %s', i, 'x') if i % 2 else getattr(mon, fn)('message %d of x' % i)
        for h in mon.Logger.handlers:
            h.flush()
        lines = open(path).read().splitlines()
        expect(len(lines) == len(say) and all(('%s: message %d of x' % (lv, i)) in ln for i, (ln, (_, lv)) in enumerate(zip(lines, say))),
               'log %s, expected %s' % (lines, say), job=k)
        mon.keep(a=1, b='x')
        mon.step()
        mon.keep(a=2)
        mon.step(4)
        mon.save_trajectories(os.path.join(d, 't.csv'))
        import pandas as pd
        df = pd.read_csv(os.path.join(d, 't.csv'))
        expect(list(df['Time']) == [0, 1] and list(df['a']) == [1, 2] and list(df['b'])[0] == 'x', 'saved table %s' % df, job=k)
        Monitor('MC empty').save_trajectories(os.path.join(d, 'e.csv'))
        expect(open(os.path.join(d, 'e.csv')).read().split() == ['Time'], 'saved table of a monitor without steps', job=k)
        # messages reach the console once, however many monitors share a name
        name = 'MC console %d' % k
        logging.getLogger(name).propagate = k % 2 == 0
        roots, logging.root.handlers = logging.root.handlers, []
        try:
            quiet = Monitor(name, stream_handler=False)
            expect(not quiet.Logger.handlers, 'a monitor without console has %s' % quiet.Logger.handlers, job=k)
            for i in range(3):
                m = Monitor(name)
                hs = [h for h in m.Logger.handlers if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler)]
                expect(len(hs) == 1 and m.Title == name and m.Logger.isEnabledFor(logging.INFO), 'monitor %d of a name: handlers %s' % (i + 1, hs), job=k)
            for h in list(m.Logger.handlers):
                m.Logger.removeHandler(h)
        finally:
            logging.root.handlers = roots
        for h in list(mon.Logger.handlers):
            h.close()
            mon.Logger.removeHandler(h)
    finally:
        logging.disable(was)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    tick('transitions', 3)
    tick('traces')
    ST.state(('log', k))
