"""C24: sweeps and iterations: every case computed, recorded and read back exactly, across crashes and restarts."""
import contextlib
import io
import math
import os
import shutil
import tempfile

import numpy as np

from lib import boot, fe
from lib.core import Sub, Violation, require, close

ASSUMPTIONS = ['A crash is an exception of the solver, a failing write, or the loss of the last bytes of the file that was being appended to.',
               'A restarted iteration gets the same inputs, or a longer list of them, in the same order.']


class Crash(Exception):
    pass


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def folder():
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix='c24_', dir=boot.scratch())
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------- sweeps
HOOK = {}


def solver1(a, b, c, p=0):
    """A solver.

    Parameters
    ----------
    a : float
    b : float
    c : float
    p :

    Returns
    -------
    x : float
    """
    return HOOK['f'](1, a, b, c, p)


def solver2(alpha, nu, dt):
    """
    Parameters
    ----------
    alpha :
    nu :
    dt :

    Returns
    -------
    energy :
    error :

    """
    return HOOK['f'](2, alpha, nu, dt, 0)


def solver3(K, N, c, p=0):
    """
    Parameters
    ----------
    K :
        The number of elements.
    N :
    c :
    p :

    Returns
    -------
    u_error_L2 :
    w :
    n_of_dofs :

    """
    return HOOK['f'](3, K, N, c, p)


SOLVERS = {1: solver1, 2: solver2, 3: solver3}
NAMES = {1: (('a', 'b', 'c'), ('x',)), 2: (('alpha', 'nu', 'dt'), ('energy', 'error')), 3: (('K', 'N', 'c'), ('u_error_L2', 'w', 'n_of_dofs'))}


def outputs(n, a, b, c, p, special):
    """Distinct for distinct inputs; of all sizes and signs."""
    x = math.sin(1.7 * a + 31.3 * b + 7.1 * c + p) * 10. ** ((hash((round(a * 64), round(b * 64))) % 41) - 20)
    out = [x, -x / 3, int(1000 * abs(math.sin(a + 5 * b - c)))][:n]
    if special == 'nan' and a > b:
        out[0] = math.nan
    elif special == 'inf' and a > b:
        out[-1] = math.inf
    elif special == 'int':
        out = [int(100 * a) * 7 + i for i in range(n)]
    elif special == 'np':
        out = [np.float64(_) for _ in out]
    return out


def s_sweep():
    S = fe.st()
    num = S.one_of(S.integers(-3, 40), S.sampled_from([.5, .1, 1 / 3, math.pi, -math.e, 1e-9, 2.5e7, 0., 1e-3, 12345.678, -0.1]), fe.s_num(-10, 10, 6))

    @S.composite
    def mk(draw):
        lens = draw(S.lists(S.integers(1, 4), min_size=1, max_size=4))
        c = {'n': draw(S.sampled_from([1, 2, 3])), 'i0': [draw(S.lists(num, min_size=m, max_size=m)) for m in lens], 'i1': [draw(S.lists(num, min_size=m, max_size=m)) for m in lens],
             'i2': draw(S.lists(num, min_size=1, max_size=3)), 'special': draw(S.sampled_from(['', '', 'nan', 'inf', 'int', 'np'])), 'p': draw(S.sampled_from([0, 0, 2.5])),
             'none': draw(S.booleans()), 'parallel': draw(S.booleans()), 'progress': draw(S.booleans())}
        tot = sum(lens) * len(c['i2'])
        # sessions: how many new computations until the crash, how many bytes of the last row are lost
        c['crash'] = draw(S.lists(S.tuples(S.integers(0, max(1, tot - 1)), S.one_of(S.just(0), S.integers(1, 60), S.integers(60, 160))), max_size=3))
        c['more'] = draw(S.lists(S.tuples(num, num), max_size=2))
        c['grow'] = draw(S.sampled_from(['row', 'col', 'k']))
        return c
    return mk()


def sweep_order(i0, i1, i2):
    out = []
    for c in i2:
        for ra, rb in zip(i0, i1):
            for a, b in zip(ra, rb):
                if a is not None:
                    out.append((a, b, c))
    return out


def rows_of(rdf, n):
    ins, outs = NAMES[n]
    require(list(rdf.columns[:-3]) == [*ins, *outs], f'columns {list(rdf.columns)}')
    return [tuple(float(rdf[k].iloc[r]) for k in ins) for r in range(len(rdf))], [[rdf[k].iloc[r] for k in outs] for r in range(len(rdf))]


def same(x, y):
    x, y = float(x), float(y)
    return x == y or (math.isnan(x) and math.isnan(y))


def check_rdf(rdf, want, n, val, txt):
    ins, outs = rows_of(rdf, n)
    keys = [tuple(float(_) for _ in w) for w in want]
    require(sorted(ins) == sorted(set(keys)), f'{txt}: the cases {sorted(ins)[:6]} are recorded, not {sorted(set(keys))[:6]} ({len(ins)} and {len(set(keys))})', key='cases')
    require(list(rdf.index) == list(range(len(ins))), f'{txt}: index {list(rdf.index)}', key='index')
    for k, o in zip(ins, outs):
        w = val(*k)
        require(all(same(a, b) for a, b in zip(o, w)), f'{txt}: the outputs of {k} are recorded as {o}, not {w}', key='values')


def prop_sweep(case):
    boot.phyem()
    from phyem.tools.legacy.serialRunners.INSTANCES import matrix3d_input_runner as M
    from phyem.tools.legacy.runners._3d_matrix_inputs.main import ParallelMatrix3dInputRunner as PR
    from phyem.tools.runner import RunnerDataReader
    n, p = case['n'], (case['p'] if case['n'] != 2 else 0)
    kw = {'p': p} if p else {}
    i0, i1, i2 = [list(r) for r in case['i0']], [list(r) for r in case['i1']], list(case['i2'])
    if case['none'] and len(i0[0]) > 1:
        i0[0][0] = None
    val = lambda a, b, c: outputs(n, a, b, c, p, case['special'])
    calls = []

    def session(limit, cut, writeto):
        """Run until the given number of new cases; returns the results or None."""
        new = []

        def f(m, a, b, c, p_):
            if limit is not None and len(new) >= limit:
                raise Crash
            require(p_ == p, f'the solver got p={p_}, not {p}', key='kwargs')
            new.append((float(a), float(b), float(c)))
            return outputs(m, a, b, c, p_, case['special'])
        HOOK['f'] = f
        R = PR(SOLVERS[n]) if case['parallel'] else M.Matrix3dInputRunner(SOLVERS[n])
        try:
            if case['parallel']:
                R.iterate(i0, i1, i2, writeto=writeto, **kw)
                res = R.results
            else:
                R.iterate(i0, i1, i2, writeto=writeto, saveto=False, show_progress=case['progress'], **kw)
                res = R.results
        except Crash:
            res = None
        calls.append(new)
        torn = False
        if res is None and cut and new:
            with open(writeto, 'r+b') as g:
                data = g.read()
                last = len(data) - data.rstrip(b'\n').rfind(b'\n') - 1
                g.truncate(len(data) - min(cut, last))
                torn = True
        return R, res, torn

    with folder(), quiet():
        was, M.sleep = M.sleep, lambda *_: None
        try:
            want = sweep_order(i0, i1, i2)
            _, res, _ = session(None, 0, None)
            check_rdf(res, want, n, val, 'a sweep')
            require(calls[-1] == list(dict.fromkeys(tuple(float(_) for _ in w) for w in want)), 'the order of a sweep', key='order')
            calls.clear()
            done, ends = [], 0
            res = None
            for limit, cut in case['crash'] + [(None, 0)]:
                R, res, torn = session(limit, cut, 'w.txt')
                fresh = [k for k in dict.fromkeys(tuple(float(_) for _ in w) for w in want) if k not in done]
                stop = len(fresh) if limit is None else min(limit, len(fresh))
                require(calls[-1] == fresh[:stop], f'session {len(calls)}: {calls[-1][:4]} computed, but {fresh[:stop][:4]} were still to do', key='recomputed')
                done += calls[-1]
                if torn:
                    done.pop()
                    ends += 1
                if res is not None:
                    break
            check_rdf(res, want, n, val, f'after {len(calls) - 1} crashes ({ends} torn rows)')
            back = RunnerDataReader('w.txt').results
            check_rdf(back, want, n, val, 'read from the file')
            # more of it
            for a, b in case['more']:
                if case['grow'] == 'row':
                    i0.append([a]), i1.append([b])
                elif case['grow'] == 'col':
                    i0[-1].append(a), i1[-1].append(b)
                else:
                    i2.append(a)
            if case['more']:
                want = sweep_order(i0, i1, i2)
                fresh = [k for k in dict.fromkeys(tuple(float(_) for _ in w) for w in want) if k not in done]
                _, res, _ = session(None, 0, 'w.txt')
                require(calls[-1] == fresh, f'extended: {calls[-1][:4]} computed, not {fresh[:4]}', key='recomputed')
                check_rdf(res, want, n, val, 'extended')
                check_rdf(RunnerDataReader('w.txt').results, want, n, val, 'extended, read from the file')
        finally:
            M.sleep = was
            HOOK.clear()
    return {'nontrivial': len(calls) > 1, 'labels': [f'{len(case["crash"])} crashes', 'torn' if ends else 'whole', case['special'] or 'floats']}


# ---------------------------------------------------------------------------------------------- iterations
class State:
    """Something the solver advances, in the way a form is."""

    def __init__(self, name):
        self.name, self.x = name, 1.

    def _make_cache_data(self, t=None):
        if HOOK.get('bad'):
            return {'x': self.x, 'pad': ['#' * 50000, Unsaveable()]}
        return {'x': self.x}

    def _read_cache_data(self, data):
        self.x = data['x']


class Unsaveable:
    def __reduce__(self):
        raise Crash


def step(x, k):
    return math.cos(1.3 * x + .7 * float(k)) + .1 * x


def it_solver(k):
    """
    Parameters
    ----------
    k : int

    Returns
    -------
    exit_code : int
    message : str
    t : float
    x : float
    """
    return HOOK['f'](k)


def it_solver2(k, j):
    """
    Parameters
    ----------
    k :
    j :

    Returns
    -------
    exit_code :
    message :
    t :
    x :

    """
    return HOOK['f'](k, j)


def s_iter():
    S = fe.st()

    @S.composite
    def mk(draw):
        n = draw(S.integers(1, 14))
        kind = draw(S.sampled_from(['range', 'range', 'ints', 'float', 'fine', 'mixed']))
        start = draw(S.integers(-2, 5))
        if kind == 'range':
            seq = list(range(start, start + n))
        elif kind == 'ints':
            seq = draw(S.lists(S.integers(-5, 25), min_size=n, max_size=n, unique=True))
        elif kind == 'mixed':
            seq = [start + i * .5 for i in range(n)]
        elif kind == 'fine':
            seq = [start + (i + 1) * draw(S.sampled_from([1e-3, 1e-4])) for i in range(n)]
            seq = sorted(set(seq))
        else:
            seq = [round(start + .1 * (i + 1), 1) for i in range(n)]
        tick = draw(S.lists(S.sampled_from([1e-6, .2, 1., 5.]), min_size=n, max_size=n))
        return {'seq': seq, 'cache': draw(S.sampled_from([None, 'all', 2., 2., 'never'])), 'tick': tick, 'stop': draw(S.one_of(S.none(), S.integers(0, n))),
                'crash': draw(S.lists(S.tuples(S.integers(0, n), S.sampled_from(['solver', 'solver', 'dump'])), max_size=4)),
                'parts': draw(S.lists(S.integers(1, n), max_size=2)), 'init': draw(S.sampled_from([None, [0., 1.]])), 'two': draw(S.booleans()), 'report': draw(S.integers(0, 40)) == 40,
                'pbar': draw(S.booleans()), 'msg': draw(S.sampled_from(['fine', ['a', 'b'], '']))}
    return mk()


class Clock:
    def __init__(self, ticks):
        self.t, self.ticks = 1e9, ticks

    def __call__(self):
        return self.t


def prop_iter(case):
    ph = boot.phyem()
    import pandas as pd
    from phyem.tools.iterator import main as I
    from phyem.tools.iterator import monitor as Mo
    seq = case['seq']
    two = case['two'] and case['cache'] is None
    track, x = [], 1.
    for k in seq:
        x = step(x, k)
        track.append(x)
    last = len(seq) if case['stop'] is None else min(len(seq), case['stop'] + 1)
    clock = Clock(case['tick'])
    cached_all = case['cache'] == 'all'
    sessions = [('crash', c, len(seq)) for c in case['crash']] if case['cache'] is not None else []
    sessions += [('part', None, m) for m in sorted(case['parts'])] if case['cache'] is not None else []
    sessions += [('full', None, len(seq))]
    saved = Mo.IteratorMonitor._graphic_report, I.time, I.sleep
    restarts = resumed = 0
    with folder(), quiet():
        if not case['report']:
            Mo.IteratorMonitor._graphic_report = lambda *_: None
        I.sleep = lambda *_: None
        I.time = clock
        try:
            on_disk = -1                       # every input up to this one is certainly in the cache
            for what, crash, m in sessions:
                st = State('s')
                calls = []

                def f(k, j=None):
                    i = seq.index(k)
                    if two:
                        require(j == k * 2 + 1, f'the ranges are zipped: {k}, {j}', key='zip')
                    if crash is not None and crash[1] == 'solver' and len(calls) >= crash[0]:
                        raise Crash
                    if crash is not None and crash[1] == 'dump' and len(calls) == crash[0]:
                        HOOK['bad'] = True
                    calls.append(i)
                    st.x = step(st.x, k)
                    clock.t += 1e3 if cached_all else case['tick'][i]
                    return [1 if case['stop'] == i else 0, case['msg'], float(k), st.x]
                HOOK.clear()
                HOOK['f'] = f
                it = ph.iterator(it_solver2 if two else it_solver, case['init'], name='it', monitoring_factor=0.5) if hasattr(ph, 'iterator') else \
                    I.Iterator(it_solver2 if two else it_solver, case['init'], name='it', monitoring_factor=.5)
                if case['cache'] is not None:
                    it.cache(st, time={'all': 1., 'never': np.inf}.get(case['cache'], case['cache']))
                crashed = False
                try:
                    it.run(seq[:m], *([[k * 2 + 1 for k in seq[:m]]] if two else []), pbar=case['pbar'])
                except Crash:
                    restarts += 1
                    crashed = True
                    require(what == 'crash', 'an unexpected crash')
                HOOK.pop('bad', None)
                end = min(m, last)
                if calls:
                    require(calls == list(range(calls[0], calls[0] + len(calls))), f'inputs {calls} are computed', key='order')
                    resumed += calls[0] > 0
                    require(calls[0] <= on_disk + 1 or not cached_all and case['cache'] != 'never', f'the first {calls[0]} inputs are skipped', key='resume')
                    if cached_all:
                        require(calls[0] == on_disk + 1, f'{calls[0]} is computed, but inputs up to {on_disk} have been saved', key='resume')
                    if case['cache'] in ('never', None):
                        require(calls[0] == 0, f'the first {calls[0]} inputs are skipped', key='resume')
                    close([st.x], [track[calls[-1]]], f'the state after input {calls[-1]} (resumed at {calls[0]})', 1e-12, 1e-12, key='state')
                if cached_all and calls:
                    on_disk = max(on_disk, calls[-1] - (crash is not None and crash[1] == 'dump' and len(calls) == crash[0] + 1 and what == 'crash'))
                if crashed:
                    continue
                # finished: all the results
                R = it.RDF
                require(list(R.columns) == ['t', 'x'] and len(R) == end + 1, f'{len(R)} rows for {end} inputs: {list(R.columns)}', key='rows')
                ini = case['init'] or [math.nan] * 2
                require(all(same(a, b) for a, b in zip(R.iloc[0], ini)), f'the initial row {list(R.iloc[0])}', key='rows')
                require(list(R['t'][1:]) == [float(k) for k in seq[:end]], f"the column t {list(R['t'])}", key='rows')
                close(np.array(R['x'][1:], dtype=float), np.array(track[:end]), f'the results after {restarts} crashes', 1e-12, 1e-12, key='results')
                csv = pd.read_csv('it.csv', index_col=0)
                close(np.array(csv['x'][1:], dtype=float), np.array(track[:end]), 'the saved results', 1e-12, 1e-12, key='csv')
                require(len(csv) == len(R) and list(csv.columns) == ['t', 'x'], 'the saved results', key='csv')
                require(it.exit_code == (1 if case['stop'] is not None and end == case['stop'] + 1 else 0), f'exit code {it.exit_code}', key='exit')
                if calls:
                    require(list(it.message) == ([case['msg']] if isinstance(case['msg'], str) else case['msg']), f'message {it.message}', key='exit')
        finally:
            Mo.IteratorMonitor._graphic_report, I.time, I.sleep = saved
            HOOK.clear()
    return {'nontrivial': len(seq) > 1, 'labels': [f"cache {case['cache']}", 'resumed' if resumed else 'from the start', 'stopped' if last < len(seq) else 'to the end']}


# -------------------------------------------------------------------------- the record of computed inputs
def s_inputs():
    S = fe.st()
    ints = S.lists(S.integers(-6, 20), min_size=1, max_size=30)
    runs = S.lists(S.tuples(S.integers(-6, 20), S.integers(1, 9)), min_size=1, max_size=4).map(lambda L: [i for a, m in L for i in range(a, a + m)])
    return S.fixed_dictionaries({'seq': S.one_of(ints, runs, S.lists(S.integers(0, 10).map(lambda i: i / 4), min_size=1, max_size=12)), 'each': S.booleans()})


def prop_inputs(case):
    boot.phyem()
    from phyem.tools.iterator.main import Iterator as It
    rec, have = [[], [], []], set()
    for i, x in enumerate(case['seq']):
        key = It._make_inputs_key((x,))
        require(It._check_input_cache(rec, key) == (x in have), f'input {x} after {sorted(have)}: {rec}', key='member')
        It._update_computed_inputs(rec, key)
        have.add(x)
        if case['each'] or i % 3 == 2:
            It._compress_computed_input_list(rec)
        for y in set(case['seq']) | {x + 1, x - 1}:
            require(It._check_input_cache(rec, It._make_inputs_key((y,))) == (y in have), f'input {y} after {sorted(have)}: {rec}', key='member')
    return {'nontrivial': len(have) > 2, 'labels': ['integers' if all(isinstance(x, int) for x in case['seq']) else 'floats']}


# --------------------------------------------------------------------------------------------------- forms
def s_forms():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(libs=('msehtt',), dims=(2, 2, 3), maxp=(1, 3, 2), maxn=(1, 3, 2)))
        n = draw(S.integers(2, 6))
        nk = draw(S.integers(1, 2))
        return {'spec': spec, 'keys': [draw(S.integers(0, 20)) for _ in range(nk)], 'n': n, 'crash': draw(S.lists(S.integers(0, n), min_size=1, max_size=3)), 'seed': draw(S.integers(0, 10 ** 6)),
                'dt': draw(S.sampled_from([.5, .1, 1 / 3])), 'reset': draw(S.booleans()) and spec['mesh']['type'] != 'chaotic'}       # a chaotic mesh is a random one
    return mk()


def prop_forms(case):
    ph = boot.phyem()
    from phyem.tools.iterator import main as I
    from phyem.tools.iterator import monitor as Mo
    saved = Mo.IteratorMonitor._graphic_report, I.time, I.sleep
    clock = Clock(None)
    n, dt = case['n'], case['dt']
    keys = [fe.space_keys(case['spec']['dim'])[i % len(fe.space_keys(case['spec']['dim']))] for i in case['keys']]
    keys = list(dict.fromkeys(keys))
    ref, resumed = {}, 0
    with folder(), quiet():
        Mo.IteratorMonitor._graphic_report = lambda *_: None
        I.sleep, I.time = (lambda *_: None), clock
        try:
            D = None
            for s, crash in enumerate([None] + case['crash'] + [n + 1]):
                if D is None or case['reset']:
                    D = fe.Disc(case['spec'], keys=keys)
                elif s:
                    for key in keys:
                        D.forms[key].cochain.clean('all') if hasattr(D.forms[key].cochain, 'clean') else None
                base = {}
                for q, key in enumerate(keys):
                    v, _ = fe.rng_cochains(D, key, case['seed'] + q)
                    base[key] = v
                    D.set_cochain(key, 0, v)
                calls = []

                def f(k):
                    if crash is not None and len(calls) >= crash:
                        raise Crash
                    calls.append(k)
                    clock.t += 1e3
                    tot = 0.
                    for key in keys:
                        old = D.get_cochain(key, (k - 1) * dt)
                        new = {e: .5 * old[e] + base[key][e] * k for e in D.elements}
                        D.set_cochain(key, k * dt, new)
                        tot += sum(float(np.sum(new[e])) for e in D.elements)
                    return [0, '', k * dt, tot]
                HOOK['f'] = f
                it = I.Iterator(it_solver, None, name='full' if crash is None else 'it', monitoring_factor=.5)
                if crash is not None:
                    it.cache(*[D.forms[key] for key in keys], time=1.)
                try:
                    it.run(range(1, n + 1), pbar=False)
                except Crash:
                    continue
                if calls and calls[0] > 1:
                    resumed += 1
                x = np.array(it.RDF['x'][1:], dtype=float)
                if crash is None:
                    ref = x
                    fin = {key: D.get_cochain(key, n * dt) for key in keys}
                else:
                    close(x, ref, 'the results of a restarted iteration', 1e-9, 1e-9, key='results')
                    if calls:
                        for key in keys:
                            c = D.get_cochain(key, n * dt)
                            for e in D.elements:
                                close(c[e], fin[key][e], f'the cochain of {key} in element {e} after a restart', 1e-12, 1e-12, key='state')
        finally:
            Mo.IteratorMonitor._graphic_report, I.time, I.sleep = saved
            HOOK.clear()
    return {'nontrivial': resumed > 0, 'labels': fe.labels(case['spec'])}


# ------------------------------------------------------------------------------------------------ times as text
def s_times():
    S = fe.st()
    return S.fixed_dictionaries({'s': S.one_of(S.integers(0, 10 ** 6), S.floats(0, 1e6), S.sampled_from([0, 59, 59.9996, 60, 3599, 3600, 86399, 86400, 86399.5]))})


def prop_times(case):
    boot.phyem()
    from phyem.tools.miscellaneous.timer import MyTimer as T
    s = case['s']
    require(T.hms2seconds(T.seconds2hms(s)) == int(s), f'{s} as {T.seconds2hms(s)}', key='hms')
    require(T.dhms2seconds(T.seconds2dhms(s)) == int(s), f'{s} as {T.seconds2dhms(s)}', key='dhms')
    close([T.dhmsm2seconds(T.seconds2dhmsm(s))], [s], f'{s} as {T.seconds2dhmsm(s)}', 0, 1.1e-3, key='dhmsm')
    h = T.seconds2hmsm(s)
    close([T.hms2seconds(h.split('.')[0] + ']') + int(h.split('.')[1][:-1]) / 1000], [s], f'{s} as {h}', 0, 1.1e-3, key='hmsm')
    return {'nontrivial': s >= 60, 'labels': []}


SUBS = [
    Sub('sweeps', s_sweep, prop_sweep, 250, 10000, 'The sweep is interrupted, or extended.'),
    Sub('iterations', s_iter, prop_iter, 250, 10000, 'More than one input.'),
    Sub('inputs', s_inputs, prop_inputs, 800, 40000, 'Three different inputs.'),
    Sub('forms', s_forms, prop_forms, 100, 3000, 'A session resumes from the cache.'),
    Sub('times', s_times, prop_times, 1000, 40000, 'A minute or more.'),
]
