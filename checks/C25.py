"""C25: what is computed does not depend on what was computed before in the same process (caches, global state, call order).

Every case runs in forked children of a pristine process: one child answers the queries on the target alone, another
one first works on other discretizations (similar to the target, on purpose) in the same process.
"""
import copy
import random

import numpy as np

from lib import boot, fe
from lib.core import Sub, Violation, require
from lib.iso import isolated

ASSUMPTIONS = ['The answers themselves are checked by the other properties; here only their independence of the history.']
WHAT = ['E', 'M', 'gm', 'reduce', 'recon', 'error', 'norm', 'rm', 'ip', 'geo', 'interp', 'interp', 'find', 'asm', 'bf', 'next', 'deg', 'cf']


# ------------------------------------------------------------------------------------------------- queries
def pack(x):
    """Anything a query returns, as a flat list of plain arrays (order of dictionaries by key)."""
    if x is None or isinstance(x, (str, bool)):
        return repr(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return np.array(float(x))
    if isinstance(x, np.ndarray):
        return np.array(x) if x.dtype != object else [pack(_) for _ in x.ravel()]
    if hasattr(x, 'toarray'):
        return np.asarray(x.toarray())
    if isinstance(x, dict):
        ks = sorted(x, key=repr)
        return [repr(ks), [pack(x[k]) for k in ks]]
    if isinstance(x, (list, tuple)):
        return [pack(_) for _ in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(_) for _ in x)
    return type(x).__name__


def differ(a, b, path=''):
    if type(a) is not type(b):
        return f'{path}: {str(a)[:80]} against {str(b)[:80]}'
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return f'{path}: shapes {a.shape}, {b.shape}'
        if a.dtype != object and a.size and not np.allclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True):
            return f'{path}: max deviation {np.nanmax(np.abs(a - b)):.3e} of size {np.nanmax(np.abs(b)):.3e}'
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: lengths {len(a)}, {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{path}/{i}')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {str(a)[:120]} against {str(b)[:120]}'


class World:
    """A discretization and answers to queries about it."""

    def __init__(self, spec):
        self.spec = spec
        random.seed(7)              # (some meshes are randomly shuffled)
        np.random.seed(7)
        self.D = D = fe.Disc(spec)
        self.keys = fe.space_keys(D.dim)
        self.points = [[], [], []][:D.dim]
        for e in D.elements[:5]:
            for a, x in zip(self.points, D.map(e, *[np.array([-.37, .11, .63])] * D.dim)):
                a.extend(np.asarray(x).ravel())

    def answer(self, q):
        try:
            r = self.ask(q)
        except (NotImplementedError, AssertionError, TypeError, KeyError, ValueError, IndexError, AttributeError,
                NameError, ZeroDivisionError, RuntimeError) as e:
            return 'raises ' + type(e).__name__
        except Violation:
            raise
        except Exception as e:  # noqa
            return 'raises ' + type(e).__name__
        return pack(r)

    def ask(self, q):
        D = self.D
        what, key = q['w'], self.keys[q['k'] % len(self.keys)]
        f = D.forms[key]
        htt = D.lib == 'msehtt'
        r = np.random.default_rng(q['s'])
        els = D.elements[:6]
        if what in ('E', 'next') and key[0] == D.dim:
            key = (key[0] - 1, key[1])
            f = D.forms[key]
        if what == 'E':
            return {e: D.E(key, e) for e in els}
        if what == 'M':
            return {e: D.M(key, e) for e in els}
        if what == 'asm':
            m = f.matrix.mass if not htt else None
            return m.assemble()._M if m is not None else [D.M(key, e) for e in els]
        if what == 'gm':
            gm, n = D.gm(key)
            return [n, {e: gm[e] for e in D.elements}]
        t = q['s'] % 5 / 4
        if what == 'reduce':
            return D.reduce(key, self.field(key, r), t)
        xi = np.sort(np.round(r.uniform(-1, 1, 2 + q['s'] % 3), 3))
        grid = [xi] * D.dim if q['s'] % 2 else [np.sort(np.round(r.uniform(-1, 1, 2 + i), 3)) for i in range(D.dim)]
        if what in ('recon', 'error', 'norm', 'ip', 'interp'):
            if what == 'error':
                D.reduce(key, self.field(key, r), t)
                return f[t].error()
            v, _ = fe.rng_cochains(D, key, q['s'])
            D.set_cochain(key, t, v)
            if what == 'recon':
                return D.recon(key, t, *grid)
            if what == 'norm':
                return f[t].norm()
            if what == 'ip':
                if htt:
                    return f[t].inner_product(f[t])
                return f[t].inner_product(f[t]) if hasattr(f[t], 'inner_product') else f.inner_product(t, f, t)
            x = np.array(self.points)
            if htt:
                p = f[t].numeric.interpolate(component_wise=bool(q['s'] % 2))[1]
                return [_(*x) for _ in (p if isinstance(p, tuple) else (p,))]
            p = f.numeric.interp(t, density=6 + q['s'] % 2, factor=3 + q['s'] % 3)
            return [_(*x) for _ in (p if isinstance(p, tuple) else (p,))]
        if what == 'rm':
            return f.reconstruction_matrix(*grid)
        if what == 'geo':
            X = np.meshgrid(*grid, indexing='ij')
            out = []
            for e in els:
                el = D.element(e)
                out.append([np.array(D.map(e, *X)), el.ct.Jacobian_matrix(*X), el.ct.Jacobian(*X), el.ct.metric(*X), el.ct.inverse_Jacobian_matrix(*X),
                            el.ct.metric_matrix(*X), el.ct.inverse_metric_matrix(*X)])
            return out
        if what == 'bf':
            return None if htt else f.space.basis_functions[f.degree](*grid)[1]
        if what == 'next':
            return f.coboundary.incidence_matrix._data if not htt else {e: f.incidence_matrix[e] for e in els}
        if what == 'deg':
            p = max(fe.degree_p(self.spec)) + 1 + q['s'] % 2
            if htt:
                return {e: f.space.mass_matrix(p)[0][e] for e in els}
            M = f.space.mass_matrix(p)
            return [M(e) if callable(M) and not hasattr(M, 'toarray') else M[e] for e in els]
        if what == 'find':
            gm = f.cochain.gathering_matrix
            i = (7 * D.gm(key)[1]) // 11
            if D.lib == 'msepy':
                return gm._find_elements_and_local_indices_of_dofs(i)
            return gm.find_rank_locations_of_global_dofs(i)
        if what == 'cf':
            D.set_cf(key, self.field(key, r))
            g = f.cf.exterior_derivative() if key[0] < D.dim else f.cf.codifferential()
            g = getattr(g, 'field', g)
            x = [np.array([.1, .3])] * D.dim
            return [g[i](t, *x) for i in sorted(g)] if hasattr(g, '__iter__') or isinstance(g, dict) else g(t, *x)

    def field(self, key, r):
        D = self.D
        nc = fe.n_components(D.dim, key[0])
        return fe.Field([[['c', 1., *[float(_) for _ in np.round(r.uniform(-2, 2, D.dim), 2)], .5, .1 * i]] for i in range(nc)], D.dim)


# ------------------------------------------------------------------------------------------------- cases
def s_case():
    S = fe.st()
    spec = fe.s_spec(dims=(1, 2, 2, 2, 3), maxp=(3, 3, 2), maxn=(4, 3, 2))
    qs = S.lists(S.fixed_dictionaries({'w': S.sampled_from(WHAT), 'k': S.integers(0, 5), 's': S.integers(0, 30)}), min_size=3, max_size=8)

    @S.composite
    def mk(draw):
        B = draw(spec)
        before = []
        for _ in range(draw(S.integers(1, 3))):
            how = draw(S.sampled_from(['other', 'same', 'near', 'near', 'near', 'near']))
            A = draw(spec) if how == 'other' else copy.deepcopy(B) if how == 'same' else near(draw, B)
            before.append({'spec': A, 'keep': draw(S.booleans())})
        return {'B': B, 'before': before, 'q': draw(qs), 'perm': draw(S.integers(0, 99))}
    return mk()


def near(draw, B):
    """A discretization that is nearly the given one."""
    S = fe.st()
    A = copy.deepcopy(B)
    m, d = A['mesh'], A['dim']
    eps = draw(S.sampled_from([1e-9, 1e-7, 1e-5, 1e-3, .05]))
    opts = ['degree']
    if 'bounds' in m:
        opts += ['bounds', 'bounds', 'shift', 'scale']
        opts += ['c'] if m.get('c') else []
    if isinstance(m.get('layout'), list) and all(isinstance(_, list) for _ in m['layout']) and any(len(_) > 1 for _ in m['layout']):
        opts += ['weights', 'weights']
    if isinstance(A['degree'], list) and all(isinstance(_, list) for _ in A['degree']) and any(len(_) > 1 for _ in A['degree']):
        opts += ['nodes', 'nodes', 'nodes']
    if m['type'] == 'crazy' and not m.get('trf') and not m.get('ts') and A['lib'] == 'msepy':
        opts += ['periodic']
    how = draw(S.sampled_from(opts))
    ax = draw(S.integers(0, d - 1))
    if how == 'bounds':
        m['bounds'][ax][1] += eps
    elif how == 'shift':
        m['bounds'][ax] = [x + eps for x in m['bounds'][ax]]
    elif how == 'scale':
        m['bounds'] = [[2 * x for x in b] for b in m['bounds']]
    elif how == 'c':
        m['c'] = m['c'] * (1 - eps)
    elif how in ('weights', 'nodes'):
        L = m['layout'] if how == 'weights' else A['degree']
        for w in L:
            if len(w) > 1:
                w[0] += eps * .1
                w[1] -= eps * .1
    elif how == 'periodic':
        m['periodic'] = not m.get('periodic')
        if m['periodic'] and not ok_periodic(m, d):
            m['periodic'] = False
    elif how == 'degree':
        if isinstance(A['degree'], int):
            A['degree'] = A['degree'] + 1 if d < 3 else 3 - A['degree'] if A['degree'] in (1, 2) else 1
        elif all(isinstance(_, int) for _ in A['degree']):
            A['degree'][ax] = A['degree'][ax] % 3 + 1
        elif draw(S.booleans()):
            A['degree'] = [len(_) for _ in A['degree']]
        else:
            A['degree'] = [[1 / len(_)] * len(_) for _ in A['degree']]
    return A


def ok_periodic(m, d):
    L = m['layout']
    if isinstance(L, int):
        return L >= 2
    if not isinstance(L, list):
        return False
    return all((x if isinstance(x, int) else len(x)) >= 2 for x in L)


def alone(case):
    W = World(case['B'])
    return [W.answer(q) for q in case['q']]


def mixed(case):
    worlds = []
    r = np.random.default_rng(case['perm'])
    for i, a in enumerate(case['before']):
        W = World(a['spec'])
        first = [(q, W.answer(q)) for q in r.permutation(np.array(case['q'], dtype=object))]
        worlds.append((W, first) if a['keep'] else None)
        del W
    W = World(case['B'])
    order = r.permutation(len(case['q']))
    out = [None] * len(order)
    for i in order:
        out[i] = W.answer(case['q'][i])
    again = [W.answer(q) for q in case['q']]
    back = []
    for w in worlds:
        # (another embedding dimension is a new start: what was made before is not to be used any more)
        if w is not None and all(a['spec']['dim'] == case['B']['dim'] for a in case['before']):
            for q, a in w[1]:
                if q['w'] == 'next':
                    continue        # (makes an abstract form in the current session)
                b = w[0].answer(q)
                d = differ(a, b)
                if d:
                    back.append((q, d))
    return out, again, back


def prop(case):
    boot.phyem()
    a = isolated(alone, case)
    b, again, back = isolated(mixed, case)
    for q, x, y in zip(case['q'], a, b):
        d = differ(y, x)
        require(d is None, f'query {q} answers differently after other work in the process: {d}')
    for q, x, y in zip(case['q'], b, again):
        d = differ(y, x)
        require(d is None, f'query {q} answers differently when asked again: {d}')
    for q, d in back:
        require(False, f'query {q} on an earlier discretization answers differently after later work: {d}')
    n = sum(not isinstance(x, str) for x in a)
    return {'nontrivial': n >= 2, 'labels': fe.labels(case['B']) + ['q:' + q['w'] for q, x in zip(case['q'], a) if not isinstance(x, str)] +
            ['raised:' + q['w'] + (':' + x[7:]) for q, x in zip(case['q'], a) if isinstance(x, str)]}


SUBS = [Sub('history', s_case, prop, quick=400, thorough=20000, rule='at least two queries answered by arrays')]
