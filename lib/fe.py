"""Building finite element problems from JSON specs, uniformly for the two implementations.

A spec:  {'lib': 'msepy'|'msehtt', 'dim': 1|2|3, 'mesh': {'type':.., ...}, 'degree': int | [..]}
A space key is (k, o) with o in 'outer', 'inner'.
"""
import itertools

import numpy as np

from lib import boot
from lib.core import HarnessError, Violation

O, I = 'outer', 'inner'


# ------------------------------------------------------------------------------------------- building
def space_keys(dim):
    return [(k, o) for k in range(dim + 1) for o in (O, I)]


def parse_degree(deg):
    if isinstance(deg, list):
        return tuple(tuple(_) if isinstance(_, list) else _ for _ in deg)
    return deg


def degree_p(spec):
    """The polynomial degree per axis."""
    d = parse_degree(spec['degree'])
    if isinstance(d, int):
        return (d,) * spec['dim']
    return tuple(x if isinstance(x, int) else len(x) for x in d)


def axis_degrees(spec):
    d = parse_degree(spec['degree'])
    return (d,) * spec['dim'] if isinstance(d, int) else d


def region_positions(m, dim):
    """The documented place of every region in the grid of regions."""
    if m['type'] == 'crazy_multi':
        n = int(np.prod(m['Ns']))
        return [tuple(int(_) for _ in np.unravel_index(r, m['Ns'], order='F')) for r in range(n)]
    if m['type'] == 'backward_step':
        return [(i, j) + (0,) * (dim - 2) for i, j in ((1, 0), (1, 1), (0, 1))]
    return [(0,) * dim]


def layout_of(m, dim):
    """The element layout as the code takes it; {'rows': [[layout, ..] per axis]} is one per row of regions."""
    lay = m['layout']
    if isinstance(lay, dict) and 'rows' in lay:
        return {r: [lay['rows'][a][i] for a, i in enumerate(ps)] for r, ps in enumerate(region_positions(m, dim))}
    if isinstance(lay, dict):
        return {int(k): v for k, v in lay.items()}
    return lay


class Disc:
    """A discretization: mesh + all spaces of forms."""

    def __init__(self, spec, keys=None, reset=True, suffix='', make_abstract=None, between=None, great=None):
        ph = boot.phyem()
        self.spec = spec
        self._great = great          # called with self instead of the configuration of the great mesh (msehtt)
        self._between = between      # called with self between the configurations of the manifold and the mesh (msepy)
        self.lib = spec['lib']
        self.dim = dim = spec['dim']
        m = spec['mesh']
        periodic = bool(m.get('periodic', False)) and m['type'] != 'backward_step'    # (fully periodic)
        if reset:
            ph.config.set_embedding_space_dim(dim)
        self.abstract_manifold = man = ph.manifold(dim, periodic=periodic)
        self.abstract_mesh = mesh = ph.mesh(man)
        ph.space.set_mesh(mesh)
        self.abs_forms = {}
        keys = space_keys(dim) if keys is None else keys
        for k, o in keys:
            sp = ph.space.new('Lambda', k, orientation=o)
            self.abs_forms[(k, o)] = sp.make_form(f'f{k}{o}{suffix}', f'lin-f{k}{o}{suffix}')
        extra = {}
        if make_abstract is not None:
            extra = make_abstract(self) or {}
        ph.space.finite(parse_degree(spec['degree']))
        objs_in = dict(man=man, mesh=mesh)
        objs_in.update(extra)
        self.impl, self.objs = ph.fem.apply(self.lib, objs_in)
        if self.lib == 'msepy':
            self._config_msepy(m)
        else:
            self._config_msehtt(m)
        self.mesh = self.objs['mesh']
        self.forms = {key: self.impl.base['forms'][f'lin-f{key[0]}{key[1]}{suffix}'] for key in keys}

    # -- meshes ------------------------------------------------------------------------------------
    def _config_msepy(self, m):
        kw = {k: v for k, v in m.items() if k not in ('type', 'layout')}
        self.impl.config(self.objs['man'])(m['type'], **kw)
        if self._between is not None:
            self._between(self)
        self.impl.config(self.objs['mesh'])(layout_of(m, self.dim))

    def _config_msehtt(self, m):
        self.tgm = self.impl.tgm()
        if self._great is not None:
            self._great(self)
            self.impl.config(self.objs['mesh'])(self.tgm, including='all')
            return
        kw = {k: v for k, v in m.items() if k not in ('type', 'layout')}
        if m['type'] in ('backward_step', 'cylinder_channel', 'quad', 'rectangle', 'meshpy', 'chaotic'):
            kw.pop('periodic', None)
        if m['type'] == 'chaotic':
            kw['periodic'] = bool(m.get('periodic', False))
        if 'layout' in m:
            kw['element_layout'] = layout_of(m, self.dim)
        if m['type'] == 'meshpy':
            kw['points'] = tuple(tuple(_) for _ in kw['points'])
        if m['type'] == 'data':
            args, kw = self._mesh_data(m)
            self.impl.config(self.tgm)(*args, **kw)
        else:
            self.impl.config(self.tgm)(m['type'], **kw)
        self.impl.config(self.objs['mesh'])(self.tgm, including='all')

    @staticmethod
    def _mesh_data(m):
        """A mesh given by its nodes and cells, in one of the ways a great mesh can be given data."""
        from mpi4py import MPI
        how = m['how']
        nodes = {n: tuple(c) for n, c in m['nodes']}
        types = {e: t for e, t, _ in m['cells']}
        maps = {e: list(v) for e, _, v in m['cells']}
        kw = {k: m[k] for k in ('ts', 'renumbering') if m.get(k)}
        if how.startswith('tqr'):
            from phyem.msehtt.static.mesh.great.config.tqr import TriQuadRegions
            kw['element_layout'] = m.get('factor', 0)
            if how == 'tqr':
                return (TriQuadRegions(types, nodes, maps),), kw
            if how == 'tqr-list':
                return (['tqr', types, nodes, maps],), kw
            return ({'indicator': 'tqr', 'args': [types, nodes, maps]},), kw
        if how == 'vtu':
            from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
            return (MseHttVtuInterface(nodes, maps, types, redistribute=m.get('redistribute')),), kw
        para = {e: [nodes[n] for n in maps[e]] for e in maps}
        if MPI.COMM_WORLD.Get_rank():       # (asserted: all information on the master)
            types = maps = para = None
        return ({'element_type_dict': types, 'element_map_dict': maps, 'element_parameter_dict': para},), dict(kw, element_layout=m.get('factor', 0))

    # -- elements ----------------------------------------------------------------------------------
    @property
    def elements(self):
        if self.lib == 'msepy':
            return list(range(len(self.mesh.elements)))
        return sorted(e for e in self.mesh.composition)

    def element(self, e):
        return self.mesh.elements[e] if self.lib == 'msepy' else self.mesh.composition[e]

    def etype(self, e):
        """'box' for tensor elements, 'tri' for collapsed triangles."""
        if self.lib == 'msepy':
            return 'box'
        et = self.element(e).etype
        return 'tri' if et == 5 or 'triangle' in str(et) else 'box'

    def map(self, e, *xi):
        r = self.element(e).ct.mapping(*xi)
        if self.dim == 1 and not isinstance(r, (list, tuple)):
            r = [r]
        return [np.broadcast_to(np.asarray(_, dtype=float), np.shape(xi[0])) for _ in r]

    def jac_fd(self, e, *xi, h=None):
        """The Jacobian matrix of the mapping through an 8th-order central difference; shape (d, d, *pts)."""
        d = self.dim
        if h is None:
            h = 2e-3
        c = [4 / 5, -1 / 5, 4 / 105, -1 / 280]
        xi = [np.asarray(_, dtype=float) for _ in xi]
        J = np.zeros((d, d) + xi[0].shape)
        for j in range(d):
            for n, w in enumerate(c, 1):
                p = [x + n * h * (jj == j) for jj, x in enumerate(xi)]
                q = [x - n * h * (jj == j) for jj, x in enumerate(xi)]
                P, Q = self.map(e, *p), self.map(e, *q)
                for i in range(d):
                    J[i, j] += w * (P[i] - Q[i]) / h
        return J

    # -- spaces ------------------------------------------------------------------------------------
    def px(self, e=None):
        """The degree per axis (uniform)."""
        return degree_p(self.spec)

    def nodes(self):
        """The nodes (in [-1, 1]) per axis."""
        d = parse_degree(self.spec['degree'])
        if isinstance(d, int):
            d = (d,) * self.dim
        out = []
        for x in d:
            if isinstance(x, int):
                out.append(lobatto(x))
            else:
                w = np.array(x, dtype=float)
                out.append(np.concatenate([[0.], np.cumsum(w)]) / np.sum(w) * 2 - 1)
        return out

    def n_local(self, key, e=None):
        return len(self.dof_boxes(key, 'box' if e is None else self.etype(e)))

    def dof_boxes(self, key, etype='box'):
        """For every local dof: (component, tuple of per-axis (kind, index)); kind 'e' edge / 'n' node."""
        k, o = key
        p = self.px()
        d = self.dim
        out = []
        for comp, axes in enumerate(form_components(d, k, o)):
            rng = []
            for ax in range(d):
                rng.append([('e', i) for i in range(p[ax])] if ax in axes else
                           [('n', i) for i in range(p[ax] + 1)])
            if etype == 'tri':
                # axis 0 node 0 is collapsed
                if 0 not in axes:
                    rng[0] = rng[0][1:]
                    if k == 0:
                        out.append((comp, (('n', 0), ('n', 0))))
            cells = [tuple(reversed(c)) for c in itertools.product(*reversed(rng))]
            out += [(comp, c) for c in cells]
        return out

    def E(self, key, e=None):
        f = self.forms[key]
        if self.lib == 'msepy':
            return f.space.incidence_matrix(f.degree).toarray()
        return f.space.incidence_matrix(f.degree)[0][e].toarray()

    def M(self, key, e):
        f = self.forms[key]
        if self.lib == 'msepy':
            M = f.space.mass_matrix(f.degree)
            r = M(e) if callable(M) and not hasattr(M, 'toarray') else M[e]
        else:
            r = f.space.mass_matrix(f.degree)[0][e]
        return r.toarray()

    def gm(self, key):
        """{element: array of global numbers}, number of global dofs"""
        g = self.forms[key].cochain.gathering_matrix
        if self.lib == 'msepy':
            a = np.array(g._gm)
            return {e: a[e] for e in range(a.shape[0])}, int(g.num_dofs)
        return {e: np.array(g[e]) for e in self.elements}, int(g.num_global_dofs)

    def boundary_reversed(self, e, key):
        """Local dofs whose local direction is reversed to the global one (vtu elements)."""
        return None

    # -- cochains ----------------------------------------------------------------------------------
    def set_cochain(self, key, t, vecs, form=None):
        f = self.forms[key] if form is None else form
        if self.lib == 'msepy':
            f[t].cochain = np.array([vecs[e] for e in self.elements], dtype=float)
        else:
            f[t].cochain = {e: np.array(vecs[e], dtype=float) for e in self.elements}

    def get_cochain(self, key, t, form=None):
        f = self.forms[key] if form is None else form
        if self.lib == 'msepy':
            a = f[t].cochain.local
            return {e: np.array(a[e]) for e in self.elements}
        c = f[t].cochain
        return {e: np.array(c[e]) for e in self.elements}

    def set_cf(self, key, field, form=None):
        f = self.forms[key] if form is None else form
        f.cf = field.vc(self.dim, key)

    def reduce(self, key, field, t=0):
        self.set_cf(key, field)
        self.forms[key][t].reduce()
        return self.get_cochain(key, t)

    def recon(self, key, t, *xi, form=None):
        """{e: (list of x arrays, list of component arrays)} on the tensor grid of 1d arrays xi."""
        f = self.forms[key] if form is None else form
        xyz, v = f[t].reconstruct(*[np.array(_, dtype=float) for _ in xi])
        out = {}
        for e in self.elements:
            out[e] = ([np.asarray(c[e]) for c in xyz], [np.asarray(c[e]) for c in v])
        return out


def form_components(d, k, o):
    """For each component of a k-form in d dimensions: the axes along which it is integrated."""
    if k == 0:
        return [()]
    if k == d:
        return [tuple(range(d))]
    if d == 2:
        return [(0,), (1,)] if o == I else [(1,), (0,)]
    if k == 1:
        return [(0,), (1,), (2,)]
    return [(1, 2), (2, 0), (0, 1)]


def n_components(d, k):
    return 1 if k in (0, d) else d


# ------------------------------------------------------------------------------------- own quadrature
_lob = {}


def lobatto(p):
    if p not in _lob:
        L = np.polynomial.legendre.Legendre.basis(p)
        r = np.sort(np.real(L.deriv().roots())) if p > 1 else np.array([])
        _lob[p] = np.concatenate([[-1.], r, [1.]])
    return _lob[p]


def lobatto_quad(p):
    x = lobatto(p)
    L = np.polynomial.legendre.Legendre.basis(p)
    return x, 2 / (p * (p + 1) * L(x) ** 2)


_gau = {}


def gauss(n):
    if n not in _gau:
        _gau[n] = np.polynomial.legendre.leggauss(n)
    return _gau[n]


# ---------------------------------------------------------------------------------------------- fields
def _closure(F, i, dim):
    if dim == 1:
        return lambda t, x: F.ev(i, t, x)
    if dim == 2:
        return lambda t, x, y: F.ev(i, t, x, y)
    return lambda t, x, y, z: F.ev(i, t, x, y, z)


class Field:
    """A scalar or vector field of (t, x, ...): components are sums of smooth terms with analytic derivatives.

    JSON: {'comps': [[term, ...], ...]}, term = ['c', a, kx, ky, .., om, ph]  -> a cos(k.x + om t + ph)
                                              = ['p', a, ex, ey, .., et]      -> a x^ex y^ey .. t^et
    """

    def __init__(self, comps, dim):
        self.comps, self.dim = comps, dim

    def ev(self, i, t, *x):
        s = 0. * x[0]
        for tm in self.comps[i]:
            a = tm[1]
            if tm[0] == 'c':
                ph = tm[2 + self.dim] * t + tm[3 + self.dim]
                for j in range(self.dim):
                    ph = ph + tm[2 + j] * x[j]
                s = s + a * np.cos(ph)
            else:
                v = a * t ** tm[2 + self.dim] if tm[2 + self.dim] else a
                for j in range(self.dim):
                    if tm[2 + j]:
                        v = v * x[j] ** tm[2 + j]
                s = s + v
        return s

    def fn(self, i):
        return lambda t, *x: self.ev(i, t, *x)

    def vc(self, dim, key):
        ph = boot.phyem()
        k = key[0]
        n = n_components(dim, k)
        assert n == len(self.comps)
        fs = []
        for i in range(n):
            fs.append(_closure(self, i, dim))
        if n == 1:
            return ph.vc.scalar(fs[0])
        return ph.vc.vector(*fs)

    def diff(self, i, ax):
        """The terms of d(comp i)/d(x_ax); ax == 't' for time."""
        d = self.dim
        out = []
        for tm in self.comps[i]:
            if tm[0] == 'c':
                k = tm[2 + (d if ax == 't' else ax)]
                n = list(tm)
                n[1] = tm[1] * k
                n[3 + d] = tm[3 + d] + np.pi / 2    # d cos(p) = -sin(p) p' = cos(p + pi/2) p'
                if k != 0:
                    out.append(n)
            else:
                j = 2 + (d if ax == 't' else ax)
                if tm[j]:
                    n = list(tm)
                    n[1] = tm[1] * tm[j]
                    n[j] = tm[j] - 1
                    out.append(n)
        return out

    def ext_d(self, key):
        """The exterior derivative as a Field (vector-proxy conventions of the de Rham complexes)."""
        k, o = key
        d = self.dim
        neg = lambda terms: [[t[0], -t[1]] + list(t[2:]) for t in terms]  # noqa
        D = self.diff
        if d == 1:
            return Field([D(0, 0)], d)
        if d == 2:
            if k == 0:
                return Field([D(0, 0), D(0, 1)] if o == I else [D(0, 1), neg(D(0, 0))], d)
            if k == 1:
                return Field([D(1, 0) + neg(D(0, 1))] if o == I else [D(0, 0) + D(1, 1)], d)
        if d == 3:
            if k == 0:
                return Field([D(0, 0), D(0, 1), D(0, 2)], d)
            if k == 1:
                return Field([D(2, 1) + neg(D(1, 2)), D(0, 2) + neg(D(2, 0)), D(1, 0) + neg(D(0, 1))], d)
            if k == 2:
                return Field([D(0, 0) + D(1, 1) + D(2, 2)], d)
        raise HarnessError((d, key))


def extent(D):
    """The largest coordinate extent of the domain."""
    g = np.meshgrid(*[np.array([-1., 1.])] * D.dim, indexing='ij')
    X = [D.map(e, *g) for e in D.elements]
    return max(max(float(np.max(x[a])) for x in X) - min(float(np.min(x[a])) for x in X) for a in range(D.dim))


def tame(D, comps, size=3.):
    """The wave numbers of the cosine terms, scaled down on large domains (no more than a wave or so per domain)."""
    f = min(1., size / extent(D))
    return [[[tm[0], tm[1]] + [k * f for k in tm[2:2 + D.dim]] + list(tm[2 + D.dim:]) if tm[0] == 'c' else tm
             for tm in c] for c in comps]


# ------------------------------------------------------------------------------------- pullbacks
def pullback(dim, key, J, v):
    """Reference components (one per form_components entry) of the pullback of the field values v (list).

    J: (d, d, *pts). Returns a list of arrays.
    """
    k, o = key
    if k == 0:
        return [v[0]]
    if dim == 1:
        return [v[0] * J[0, 0]]
    det = det_(J)
    if k == dim:
        return [v[0] * det]
    if k == 1 and (dim == 3 or o == I):
        return [sum(J[i, j] * v[i] for i in range(dim)) for j in range(dim)]
    # flux-like: det * J^{-1} v
    iJ = inv_(J)
    return [det * sum(iJ[j, i] * v[i] for i in range(dim)) for j in range(dim)]


def pushforward(dim, key, J, r):
    """The inverse of pullback."""
    k, o = key
    if k == 0:
        return [r[0]]
    if dim == 1:
        return [r[0] / J[0, 0]]
    det = det_(J)
    if k == dim:
        return [r[0] / det]
    if k == 1 and (dim == 3 or o == I):
        iJ = inv_(J)
        return [sum(iJ[j, i] * r[j] for j in range(dim)) for i in range(dim)]
    return [sum(J[i, j] * r[j] for j in range(dim)) / det for i in range(dim)]


def det_(J):
    d = J.shape[0]
    if d == 1:
        return J[0, 0]
    if d == 2:
        return J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
    return (J[0, 0] * (J[1, 1] * J[2, 2] - J[1, 2] * J[2, 1]) - J[0, 1] * (J[1, 0] * J[2, 2] - J[1, 2] * J[2, 0])
            + J[0, 2] * (J[1, 0] * J[2, 1] - J[1, 1] * J[2, 0]))


def inv_(J):
    return np.moveaxis(np.linalg.inv(np.moveaxis(J, (0, 1), (-2, -1))), (-2, -1), (0, 1))


def cell_points(nodes, cell, n):
    """The quadrature points and weights of a (sub-)cell: per axis an edge (Gauss-n) or a node (a point).

    Returns a list of 1d arrays per axis and a list of 1d weights per axis.
    """
    q, w = gauss(n)
    X, W = [], []
    for ax, (kind, i) in enumerate(cell):
        if kind == 'e':
            a, b = nodes[ax][i], nodes[ax][i + 1]
            X.append((a + b) / 2 + (b - a) / 2 * q)
            W.append(w * (b - a) / 2)
        else:
            X.append(np.array([nodes[ax][i]]))
            W.append(np.array([1.]))
    return X, W


def integrate_dof(D, e, key, dof, field, t, n):
    """The integral of a field over the geometric object of a local dof (in the local direction)."""
    comp, cell = dof
    X, W = cell_points(D.nodes(), cell, n)
    G = np.meshgrid(*X, indexing='ij')
    Wt = W[0]
    for w in W[1:]:
        Wt = np.multiply.outer(Wt, w)
    x = D.map(e, *G)
    v = [field.ev(i, t, *x) for i in range(len(field.comps))]
    if key[0] == 0:
        return float(np.sum(v[0] * Wt))
    J = D.jac_fd(e, *G)
    return float(np.sum(pullback(D.dim, key, J, v)[comp] * Wt))


# --------------------------------------------------------------------------------------- strategies
def st():
    from hypothesis import strategies
    return strategies


def s_num(lo, hi, dec=3):
    """A short decimal number in [lo, hi]."""
    S = st()
    f = 10 ** dec
    return S.integers(int(round(lo * f)), int(round(hi * f))).map(lambda n: n / f)


def s_interval(scale=True):
    S = st()
    sc = S.sampled_from([1., 1., 1., 3., 0.1, 0.001, 40.]) if scale else S.just(1.)
    return S.tuples(s_num(-2, 2, 2), s_num(0.3, 2, 2), sc).map(
        lambda a: [round(a[0] * a[2], 9), round((a[0] + a[1]) * a[2], 9)])


def s_weights(n):
    S = st()
    return S.lists(S.integers(1, 6), min_size=n, max_size=n).map(lambda w: _norm(w))


def _norm(w):
    s = sum(w)
    r = [x / s for x in w]
    r[-1] = 1 - sum(r[:-1])
    return r


def s_layout(dim, maxn, minn=1, weights=True):
    """An element layout of the structured meshes: an int, a list of ints, or a list of lists of weights."""
    S = st()
    ax = S.integers(minn, maxn)
    opts = [ax, S.lists(ax, min_size=dim, max_size=dim)]
    if weights:
        opts.append(S.lists(ax.flatmap(s_weights), min_size=dim, max_size=dim))
    return S.one_of(*opts)


def s_rows(m, dim, maxn, minn=1):
    """Another layout in every row of regions."""
    S = st()
    n = np.max(np.array(region_positions(m, dim)), axis=0) + 1
    ax = S.integers(minn, maxn).flatmap(lambda k: S.one_of(S.just(k), s_weights(k)))
    return S.tuples(*[S.lists(ax, min_size=int(k), max_size=int(k)) for k in n]).map(lambda r: {'rows': list(r)})


def s_degree(dim, maxp, custom=True, minp=1):
    S = st()
    ax = S.integers(minp, maxp)
    opts = [ax, S.lists(ax, min_size=dim, max_size=dim)]
    if custom:   # custom nodes: the relative sizes of the cells along each axis
        opts.append(S.lists(ax.flatmap(s_weights), min_size=dim, max_size=dim))
    return S.one_of(*opts)


def s_field(dim, ncomp, kmax=2., poly=None, nterms=2, time=True):
    """poly: None -> cosines; an int -> polynomials of at most that degree per axis."""
    S = st()
    amp = s_num(-2, 2, 1).filter(lambda a: abs(a) > 0.05)
    if poly is None:
        om = s_num(-2, 2, 1) if time else S.just(0.)
        term = S.tuples(S.just('c'), amp, *[s_num(-kmax, kmax, 1)] * dim, om, s_num(0, 3, 1)).map(list)
    else:
        ex = S.integers(0, poly)
        term = S.tuples(S.just('p'), amp, *[ex] * dim, S.integers(0, 2) if time else S.just(0)).map(list)
    return S.lists(S.lists(term, min_size=1, max_size=nterms), min_size=ncomp, max_size=ncomp)


def s_time():
    S = st()
    return S.one_of(S.just(0), s_num(0, 3, 2))


def s_mesh_msepy(dim, maxn=3, periodic=(False, True), types=None, cmax=0.25):
    S = st()
    types = types or {1: ['crazy'], 2: ['crazy', 'crazy', 'crazy', 'crazy_multi', 'backward_step'],
                      3: ['crazy', 'crazy', 'backward_step', 'crazy_multi']}[dim]

    @S.composite
    def mk(draw):
        t = draw(S.sampled_from(types))
        if t == 'crazy':
            per = draw(S.sampled_from(list(periodic)))
            return {'type': t, 'c': draw(S.one_of(S.just(0.), s_num(0.01, cmax, 2))),
                    'bounds': [draw(s_interval()) for _ in range(dim)], 'periodic': per,
                    'layout': draw(s_layout(dim, maxn, minn=2 if per else 1))}
        if t == 'crazy_multi':
            ns = [draw(S.integers(1, 2)) for _ in range(dim)]
            per = draw(S.sampled_from(list(periodic)))
            m = {'type': t, 'c': draw(S.one_of(S.just(0.), s_num(0.01, cmax, 2))), 'Ns': ns,
                 'bounds': [draw(s_interval()) for _ in range(dim)], 'periodic': per,
                 'layout': 2 if per else draw(s_layout(dim, 2, weights=False))}
            if draw(S.integers(0, 2)) == 0:
                m['layout'] = draw(s_rows(m, dim, 2 if dim == 3 else 3, 2 if per else 1))
            return m
        if t == 'backward_step':
            m = {'type': t, 'layout': draw(s_layout(dim, 2, weights=True))}
            if draw(S.integers(0, 2)) == 0:
                m['layout'] = draw(s_rows(m, dim, 2))
            return m
        raise HarnessError(t)
    return mk()


def s_mesh_msehtt(dim, maxn=3, types=None, cmax=0.25, periodic=(False, True)):
    S = st()
    types = types or {2: ['crazy', 'crazy', 'trf', 'ts', 'ren', 'crazy_multi', 'backward_step', 'chaotic',
                          'quad', 'rectangle', 'meshpy', 'data', 'data-split'],
                      3: ['crazy', 'crazy0']}[dim]

    @S.composite
    def mk(draw):
        t = draw(S.sampled_from(types))
        bounds = [draw(s_interval(False)) for _ in range(dim)]
        c = draw(S.one_of(S.just(0.), s_num(0.01, cmax, 2)))
        if t in ('crazy', 'ren', 'crazy0'):
            per = draw(S.sampled_from(list(periodic)))
            if per:    # fewer than three layers of elements along a periodic axis are documented as unsafe
                lay = 3 if dim == 3 else draw(s_layout(dim, max(3, maxn), minn=3))
            else:
                lay = draw(s_layout(dim, maxn))
            m = {'type': 'crazy', 'c': 0. if t == 'crazy0' else c, 'bounds': bounds, 'periodic': per, 'layout': lay}
            if t == 'ren':
                m['renumbering'] = True
            return m
        if t == 'trf':
            return {'type': 'crazy', 'c': draw(s_num(0.01, cmax, 2)), 'bounds': bounds, 'periodic': False,
                    'layout': draw(s_layout(dim, max(1, maxn - 1))), 'trf': 1}
        if t == 'ts':
            return {'type': 'crazy', 'c': 0., 'bounds': bounds, 'periodic': False,
                    'layout': draw(s_layout(dim, max(1, maxn - 1))), 'ts': 1}
        if t == 'crazy_multi':
            m = {'type': t, 'c': c, 'Ns': [draw(S.integers(1, 2)) for _ in range(dim)], 'bounds': bounds,
                 'periodic': False, 'layout': draw(s_layout(dim, 2, weights=False))}
            if draw(S.integers(0, 2)) == 0:
                m['layout'] = draw(s_rows(m, dim, 2))
            return m
        if t == 'backward_step':
            m = {'type': t, 'layout': draw(s_layout(dim, 2))}
            if draw(S.integers(0, 2)) == 0:
                m['layout'] = draw(s_rows(m, dim, 2))
            return m
        if t in ('chaotic', 'chaotic_c'):
            return {'type': 'chaotic', 'c': 0 if t == 'chaotic' else draw(s_num(0.01, 0.1, 2)), 'layout': 1}
        if t == 'quad':
            j = lambda x, y: [round(x + draw(s_num(-.2, .2, 2)), 3), round(y + draw(s_num(-.2, .2, 2)), 3)]  # noqa
            return {'type': t, 'layout': draw(S.integers(1, maxn)),
                    'A': j(0, 0), 'B': j(1, 0), 'C': j(1, 1), 'D': j(0, 1)}
        if t == 'rectangle':
            return {'type': t, 'layout': draw(S.integers(1, maxn))}
        if t == 'meshpy':
            j = lambda x, y: [round(x + draw(s_num(-.2, .2, 2)), 3), round(y + draw(s_num(-.2, .2, 2)), 3)]  # noqa
            return {'type': t, 'ts': 1, 'points': [j(0, 0), j(1, 0), j(1, 1), j(0, 1)], 'max_volume': 0.3}
        if t in ('data', 'data-tri', 'data-quad', 'data-split'):
            return draw(s_data(dim, maxn, t))
        raise HarnessError(t)
    return mk()


def s_data(dim, maxn, t='data'):
    """Nodes and cells (vtk types 5 and 9) over a perturbed grid, cells rotated and numbered at random; data-split: then split into quads."""
    S = st()

    @S.composite
    def mk(draw):
        n = [draw(S.integers(1, min(maxn, 2 if t == 'data-split' else 3))) for _ in range(dim)]
        size = [draw(S.sampled_from([1., 1., .5, 2., 1.3])) for _ in range(dim)]
        at = [draw(S.sampled_from([0., 0., -1., .7])) for _ in range(dim)]
        straight = draw(S.integers(0, 3)) == 0
        grid = list(itertools.product(*[range(k + 1) for k in n]))
        names = draw(S.permutations(range(len(grid) + 3)))
        name = dict(zip(grid, names))
        nodes = []
        for g in grid:
            c = []
            for i in range(dim):
                x = g[i] + (0 if straight else draw(s_num(-.22, .22, 2)))
                c.append(at[i] + size[i] * x / n[i])
            nodes.append([name[g], c])
        cells = []
        for g in itertools.product(*[range(k) for k in n]):
            a, b, c, d = [name[(g[0] + i, g[1] + j)] for i, j in ((0, 0), (1, 0), (1, 1), (0, 1))]      # counterclockwise
            kind = {'data-tri': 'tri', 'data-quad': 'quad'}.get(t) or draw(S.sampled_from(['tri', 'quad']))
            r = draw(S.integers(0, 3))
            if kind == 'quad':
                q = [a, b, c, d]
                cells.append([9, q[r:] + q[:r]])
            else:
                for tri in ([[a, b, c], [a, c, d]] if r % 2 else [[a, b, d], [b, c, d]]):
                    s = draw(S.integers(0, 2))
                    cells.append([5, tri[s:] + tri[:s]])
        cells = draw(S.permutations(cells))
        ids = draw(S.sampled_from([list(range(len(cells))), list(range(10, 10 + len(cells))), [f'c{i}' for i in range(len(cells))]]))
        out = {'type': 'data', 'nodes': nodes, 'cells': [[e, c[0], c[1]] for e, c in zip(ids, cells)],
               'how': draw(S.sampled_from(['vtu', 'vtu', 'tqr', 'tqr-list', 'tqr-dict'] + (['dict'] if all(c[0] == 9 for c in cells) else [])))}
        if t == 'data-split':
            if out['how'] in ('vtu', 'dict') or draw(S.booleans()):
                out['ts'] = 1
            else:
                out['factor'] = 1
        if draw(S.integers(0, 3)) == 0:
            out['renumbering'] = True
        return out
    return mk()


def s_spec(libs=('msepy', 'msehtt'), dims=(1, 2, 3), maxp=(5, 4, 2), maxn=(5, 3, 2), types=None, periodic=(False, True),
           cmax=0.25, custom=True):
    """types: {'msepy': [...], 'msehtt': [...]} or None"""
    S = st()

    @S.composite
    def mk(draw):
        lib = draw(S.sampled_from(list(libs)))
        ds = [d for d in dims if not (lib == 'msehtt' and d == 1)]
        d = draw(S.sampled_from(ds))
        ty = None if types is None else types.get((lib, d), types.get(lib))
        if lib == 'msepy':
            m = draw(s_mesh_msepy(d, maxn[d - 1], periodic=periodic, types=ty, cmax=cmax))
        else:
            m = draw(s_mesh_msehtt(d, maxn[d - 1], periodic=periodic, types=ty, cmax=cmax))
        if lib == 'msehtt' and (m['type'] in ('chaotic', 'meshpy', 'quad', 'rectangle', 'data') or m.get('trf') or m.get('ts')):
            deg = draw(S.integers(1, maxp[d - 1]))   # elements of any relative orientation: one degree
        else:
            deg = draw(s_degree(d, maxp[d - 1], custom=lib == 'msehtt' and custom))
        return {'lib': lib, 'dim': d, 'mesh': m, 'degree': deg}
    return mk()


def labels(spec):
    m = spec['mesh']
    t = m['type'] + ('-c' if m.get('c') else '') + ('-per' if m.get('periodic') else '')
    for x in ('trf', 'ts', 'renumbering'):
        if m.get(x):
            t += '-' + x
    return [f"{spec['lib']}{spec['dim']}d", f"{spec['lib']}:{t}"]


def rng_cochains(D, key, seed):
    """Random global dofs -> conforming local cochains."""
    r = np.random.default_rng(seed)
    gm, n = D.gm(key)
    g = r.uniform(-1, 1, n)
    return {e: g[gm[e]] for e in D.elements}, g


# ------------------------------------------------------------------------------- own basis functions
def lagrange(nodes, x):
    n = len(nodes)
    x = np.asarray(x, dtype=float)
    L = np.ones((n, len(x)))
    for i in range(n):
        for j in range(n):
            if i != j:
                L[i] *= (x - nodes[j]) / (nodes[i] - nodes[j])
    return L


def dlagrange(nodes, x):
    n = len(nodes)
    x = np.asarray(x, dtype=float)
    D = np.zeros((n, len(x)))
    for i in range(n):
        for m in range(n):
            if m == i:
                continue
            t = np.ones_like(x) / (nodes[i] - nodes[m])
            for j in range(n):
                if j not in (i, m):
                    t *= (x - nodes[j]) / (nodes[i] - nodes[j])
            D[i] += t
    return D


def edge_basis(nodes, x):
    """e_i = - sum_{k <= i} L_k': the integral over [node_j, node_{j+1}] is delta_ij."""
    return -np.cumsum(dlagrange(nodes, x), axis=0)[:-1]


def ref_basis(D, key, X, etype='box'):
    """The reference basis of every local dof on the tensor grid of 1d arrays X: [(component, array)]."""
    N = D.nodes()
    nb = [lagrange(N[a], X[a]) for a in range(D.dim)]
    eb = [edge_basis(N[a], X[a]) for a in range(D.dim)]
    out = []
    for comp, cell in D.dof_boxes(key, etype):
        if etype == 'tri' and key[0] == 0 and cell == (('n', 0), ('n', 0)):
            v = np.multiply.outer(nb[0][0], np.ones(len(X[1])))
        else:
            v = None
            for a, (kind, i) in enumerate(cell):
                f = nb[a][i] if kind == 'n' else eb[a][i]
                v = f if v is None else np.multiply.outer(v, f)
        out.append((comp, v))
    return out


def phys_basis(D, key, e, X):
    """The physical basis: array (ndof, ncomp, *grid), and det J on the grid, and the coordinates."""
    G = np.meshgrid(*X, indexing='ij')
    J = D.jac_fd(e, *G)
    rb = ref_basis(D, key, X, D.etype(e))
    nc = n_components(D.dim, key[0])
    out = np.zeros((len(rb), nc) + G[0].shape)
    for i, (comp, v) in enumerate(rb):
        r = [np.zeros_like(G[0]) for _ in range(nc)]
        r[comp] = v
        for c, w in enumerate(pushforward(D.dim, key, J, r)):
            out[i, c] = w
    return out, det_(J), D.map(e, *G)


def quad_grid(D, n):
    """n: the number of points, of all axes or of each."""
    n = list(n) if isinstance(n, (list, tuple)) else [n] * D.dim
    Q, W = [], np.array(1.)
    for m in n:
        q, w = gauss(m)
        Q.append(q)
        W = np.multiply.outer(W, w)
    return Q, W


def exact_mass(D, key, e, n):
    X, W = quad_grid(D, n)
    b, det, _ = phys_basis(D, key, e, X)
    wd = (W * det).ravel()
    b = b.reshape(b.shape[0], b.shape[1], -1)
    return np.einsum('icm,jcm,m->ij', b, b, wd, optimize=True)


def dof_signs(D, key, elements, seed=0):
    """{e: +-1 per local dof}: the direction of the code's local dofs relative to the reference directions.

    Always + for structured meshes.  On the elements of unstructured meshes (a dof on an element face may be
    directed globally), they are read off from reducing random fields.
    """
    out = {}
    k, o = key
    if not flippable(D) or k in (0, D.dim):
        return {e: np.ones(D.n_local(key, e)) for e in elements}
    r = np.random.default_rng(seed + 7)
    best = {e: np.zeros(D.n_local(key, e)) for e in elements}
    val = {e: np.zeros(D.n_local(key, e)) for e in elements}
    nc = n_components(D.dim, k)
    for _ in range(3):
        F = Field([[['c', 1.] + list(r.uniform(-1, 1, D.dim)) + [0., r.uniform(0, 3)]] for _ in range(nc)], D.dim)
        c = D.reduce(key, F, 0)
        for e in elements:
            dofs = D.dof_boxes(key, D.etype(e))
            for i, dof in enumerate(dofs):
                I_ = integrate_dof(D, e, key, dof, F, 0, 8)
                if abs(I_) > best[e][i]:
                    best[e][i] = abs(I_)
                    val[e][i] = c[e][i] / I_
    for e in elements:
        s = np.where(val[e] > 0, 1., -1.)
        if np.max(np.abs(val[e] - s)) > 0.3:
            i = int(np.argmax(np.abs(val[e] - s)))
            raise Violation(f'reduce of {key} on element {e}: dof {i} is {val[e][i]:.4f} times the integral of the '
                            f'field over its geometric object')
        out[e] = s
    return out


def flippable(D):
    m = D.spec['mesh']
    return D.lib == 'msehtt' and bool(m['type'] in ('chaotic', 'meshpy', 'quad', 'rectangle', 'cylinder_channel', 'data') or
                                      m.get('trf') or m.get('ts'))
