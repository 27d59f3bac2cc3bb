"""C20: quadrature rules and one-dimensional basis functions do what their definitions say, for all degrees, nodes and points."""
import numpy as np
from numpy.polynomial import legendre as L

from lib import boot
from lib.core import Sub, require, close
from lib import fe

ASSUMPTIONS = ['Degrees up to 40 for quadrature; basis functions on Lobatto nodes up to degree 14, on custom nodes up to degree 7.']


# ---------------------------------------------------------------------------------- quadrature
def exactness(cat, p):
    return 2 * p + 1 if cat == 'Gauss' else 2 * p - 1


def check_1d(cat, p, x, w, what):
    x, w = np.asarray(x), np.asarray(w)
    require(x.shape == (p + 1,) == w.shape, f'{what}: {x.shape} nodes, {w.shape} weights')
    require((np.diff(x) > 0).all(), f'{what}: nodes are not increasing')
    require((w > 0).all(), f'{what}: weights are not positive')
    if cat == 'Lobatto':
        require(x[0] == -1 and x[-1] == 1, f'{what}: end nodes {x[0]}, {x[-1]}')
    else:
        require(x[0] > -1 and x[-1] < 1, f'{what}: end nodes {x[0]}, {x[-1]}')
    V = L.legvander(x, exactness(cat, p))
    got = w @ V
    ref = np.zeros(V.shape[1])
    ref[0] = 2
    close(got, ref, f'{what}: integrals of the Legendre polynomials', rtol=0, atol=5e-13)
    # (exact up to this degree with p + 1 nodes and the end nodes given: the rule is unique)


def s_quad():
    S = fe.st()
    one = S.fixed_dictionaries({'p': S.integers(1, 12) | S.integers(1, 40), 'c': S.sampled_from(['Gauss', 'Lobatto'])})
    nd = S.lists(S.fixed_dictionaries({'p': S.integers(1, 6), 'c': S.sampled_from(['Gauss', 'Lobatto'])}), min_size=2, max_size=3)
    req = S.fixed_dictionaries({'q': one | nd, 'fn': S.booleans(), 'one_cat': S.booleans(), 's': S.integers(0, 99)})
    return S.lists(req, min_size=1, max_size=6)


def p_quad(case):
    boot.phyem()
    from phyem.tools.quadrature import Quadrature, quadrature
    labels = set()
    for r in case:
        q = r['q']
        if isinstance(q, dict):
            p, c = q['p'], q['c']
            Q = (quadrature if r['fn'] else Quadrature)(p, c)
            x, w = Q.quad
            what = f'{c} of degree {p}'
            check_1d(c, p, x, w, what)
            for y, n in ((Q.quad_nodes, x), (Q.quad_weights_ravel, w), (Q.quad_ndim[0], x), (Q.quad_ndim[1], w),
                         (Q.quad_ndim_ravel[0], x), (Q.quad_ndim_ravel[1], w)):
                require(np.array_equal(y, n), f'{what}: views of the rule differ')
            labels.add(f'1d:{c}')
            continue
        p, c = tuple(a['p'] for a in q), [a['c'] for a in q]
        if r['one_cat']:
            c = [c[0]] * len(c)
        if r['fn']:
            Q = quadrature(p, c[0] if r['one_cat'] else tuple(c))
        else:
            Q = Quadrature(p, category=c[0] if r['one_cat'] else c)
        what = f'{c} of degrees {p}'
        d = len(p)
        for i in range(d):
            check_1d(c[i], p[i], Q.quad[0][i], Q.quad[1][i], f'{what}, axis {i}')
        *X, W = Q.quad_ndim
        *xs, ws = Q.quad_ndim_ravel
        require(len(X) == len(xs) == d, f'{what}: coordinates {len(X)}, {len(xs)}')
        G = np.meshgrid(*Q.quad[0], indexing='ij')
        T = Q.quad[1][0]
        for b in Q.quad[1][1:]:
            T = T[..., None] * b
        close(W, T, f'{what}: weights of the product rule', rtol=1e-14)
        for i in range(d):
            require(np.array_equal(X[i], G[i]), f'{what}: nodes of the product rule')
            require(np.array_equal(xs[i], G[i].ravel('F')), f'{what}: raveled nodes of the product rule')
        close(ws, T.ravel('F'), f'{what}: raveled weights', rtol=1e-14)
        close(Q.quad_weights_ravel, T.ravel('F'), f'{what}: quad_weights_ravel', rtol=1e-14)
        # a random polynomial of the degrees for which the product rule is exact
        g = np.random.default_rng(r['s'])
        C = g.uniform(-1, 1, [exactness(b, a) + 1 for a, b in zip(p, c)])
        f = (L.legval2d, L.legval3d)[d - 2](*xs, C)
        close(f @ ws, 2 ** d * C.ravel()[0], f'{what}: integral of a polynomial', rtol=0, atol=1e-11)
        labels.add(f'{d}d:' + ('mixed' if len(set(c)) > 1 else c[0]))
    return {'nontrivial': len(case) >= 1, 'labels': sorted(labels)}


# ---------------------------------------------------------------------------------- basis functions
def s_basis():
    S = fe.st()
    lob = S.fixed_dictionaries({'lob': S.integers(1, 8) | S.integers(1, 14)})
    w = S.lists(S.integers(1, 60), min_size=1, max_size=7)
    cus = S.fixed_dictionaries({'cus': w})
    near = S.fixed_dictionaries({'cus': w, 'near': S.sampled_from([1e-12, 1e-9, 1e-7, 1e-6, 1e-4])})
    nd = S.fixed_dictionaries({'nd': w})
    pts = S.fixed_dictionaries({'n': S.integers(1, 12), 's': S.integers(0, 10 ** 6), 'wide': S.booleans(), 'rep': S.integers(1, 3)})
    return S.fixed_dictionaries({'nodes': S.lists(lob | cus | near | nd, min_size=1, max_size=4),
                                 'pts': S.lists(pts, min_size=1, max_size=6), 'many': S.sampled_from([0, 0, 0, 15, 40, 130])})


def make(n):
    from phyem.msepy.tools.polynomials import Lobatto_polynomials_of_degree, polynomials_on_nodes, _OneDimPolynomial
    from phyem.tools.quadrature import Quadrature
    if 'lob' in n:
        p = n['lob']
        x = np.sort(np.concatenate([[-1], L.Legendre.basis(p).deriv().roots().real if p > 1 else [], [1]]))
        b = [Lobatto_polynomials_of_degree(p), _OneDimPolynomial(Quadrature(p, category='Lobatto').quad[0])]
        return x, b
    w = np.array(n.get('cus', n.get('nd')), dtype=float)
    w /= w.sum()
    if 'near' in n and len(w) > 1:
        e = n['near'] * w.min()
        w[0] += e
        w[1] -= e
    if 'nd' in n:
        x = np.concatenate([[-1], -1 + 2 * np.cumsum(w)])
        x = np.round(x, 13)
        x[-1] = 1
        return x, [polynomials_on_nodes('nd@' + '='.join(repr(float(_)) for _ in x))]
    s = ['%.13f' % _ for _ in w]
    x = np.concatenate([[-1], -1 + 2 * np.cumsum([float(_) for _ in s])])
    x[-1] = 1
    return x, [polynomials_on_nodes('CUS-NODES@' + '-'.join(s))]


def lagrange(nodes, x):
    """Barycentric evaluation."""
    n = len(nodes)
    out = np.empty((n, len(x)))
    for i in range(n):
        o = np.delete(nodes, i)
        out[i] = np.prod((x[None, :] - o[:, None]) / (nodes[i] - o)[:, None], axis=0) if n > 1 else 1
    return out


def d_lagrange(nodes, x):
    n = len(nodes)
    out = np.zeros((n, len(x)))
    for i in range(n):
        for j in range(n):
            if j == i:
                continue
            t = np.full(len(x), 1 / (nodes[i] - nodes[j]))
            for k in range(n):
                if k not in (i, j):
                    t = t * (x - nodes[k]) / (nodes[i] - nodes[k])
            out[i] += t
    return out


def check_basis(P, nodes, x, what):
    p = len(nodes) - 1
    lb, eb = P.node_basis(x=x), P.edge_basis(x=x)
    ref = lagrange(nodes, x)
    d = d_lagrange(nodes, x)
    ref_e = -np.cumsum(d, axis=0)[:-1]
    s = max(1., np.abs(ref).max())
    require(lb.shape == (p + 1, len(x)) and eb.shape == (p, len(x)), f'{what}: shapes {lb.shape}, {eb.shape}')
    close(lb, ref, f'{what}: Lagrange basis', rtol=1e-9, atol=1e-10 * s)
    close(eb, ref_e, f'{what}: edge basis', rtol=1e-9, atol=1e-9 * max(1., np.abs(d).max()))
    close(P.lagrange_basis(x), lb, f'{what}: node and Lagrange basis', rtol=0, atol=0)


def p_basis(case):
    boot.phyem()
    gx, gw = L.leggauss(12)
    made = []
    for i, n in enumerate(case['nodes']):
        nodes, polys = make(n)
        for j, P in enumerate(polys):
            what = f'nodes {i} {n} ({j})'
            require(P.p == len(nodes) - 1, f'{what}: degree {P.p}')
            close(P.nodes, nodes, f'{what}: nodes', rtol=0, atol=2e-12)
            made.append((P, np.asarray(P.nodes, dtype=float), what))
    xs = []
    for q in case['pts']:
        r = np.random.default_rng(q['s'])
        x = r.uniform(-1, 1, q['n'])
        xs.extend([x if q['wide'] else np.sort(x)] * q['rep'])
    for k in range(case['many']):
        xs.append(np.random.default_rng(k + 7).uniform(-1, 1, 3))
    xs += xs[:2]
    for P, nodes, what in made:
        I = np.eye(len(nodes))
        close(P.node_basis(nodes), I, f'{what}: Kronecker property', rtol=0, atol=1e-11)
        E = np.zeros((P.p, P.p))
        for j in range(P.p):
            a, b = nodes[j], nodes[j + 1]
            E[:, j] = P.edge_basis(a + (b - a) * (gx + 1) / 2) @ gw * (b - a) / 2
        close(E, np.eye(P.p), f'{what}: integrals of the edge functions over the edges', rtol=0, atol=1e-8)
        for x in xs:
            check_basis(P, nodes, x, what)
        y = xs[0].copy()
        P.node_basis(y)
        y += .001 * (1 - 2 * (y > 0))       # (the array is changed in place and used again)
        check_basis(P, nodes, y, f'{what} (points changed in place)')
        ex, ew = L.leggauss(len(nodes) + 2)
        for got, basis, nm in ((P.node_reference_mass_matrix, lagrange(nodes, ex), 'node'),
                               (P.edge_reference_mass_matrix, -np.cumsum(d_lagrange(nodes, ex), axis=0)[:-1], 'edge')):
            M = np.einsum('ik,jk,k->ij', basis, basis, ew)
            close(got, M, f'{what}: reference mass matrix of the {nm} functions', rtol=1e-9, atol=1e-9 * np.abs(M).max())
    return {'nontrivial': any(P.p >= 2 for P, _, _ in made),
            'labels': sorted({next(iter(n)) + (':near' if 'near' in n else '') for n in case['nodes']} | {f'many:{case["many"]}'})}


SUBS = [Sub('quadrature', s_quad, p_quad, quick=3000, thorough=60000, rule='any rule'),
        Sub('basis', s_basis, p_basis, quick=600, thorough=20000, rule='a basis of degree 2 at least')]
