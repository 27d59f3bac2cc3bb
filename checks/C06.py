"""C06: element mappings, Jacobians, metrics, faces and normals are consistent, and the elements tile the domain."""
import numpy as np

from lib import fe
from lib.core import Sub, require, close
from checks.C03 import pick

ASSUMPTIONS = ['The documented mapping of the crazy domain and the illustrated corner positions of the other predefined '
               'domains are the specification of the geometry.']

TYPES = {('msehtt', 2): ['crazy', 'crazy', 'trf', 'ts', 'ren', 'crazy_multi', 'backward_step', 'chaotic', 'chaotic_c',
                         'quad', 'rectangle', 'meshpy', 'data', 'data', 'data-split']}


def s_geo(dims=(1, 2, 3), libs=('msepy', 'msehtt')):
    """Specs, with parameters for the backward step and the cylinder channel."""
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(libs=libs, dims=dims, maxp=(1, 1, 1), maxn=(5, 4, 3), types=TYPES, custom=False))
        spec['degree'] = 1
        d, m = spec['dim'], spec['mesh']
        if d == 2 and m['type'] in ('backward_step', 'crazy_multi') and draw(S.integers(0, 3)) == 0:
            r = draw(fe.s_num(0.3, 2, 2))
            m = spec['mesh'] = {'type': 'cylinder_channel', 'r': r, 'dl': round(r * (1.2 + draw(fe.s_num(0, 4, 1))), 3),
                                'dr': round(r * (1.2 + draw(fe.s_num(0, 6, 1))), 3),
                                'h': round(2 * r * (1.2 + draw(fe.s_num(0, 2, 1))), 3), 'layout': 1}
        if m['type'] == 'backward_step':
            for k in ('x1', 'x2', 'y1', 'y2') + (('z',) if d == 3 else ()):
                m[k] = draw(fe.s_num(0.1, 3, 2))
            if d == 3 and spec['lib'] == 'msepy':
                m['periodic'] = draw(S.booleans())
                if m['periodic']:
                    m['layout'] = [draw(S.integers(1, 2)), draw(S.integers(1, 2)), draw(S.integers(2, 3))]
            else:
                m['x0'], m['y0'] = draw(fe.s_num(-1, 1, 1)), draw(fe.s_num(-1, 1, 1))
        return spec
    return mk()


def arr(x, like):
    return np.broadcast_to(np.asarray(x, dtype=float), like.shape)


def mat(M, like):
    return np.array([[arr(v, like) for v in row] for row in M])


def points(D, e, r, n=5, shape=None):
    X = [r.uniform(-1, 1, shape or (n,)) for _ in range(D.dim)]
    if D.etype(e) == 'tri':
        X[0] = np.maximum(X[0], -0.9)
    return X


def axes_mat(J):
    return np.moveaxis(J, (0, 1), (-2, -1))


def check_ct(ct, J, X, what, dim):
    """All quantities of one coordinate transformation against the Jacobian matrix J (own)."""
    like = X[0]
    size = np.max(np.abs(J))
    Jm = axes_mat(J)
    det = np.linalg.det(Jm)
    inv = np.linalg.inv(Jm)
    G = np.swapaxes(Jm, -1, -2) @ Jm
    iG = np.linalg.inv(G)
    cond = max(1., np.max(np.linalg.cond(Jm)))
    tol = 2e-8 * cond
    close(mat(ct.Jacobian_matrix(*X), like), J, f'{what}: the Jacobian matrix against differences of the mapping',
          rtol=2e-9, atol=1e-9 * size)
    require(np.all(det > 0), f'{what}: the element is not positively oriented (det J = {np.min(det)!r})')
    close(arr(ct.Jacobian(*X), like), det, f'{what}: the Jacobian', rtol=tol, atol=0)
    close(axes_mat(mat(ct.inverse_Jacobian_matrix(*X), like)), inv, f'{what}: the inverse Jacobian matrix', rtol=tol, atol=0)
    close(arr(ct.inverse_Jacobian(*X), like), 1 / det, f'{what}: the inverse Jacobian', rtol=tol, atol=0)
    close(arr(ct.metric(*X), like), det ** 2, f'{what}: the metric', rtol=tol, atol=0)
    close(axes_mat(mat(ct.metric_matrix(*X), like)), G, f'{what}: the metric matrix', rtol=tol, atol=0)
    close(axes_mat(mat(ct.inverse_metric_matrix(*X), like)), iG, f'{what}: the inverse metric matrix', rtol=tol * cond,
          atol=0)


def s_elem():
    S = fe.st()
    return S.tuples(s_geo(), S.integers(0, 10 ** 6)).map(lambda a: {'spec': a[0], 'seed': a[1]})


def prop_elem(case):
    """Jacobian, inverse, metric, .. of elements against finite differences of the mapping; batches against elements."""
    spec = case['spec']
    d = spec['dim']
    D = fe.Disc(spec, keys=[(0, fe.O)])
    r = np.random.default_rng(case['seed'])
    els = pick(D, case['seed'], 3)
    shape = [(5,), (1,), (2, 3)][case['seed'] % 3]
    curved = False
    for e in els:
        for rep in range(2):          # twice: the quantities at other points are not those at the points before
            X = points(D, e, r, shape=shape)
            J = D.jac_fd(e, *X)
            curved |= np.max(np.abs(J - J.reshape(d, d, -1)[:, :, :1].reshape((d, d) + (1,) * len(shape)))) > 1e-6 * np.max(abs(J))
            check_ct(D.element(e).ct, J, X, f'element {e}', d)
    if D.lib == 'msepy':
        X = [r.uniform(-1, 1, shape) for _ in range(d)]
        mp = D.mesh.ct.mapping(*X)
        sel = [D.mesh.elements.ct, ]
        full = {n: getattr(D.mesh.ct, n)(*X) for n in ('Jacobian_matrix', 'Jacobian', 'inverse_Jacobian_matrix',
                                                      'inverse_Jacobian', 'metric', 'metric_matrix',
                                                      'inverse_metric_matrix')}
        part = {n: getattr(D.mesh.elements.ct, n)(*X, element_range=els) for n in full}
        pm = D.mesh.elements.ct.mapping(*X, element_range=els)
        for e in els:
            x = D.map(e, *X)
            for a in range(d):
                close(mp[a][..., e], x[a], f'the batch mapping of element {e}', scale=np.max(np.abs(x[a])))
                close(pm[e][a], x[a], f'the mapping of the selected element {e}', scale=np.max(np.abs(x[a])))
            ct = D.mesh.elements[e].ct
            for n in full:
                f = (lambda v: mat(v, X[0])) if 'matrix' in n else (lambda v: arr(v, X[0]))
                ref = f(getattr(ct, n)(*X))
                close(f(full[n](e)), ref, f'mesh.ct.{n} of element {e}', rtol=1e-9, atol=0)
                close(f(part[n][e]), ref, f'elements.ct.{n} of element {e}', rtol=1e-9, atol=0)
    return {'nontrivial': bool(curved) or len(D.elements) > 1, 'labels': fe.labels(spec) + ['curved' if curved else 'affine']}


# --------------------------------------------------------------------------------------------- the domain
def layout_nodes(lay, dim):
    """The element boundaries in [0, 1] along each axis."""
    if isinstance(lay, int):
        lay = [lay] * dim
    out = []
    for x in lay:
        if isinstance(x, int):
            out.append(np.linspace(0, 1, x + 1))
        else:
            out.append(np.concatenate([[0.], np.cumsum(x) / np.sum(x)]))
    return out


def crazy_map(bounds, c, rst):
    p = 1.
    for x in rst:
        p = p * np.sin(2 * np.pi * x)
    return [(b[1] - b[0]) * (x + .5 * c * p) + b[0] for b, x in zip(bounds, rst)]


def expected_elements(spec):
    """[(mapping of [0,1]^d-region, lows, highs)] of all elements, or None."""
    m, d = spec['mesh'], spec['dim']
    regions = []
    if m['type'] == 'crazy' and not (m.get('trf') or m.get('ts')):
        regions = [(m['bounds'], m['c'])]
    elif m['type'] == 'crazy_multi':
        for ix in fe.region_positions(m, d):
            b = []
            for a in range(d):
                lb, ub = m['bounds'][a]
                h = (ub - lb) / m['Ns'][a]
                b.append([lb + h * ix[a], lb + h * (ix[a] + 1)])
            regions.append((b, m['c']))
    elif m['type'] == 'backward_step':
        x0, y0 = m.get('x0', 0), m.get('y0', 0)
        X, Y = [x0, x0 + m['x1'], x0 + m['x1'] + m['x2']], [y0, y0 + m['y1'], y0 + m['y1'] + m['y2']]
        for i, j in ((1, 0), (1, 1), (0, 1)):
            regions.append(([[X[i], X[i + 1]], [Y[j], Y[j + 1]]] + ([[0, m['z']]] if d == 3 else []), 0))
    else:
        return None
    lay = fe.layout_of(m, d)
    out = []
    for i, (b, c) in enumerate(regions):
        nodes = layout_nodes(lay[i] if isinstance(lay, dict) else lay, d)
        for ix in np.ndindex(*[len(n) - 1 for n in nodes]):
            out.append((b, c, [nodes[a][ix[a]] for a in range(d)], [nodes[a][ix[a] + 1] for a in range(d)]))
    return out


def volume_of(spec):
    m, d = spec['mesh'], spec['dim']
    if m['type'] in ('crazy', 'crazy_multi'):
        return float(np.prod([b[1] - b[0] for b in m['bounds']]))
    if m['type'] == 'backward_step':
        return ((m['x1'] + m['x2']) * (m['y1'] + m['y2']) - m['x1'] * m['y1']) * m.get('z', 1)
    if m['type'] == 'cylinder_channel':
        return (m['dl'] + m['dr']) * m['h'] - np.pi * m['r'] ** 2
    if m['type'] == 'quad':
        P = [m[k] for k in 'ABCD']
    elif m['type'] == 'meshpy':
        P = m['points']
    elif m['type'] == 'data':
        X = dict((k, x) for k, x in m['nodes'])
        P = [[X[k] for k in c[2]] for c in m['cells']]
        return sum(abs(sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))) / 2 for p in P)
    else:
        return None
    return abs(sum(P[i][0] * P[(i + 1) % 4][1] - P[(i + 1) % 4][0] * P[i][1] for i in range(4))) / 2


def prop_domain(case):
    """The elements tile the documented domain: positions of all points, the sum of the volumes, no overlaps."""
    spec = case['spec']
    d, m = spec['dim'], spec['mesh']
    D = fe.Disc(spec, keys=[(0, fe.O)])
    r = np.random.default_rng(case['seed'])
    exp = expected_elements(spec)
    sc = fe.extent(D)
    lab = []
    if exp is not None:
        require(len(exp) == len(D.elements), f'{len(D.elements)} elements, expected {len(exp)}')
        X = [r.uniform(-1, 1, 4) for _ in range(d)]
        P = np.array([crazy_map(b, c, [(x + 1) / 2 * (h - lo) + lo for x, lo, h in zip(X, ls, hs)])
                      for b, c, ls, hs in exp])
        left = set(range(len(exp)))
        for e in D.elements:
            x = np.array(D.map(e, *X))
            hit = [i for i in left if np.max(np.abs(P[i] - x)) < 1e-9 * sc + 1e-12 * np.max(np.abs(x))]
            require(len(hit) == 1, f'element {e} is at no (free) place of the documented domain: the points '
                                   f'{[list(map(float, _)) for _ in X]} are mapped to {x.tolist()}')
            left.discard(hit[0])
        if D.lib == 'msepy' and len(D.elements) > 1:    # the documented numbering: x fastest
            cn = [D.map(e, *[np.zeros(1)] * d)[0][0] for e in range(2)]
            if m['type'] == 'crazy' and len(layout_nodes(m['layout'], d)[0]) > 2 and not m['c']:
                require(cn[1] > cn[0], 'element 1 is not next to element 0 along the first axis')
        lab.append('formula')
    n = 14 if d < 3 else 8
    Q, W = fe.quad_grid(D, n)
    G = np.meshgrid(*Q, indexing='ij')
    G = [g.ravel() for g in G]
    W = W.ravel()
    vol = {e: float(np.sum(arr(D.element(e).ct.Jacobian(*G), W) * W)) for e in D.elements}
    V = volume_of(spec)
    require(min(vol.values()) > 0, f'element volumes {vol}')
    if V is not None:
        s = sum(vol.values())
        tol = 1e-8 if m['type'] != 'cylinder_channel' else 1e-7
        require(abs(s - V) <= tol * max(V, s) + 1e-14, f'the elements cover {s!r}, the domain is of size {V!r}')
        lab.append('volume')
    if D.lib == 'msepy' and d > 1:
        got = D.mesh.elements.area() if d == 2 else D.mesh.elements.volume()
        k = 4 if d == 2 else 2
        Q, W = fe.quad_grid(D, k)
        G = [g.ravel() for g in np.meshgrid(*Q, indexing='ij')]
        for e in D.elements:
            lo = float(np.sum(fe.det_(D.jac_fd(e, *G)) * W.ravel()))
            tol = 3 * abs(lo - vol[e]) + 1e-8 * vol[e]
            require(abs(float(got[e]) - vol[e]) <= tol, f'the size of element {e}: {got[e]!r}, expected {vol[e]!r}')
    if D.lib == 'msehtt' and d == 2 and m['type'] in ('quad', 'meshpy', 'chaotic', 'rectangle', 'data'):
        # no overlaps: a point inside one (straight) element is outside all others
        xi = [np.array([-0.5, 0.5, 0.5, -0.5]), np.array([-0.5, -0.5, 0.5, 0.5])]
        pts = {e: np.array(D.map(e, *xi)).T for e in D.elements}
        if not m.get('c'):
            for e in pick(D, case['seed'], 3):
                for p in pts[e]:
                    inside = [f for f in D.elements if in_poly(D, f, p)]
                    require(inside == [e], f'the point {p.tolist()} of element {e} is in the elements {inside}')
            lab.append('no-overlap')
    return {'nontrivial': len(D.elements) > 1 and bool(lab), 'labels': fe.labels(spec) + lab}


def in_poly(D, e, p):
    c = [np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.])]
    v = np.array(D.map(e, *c)).T
    s = []
    for i in range(4):
        a, b = v[i], v[(i + 1) % 4]
        if np.linalg.norm(b - a) < 1e-12:
            continue
        s.append((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]))
    s = np.array(s)
    return bool(np.all(s > 0) or np.all(s < 0))


# ---------------------------------------------------------------------------------------------- the faces
def s_face():
    S = fe.st()
    return S.tuples(s_geo(dims=(2, 3)), S.integers(0, 10 ** 6)).map(lambda a: {'spec': a[0], 'seed': a[1]})


def faces_of(D, e):
    """[(name, ct, axis, side, call)]: call(xi) gives the arguments for the face point of the reference point xi."""
    el = D.element(e)
    out = []
    if D.lib == 'msepy':
        for m in range(D.dim):
            for n in range(2):
                out.append(((m, n), el.ct.face(m, n), m, n, 'cyclic'))
        return out
    for f in el.face_setting():
        ct = el.faces[f].ct
        if D.dim == 3:
            out.append((f, ct, f // 2, f % 2, 'all'))
        else:
            out.append((f, ct, None, None, 'cyclic'))
    return out


def prop_face(case):
    spec = case['spec']
    d = spec['dim']
    D = fe.Disc(spec, keys=[(0, fe.O)])
    r = np.random.default_rng(case['seed'])
    sc = fe.extent(D)
    plane = 0
    for e in pick(D, case['seed'], 2):
        el = D.element(e)
        tri = D.etype(e) == 'tri'
        used = set()
        for name, ct, a, n, how in faces_of(D, e):
            xi = [r.uniform(-0.9, 0.9, 5) for _ in range(d)]
            if a is None:       # find the side of the reference element this face is
                s = np.linspace(-0.8, 0.8, 5)
                got = np.array(ct.mapping(s))
                hits = []
                for aa in range(2):
                    for nn in range(2):
                        if tri and (aa, nn) == (0, 0):
                            continue
                        for rev in (1, -1):
                            P = [None, None]
                            P[aa], P[1 - aa] = np.full(5, 2. * nn - 1), rev * s
                            if np.max(np.abs(np.array(D.map(e, *P)) - got)) < 1e-10 * sc:
                                hits.append((aa, nn, rev))
                require(len(hits) == 1, f'face {name} of element {e} is not one side of the element: {hits}')
                a, n, rev = hits[0]
                require((a, n) not in used, f'face {name} of element {e} is the same as another one')
            else:
                rev = 1
            used.add((a, n))
            xi[a] = np.full(5, 2. * n - 1)
            tang = [(a + 1) % 3, (a + 2) % 3] if d == 3 else [1 - a]
            args = [rev * xi[i] for i in tang] if how == 'cyclic' else xi
            x = np.array(D.map(e, *xi))
            close(np.array([arr(v, xi[0]) for v in ct.mapping(*args)]), x, f'the mapping of face {name} of element {e}',
                  scale=np.max(np.abs(x)))
            J = D.jac_fd(e, *xi)
            FJ = ct.Jacobian_matrix(*args)
            if d == 2:
                FJ = [[FJ[0]], [FJ[1]]]
            FJ = mat(FJ, xi[0])
            close(FJ, rev * J[:, tang], f'the Jacobian matrix of face {name} of element {e}', rtol=2e-9,
                  scale=np.max(np.abs(J)))
            iJ = fe.inv_(J)
            nv = iJ[a] * (1. if n else -1.)
            nv = nv / np.sqrt(np.sum(nv ** 2, axis=0))
            got = np.array([arr(v, xi[0]) for v in ct.outward_unit_normal_vector(*args)])
            cond = np.max(np.linalg.cond(axes_mat(J)))
            close(got, nv, f'the outward unit normal vector of face {name} of element {e}', rtol=1e-8 * max(1, cond))
            if D.lib == 'msehtt':
                m = 9
                t = [np.linspace(-.93, .97, m)] * d
                if d == 3:
                    t = [g.ravel() for g in np.meshgrid(*[np.linspace(-.93, .97, m)] * 3, indexing='ij')]
                t[a] = np.full(t[0].shape, 2. * n - 1)
                Ja = D.jac_fd(e, *t)
                ia = fe.inv_(Ja)[a] * (1. if n else -1.)
                ia = ia / np.sqrt(np.sum(ia ** 2, axis=0))
                dev = np.max(np.abs(ia - ia[:, :1]))
                if dev < 1e-9:
                    plane += 1
                    require(bool(ct.is_plane()), f'face {name} of element {e} is plane, is_plane says no')
                    c = np.array(ct.constant_outward_unit_normal_vector, dtype=float)
                    close(c, ia[:, 0], f'the constant normal vector of face {name} of element {e}', atol=2e-6)
                elif dev > 0.05:
                    require(not ct.is_plane(), f'face {name} of element {e} is curved, is_plane says plane')
        require(len(used) == (3 if tri else 2 * d), f'element {e} has the faces {used}')
    return {'nontrivial': True, 'labels': fe.labels(spec) + (['plane'] if plane else [])}


SUBS = [
    Sub('element_metric', s_elem, prop_elem, 4000, 40000,
        'Jacobians/metrics of random elements at random points; non-trivial if curved or more than one element'),
    Sub('domain', s_elem, prop_domain, 3000, 30000,
        'positions against the documented formula, the total size, no overlaps; non-trivial with more than one element'),
    Sub('faces', s_face, prop_face, 2400, 30000,
        'face mappings, face Jacobians, outward normals of two elements per mesh'),
]
