"""C05: the global numbering of dofs is conforming: the discrete spaces are subspaces of H1, H(curl), H(div), L2."""
import numpy as np

from lib import fe
from lib.core import Sub, Violation, require, close

ASSUMPTIONS = ['The element mapping of the code is taken as the geometry (it is checked by C06).',
               'msepy meshes have at least two, msehtt meshes at least three elements along a periodic axis.']


def s_case():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(5, 4, 3), maxn=(6, 4, 3)))
        d = spec['dim']
        return {'spec': spec, 'key': [draw(S.integers(0, d)), draw(S.sampled_from([fe.O, fe.I]))]}
    return mk()


def period(D):
    """The period of every axis (None if not periodic)."""
    m = D.spec['mesh']
    if not m.get('periodic'):
        return None
    b = m.get('bounds') or [[0, 1]] * D.dim
    return [x[1] - x[0] for x in b], [x[0] for x in b]


def wrap(D, x):
    """Physical points (d, n) -> canonical ones, scaled by the extents of the domain."""
    per = period(D)
    x = np.array(x, dtype=float)
    if per is None:
        return x / extents(D)[:, None]
    for a in range(D.dim):
        L, o = per[0][a], per[1][a]
        y = (x[a] - o) % L
        y[np.abs(y - L) < 1e-6 * L] = 0
        y[np.abs(y) < 1e-6 * L] = 0
        x[a] = y
    return x / extents(D)[:, None]


def extents(D):
    if not hasattr(D, '_ext'):
        g = np.meshgrid(*[np.array([-1., 0., 1.])] * D.dim, indexing='ij')
        X = np.array([np.array(D.map(e, *g)).reshape(D.dim, -1) for e in D.elements])
        D._ext = np.max(X, axis=(0, 2)) - np.min(X, axis=(0, 2))
    return D._ext


def dof_centers(D, key):
    """{e: (d, ndof) array of canonical physical points} of the local dofs, and the direction component."""
    N = D.nodes()
    out = {}
    for e in D.elements:
        pts = []
        for comp, cell in D.dof_boxes(key, D.etype(e)):
            pts.append([(N[a][i] if kind == 'n' else (N[a][i] + N[a][i + 1]) / 2)
                        for a, (kind, i) in enumerate(cell)])
        P = np.array(pts).T
        out[e] = wrap(D, np.array(D.map(e, *P)))
    return out


def geometric_classes(D, key):
    """{(e, i): class} by the position of the dofs."""
    C = dof_centers(D, key)
    tol = 1e-6
    bucket, cls, n = {}, {}, 0
    for e in D.elements:
        for i in range(C[e].shape[1]):
            p = C[e][:, i]
            k0 = np.floor(p / tol / 8).astype(int)
            hit = None
            for off in np.ndindex(*(3,) * D.dim):
                for q, c in bucket.get(tuple(k0 + np.array(off) - 1), ()):
                    if np.max(np.abs(q - p)) < tol:
                        hit = c
                        break
                if hit is not None:
                    break
            if hit is None:
                hit = n
                n += 1
                bucket.setdefault(tuple(k0), []).append((p, hit))
            cls[(e, i)] = hit
    return cls, n


def prop_numbering(case):
    spec, key = case['spec'], tuple(case['key'])
    D = fe.Disc(spec, keys=[key])
    gm, n = D.gm(key)
    cls, nc = geometric_classes(D, key)
    used = set()
    a2b, b2a = {}, {}
    for e in D.elements:
        nl = D.n_local(key, e)
        require(len(gm[e]) == nl, f'element {e}: {len(gm[e])} numbers for {nl} local dofs')
        require(len(set(int(_) for _ in gm[e])) == nl or spec['mesh'].get('periodic'),
                f'element {e}: a global dof is numbered twice: {list(gm[e])}')
        for i, g in enumerate(gm[e]):
            g = int(g)
            used.add(g)
            c = cls[(e, i)]
            if a2b.setdefault(g, (c, e, i))[0] != c:
                o = a2b[g]
                raise Violation(f'{key}: local dof {i} of element {e} and local dof {o[2]} of element {o[1]} have the '
                                f'same global number {g}, but are different geometric objects')
            if b2a.setdefault(c, (g, e, i))[0] != g:
                o = b2a[c]
                raise Violation(f'{key}: local dof {i} of element {e} and local dof {o[2]} of element {o[1]} are the '
                                f'same geometric object, but have the global numbers {g} and {o[0]}')
    require(used == set(range(n)), f'{key}: the global numbers in use are not 0 .. {n - 1} ({len(used)} are used)')
    require(n == nc, f'{key}: {n} global dofs, {nc} geometric objects')
    return {'nontrivial': len(D.elements) > 1 and key[0] < D.dim, 'labels': fe.labels(spec) + [f'k{key[0]}']}


def s_coh():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(4, 2, 1), maxn=(4, 3, 2)))
        return {'spec': spec, 'o': draw(S.sampled_from([fe.O, fe.I]))}
    return mk()


def prop_coh(case):
    """The cohomology of the discrete complex is that of the domain."""
    spec, o = case['spec'], case['o']
    d = spec['dim']
    D = fe.Disc(spec, keys=[(k, o) for k in range(d + 1)])
    gms = [D.gm((k, o)) for k in range(d + 1)]
    if max(g[1] for g in gms) > 700:
        return {'nontrivial': False, 'excluded': True}
    rank = [0] * (d + 2)
    prev = None
    for k in range(d):
        A = np.zeros((gms[k + 1][1], gms[k][1]))
        seen = np.zeros(gms[k + 1][1], dtype=bool)
        for e in D.elements:
            E = D.E((k, o), e)
            row = np.zeros((E.shape[0], gms[k][1]))
            for j, g in enumerate(gms[k][0][e]):
                row[:, g] += E[:, j]
            for i, g in enumerate(gms[k + 1][0][e]):
                if seen[g]:
                    if np.any(A[g] != row[i]):
                        raise Violation(f'the elements disagree about the derivative of {o} {k}-forms at dof {g}')
                A[g] = row[i]
                seen[g] = True
        require(np.all(seen), f'some {k + 1}-dofs belong to no element')
        if prev is not None:
            require(not np.any(A @ prev), f'global: d d is not zero on {o} {k - 1}-forms')
        prev = A
        rank[k + 1] = np.linalg.matrix_rank(A)
    betti = [gms[k][1] - rank[k + 1] - rank[k] for k in range(d + 1)]
    if spec['mesh'].get('periodic'):
        ref = {1: [1, 1], 2: [1, 2, 1], 3: [1, 3, 3, 1]}[d]
    else:
        ref = [1] + [0] * d
    require(betti == ref, f'the Betti numbers of the discrete {o} complex are {betti}, those of the domain {ref}')
    return {'nontrivial': len(D.elements) > 1, 'labels': fe.labels(spec)}


def s_trace():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2, 3), maxp=(5, 4, 2), maxn=(6, 4, 2)))
        d = spec['dim']
        if spec['lib'] == 'msehtt' and d == 3:
            spec['mesh']['c'] = 0.
        return {'spec': spec, 'key': [draw(S.integers(0, d - 1)), draw(S.sampled_from([fe.O, fe.I]))],
                'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_trace(case):
    """A form with a conforming cochain has a single-valued trace on every interface of two elements."""
    spec, key = case['spec'], tuple(case['key'])
    d = spec['dim']
    D = fe.Disc(spec, keys=[key])
    v, _ = fe.rng_cochains(D, key, case['seed'])
    D.set_cochain(key, 0, v)
    r = np.random.default_rng(case['seed'])
    s = r.uniform(0.1, 0.9, 2)
    pts = np.sort(np.concatenate([-s, s]))      # symmetric: they match whatever the orientation of the face
    tol = 1e-6
    table = {}
    n = 0
    for ax in range(d):
        for side in (-1., 1.):
            X = [np.array([side]) if a == ax else pts for a in range(d)]
            rec = D.recon(key, 0, *X) if not (ax == 0 and side < 0 and any(D.etype(e) == 'tri' for e in D.elements)) \
                else None
            G = np.meshgrid(*X, indexing='ij')
            if rec is None:
                continue
            for e in D.elements:
                P = np.array(D.map(e, *G)).reshape(d, -1)
                J = D.jac_fd(e, *G)
                J = J.reshape(d, d, -1)
                val = [np.ravel(c) for c in rec[e][1]]
                # the tangents of the face
                T = [J[:, a] / np.linalg.norm(J[:, a], axis=0) for a in range(d) if a != ax]
                if key[0] == 0:
                    tr = np.array([val[0]])
                elif key[0] == 1 and (d == 3 or key[1] == fe.I):
                    nrm = None if d == 2 else np.cross(T[0].T, T[1].T).T
                    if d == 2:
                        t = T[0] * sgn(T[0])
                        tr = np.array([val[0] * t[0] + val[1] * t[1]])
                    else:   # the tangential part
                        nrm = nrm / np.linalg.norm(nrm, axis=0)
                        V = np.array(val)
                        tr = V - nrm * np.sum(V * nrm, axis=0)
                else:
                    if d == 2:
                        t = T[0] * sgn(T[0])
                        tr = np.array([val[0] * t[1] - val[1] * t[0]])
                    else:
                        nrm = np.cross(T[0].T, T[1].T).T
                        nrm = nrm / np.linalg.norm(nrm, axis=0)
                        nrm = nrm * sgn(nrm)
                        tr = np.array([np.sum(np.array(val) * nrm, axis=0)])
                W = wrap(D, P)
                sc = np.max(np.abs(np.array(val)))
                for m in range(P.shape[1]):
                    p, w = W[:, m], tr[:, m]
                    k0 = np.floor(p / tol / 8).astype(int)
                    hit = None
                    for off in np.ndindex(*(3,) * d):
                        for q in table.get(tuple(k0 + np.array(off) - 1), ()):
                            if np.max(np.abs(q[0] - p)) < tol:
                                hit = q
                                break
                        if hit is not None:
                            break
                    if hit is None:
                        table.setdefault(tuple(k0), []).append((p, w, e, sc, P[:, m]))
                    else:
                        n += 1
                        err = np.max(np.abs(hit[1] - w))
                        if err > 1e-6 * (hit[3] + sc):
                            raise Violation(f'{key}: the traces of a conforming form at {list(p)} are {list(hit[1])} in '
                                            f'element {hit[2]} and {list(w)} in element {e}')
    return {'nontrivial': n > 0, 'labels': fe.labels(spec) + [f'k{key[0]}']}


def sgn(t):
    """A sign per point that makes the direction canonical."""
    s = np.ones(t.shape[1])
    done = np.zeros(t.shape[1], dtype=bool)
    for c in t:
        big = (np.abs(c) > 0.3) & ~done
        s[big] = np.sign(c[big])
        done |= big
    return s


SUBS = [
    Sub('numbering', s_case, prop_numbering, 2400, 30000,
        'equal numbers iff the same geometric object (modulo the period), numbers 0..n-1; non-trivial with several '
        'elements and shared dofs'),
    Sub('cohomology', s_coh, prop_coh, 1600, 20000,
        'Betti numbers of the global discrete complex against those of the domain; non-trivial with several elements'),
    Sub('traces', s_trace, prop_trace, 1600, 20000,
        'random conforming cochains: single-valued traces on interfaces; non-trivial if points of two elements meet'),
]
