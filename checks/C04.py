"""C04: mass matrices, norms, errors and inner products are the L2 integrals over the mesh."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, Violation, require, close
from checks.C03 import pick, length, domain_volume

ASSUMPTIONS = ['The element mapping of the code is taken as the geometry (it is checked by C06).',
               'Quadrature: on curvilinear elements the tolerance follows from the difference of two own quadratures.']


# (mass matrices are not implemented on curvilinear triangles)
TYPES = {('msehtt', 2): ['crazy', 'crazy', 'crazy', 'ren', 'crazy_multi', 'backward_step', 'ts', 'quad', 'rectangle',
                         'chaotic', 'meshpy', 'data-quad', 'data-split']}


def s_mass():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(6, 4, 2), maxn=(4, 3, 2), types=TYPES))
        d = spec['dim']
        return {'spec': spec, 'key': [draw(S.integers(0, d)), draw(S.sampled_from([fe.O, fe.I]))],
                'seed': draw(S.integers(0, 10 ** 6)), 'ha': draw(S.sampled_from([True, True, False]))}
    return mk()


def orders(D):
    """(exact, at least what the code uses) numbers of quadrature points per axis."""
    p = D.px()
    hi = 18 if D.dim < 3 else 10
    return max(hi, max(p) + 6), max(p) + 1


def mass_ref(D, key, e):
    """The exact mass matrix (in the reference directions) and a quadrature tolerance."""
    hi, lo = orders(D)
    M = fe.exact_mass(D, key, e, hi)
    # the code never uses fewer than p + 1 points of an axis (or, on affine elements of msepy, a rule of that exactness)
    q = np.max(np.abs(M - fe.exact_mass(D, key, e, [x + 1 for x in D.px()])))
    return M, q


def prop_mass(case):
    spec, key = case['spec'], tuple(case['key'])
    ph = boot.phyem()
    D = fe.Disc(spec, keys=[key])
    try:
        ph.config.set_high_accuracy(case['ha'])
        return mass_body(case, spec, key, D)
    finally:
        ph.config.set_high_accuracy(True)


def lumped(D, key, e):
    """The mass matrix by the quadrature of the nodes of the space (p + 1 Lobatto points per axis)."""
    X, W = [], None
    for p, d in zip(D.px(), fe.axis_degrees(D.spec)):
        q, w = fe.lobatto_quad(p) if isinstance(d, int) else fe.gauss(p + 1)
        X.append(q)
        W = w if W is None else np.multiply.outer(W, w)
    b, det, _ = fe.phys_basis(D, key, e, X)
    wd = (W * det).ravel()
    b = b.reshape(b.shape[0], b.shape[1], -1)
    return np.einsum('icm,jcm,m->ij', b, b, wd, optimize=True)


def mass_body(case, spec, key, D):
    els = pick(D, case['seed'], 2)
    sg = fe.dof_signs(D, key, els)
    curved = bool(spec['mesh'].get('c')) or fe.flippable(D) or spec['mesh'].get('trf')
    lump = False
    for e in els:
        M = D.M(key, e)
        R, q = mass_ref(D, key, e)
        R = sg[e][:, None] * R * sg[e][None, :]
        m = np.max(np.abs(R))
        require(M.shape == R.shape, f'mass matrix of element {e}: shape {M.shape}, expected {R.shape}')
        tol = 10 * q + 1e-8 * m
        err = np.abs(M - R)
        if not np.max(err) <= tol and (D.lib == 'msehtt' or not case['ha']) and D.etype(e) == 'box':
            # documented: the quadrature of the nodes of the space, for sparser matrices
            R2 = lumped(D, key, e) * sg[e][:, None] * sg[e][None, :]
            if np.max(np.abs(M - R2)) <= 1e-8 * m:
                err, lump = 0 * err, True
        if not np.max(err) <= tol:
            i, j = np.unravel_index(np.argmax(err), err.shape)
            raise Violation(f'mass matrix of {key} in element {e}, entry ({i}, {j}): {M[i, j]!r}, the integral is '
                            f'{R[i, j]!r} (tolerance {tol:.2e}, size {m:.2e})')
        require(np.max(np.abs(M - M.T)) <= 1e-12 * m, f'the mass matrix of {key} in element {e} is not symmetric')
        ev = np.linalg.eigvalsh((M + M.T) / 2)
        require(ev[0] > 0, f'the mass matrix of {key} in element {e} is not positive definite: {ev[0]:.3e}')
    return {'nontrivial': len(els) > 0 and len(M) > 1,
            'labels': fe.labels(spec) + [f'k{key[0]}', 'curved' if curved else 'affine', 'lumped' if lump else 'exact']}


def expected_sq(D, key, vecs, F, t, n):
    """The integral of |reconstruction - F|^2 over the mesh with n points per axis (F: None for zero)."""
    X, W = fe.quad_grid(D, n)
    s = 0.
    for e in D.elements:
        B, det, x = fe.phys_basis(D, key, e, X)
        v = np.einsum('i,ic...->c...', vecs[e], B)
        for c in range(v.shape[0]):
            d = v[c] - (F.ev(c, t, *x) if F is not None else 0.)
            s += float(np.sum(d * d * det * W))
    return s


def pooled(D, key, vecs, F, t, hi, lo):
    """The integral, and the value of a coarse quadrature that is further off than the one of the code."""
    a = expected_sq(D, key, vecs, F, t, hi)
    lo = [lo] * D.dim if isinstance(lo, int) else list(lo)
    b = max((expected_sq(D, key, vecs, F, t, [max(1, n - s) for n in lo]) for s in (0, 1)), key=lambda v: abs(v - a))
    return a, b


def s_norm():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(5, 3, 2), maxn=(4, 3, 2), types=TYPES))
        d = spec['dim']
        if spec['lib'] == 'msehtt' and d == 3:
            spec['mesh']['c'] = 0.
            spec['mesh']['periodic'] = False
        if d > 1 and isinstance(spec['degree'], list) and all(isinstance(x, int) for x in spec['degree']) and draw(S.booleans()):
            a = draw(S.integers(0, d - 1))                   # degrees far apart
            spec['degree'] = [draw(S.sampled_from([4, 5] if d == 2 else [4])) if i == a else 1 for i in range(d)]
            if d == 3 and 'layout' in spec['mesh'] and not spec['mesh'].get('periodic'):
                spec['mesh']['layout'] = draw(S.sampled_from([1, [2, 1, 1], [1, 2, 1], [1, 1, 2]]))
        k = draw(S.integers(0, d))
        return {'spec': spec, 'key': [k, draw(S.sampled_from([fe.O, fe.I]))], 'seed': draw(S.integers(0, 10 ** 6)),
                't': [draw(fe.s_num(0, 1, 2)), draw(fe.s_num(1.1, 2, 2))], 'field': draw(fe.s_field(d,
                                                                                              fe.n_components(d, k)))}
    return mk()


def within(got, pairs, what, size=0.):
    """got is the square root of pairs[0] (own, fine) up to the quadrature difference to pairs[1]."""
    hi, lo = pairs
    ref = max(hi, 0.) ** .5
    tol = 5 * abs(hi - lo) / max(ref, 1e-300) + 1e-7 * ref
    tol = min(tol, ref + 5 * abs(hi - lo) ** .5)
    tol += 1e-8 * size
    if not abs(got - ref) <= tol + 1e-14:
        raise Violation(f'{what}: {got!r}, expected {ref!r} (tolerance {tol:.2e})')
    return ref > 3 * tol


def prop_norm(case):
    """Norms, errors, residual norms and inner products of any form against own integrals."""
    spec, key = case['spec'], tuple(case['key'])
    k, o = key
    keys = [key] + ([(k + 1, o)] if k < spec['dim'] else [])
    D = fe.Disc(spec, keys=keys)
    f = D.forms[key]
    F = fe.Field(fe.tame(D, case['field']), D.dim)
    D.set_cf(key, F)
    t0, t1 = case['t']
    els = D.elements
    sg = fe.dof_signs(D, key, els)
    v0, _ = fe.rng_cochains(D, key, case['seed'])
    v1, _ = fe.rng_cochains(D, key, case['seed'] + 1)
    D.set_cf(key, F)
    D.set_cochain(key, t0, v0)
    f[t1].reduce()
    if case['seed'] % 2:
        D.set_cochain(key, t1, v1)
    else:
        v1 = D.get_cochain(key, t1)
    s0 = {e: sg[e] * v0[e] for e in els}
    s1 = {e: sg[e] * v1[e] for e in els}
    p = D.px()
    hi = max(16 if D.dim < 3 else 9, max(p) + 5)
    lo, lo1 = [x + 1 for x in p], [x + 2 for x in p]          # per axis
    pr = lambda vecs, FF, t, nlo=lo: pooled(D, key, vecs, FF, t, hi, nlo)  # noqa
    size = pr(s0, None, t0)[0] ** .5 + pr(s1, None, t1)[0] ** .5
    n = 0
    if D.lib == 'msehtt':     # the quadrature of its mass matrices
        Ms = {e: D.M(key, e) for e in els}
        nm = lambda v: (sum(float(v[e] @ Ms[e] @ v[e]) for e in els), ) * 2  # noqa
    else:
        nm = lambda v: pr({e: sg[e] * v[e] for e in els}, None, t0)  # noqa
    n += within(float(f[t0].norm()), nm(v0), f'the norm of a {o} {k}-form')
    n += within(float(f[t0].error()), pr(s0, F, t0, lo1), f'the L2 error of a {o} {k}-form at t={t0}', size)
    n += within(float(f[t1].error()), pr(s1, F, t1, lo1), f'the L2 error of a {o} {k}-form at t={t1}', size)
    if D.lib == 'msepy':
        diff = {e: s1[e] - s0[e] for e in els}
        within(float(f.norm(t1, diff_to_t=t0)), pr(diff, None, t0), 'the norm of the difference to another time')
        within(float(f.norm_residual(from_time=t0, to_time=t1)), pr(diff, None, t0), 'the norm of a residual')
        within(float(f.norm_residual()), pr(diff, None, t0), 'the norm of the latest residual')
        ip = float(f[t0].inner_product(f[t1])) if D.dim > 1 else None   # not implemented in 1d
        su = {e: s0[e] + s1[e] for e in els}
        a, b = pr(su, None, 0), pr({e: s0[e] - s1[e] for e in els}, None, 0)
        ref = (a[0] - b[0]) / 4
        size = (a[0] + b[0]) / 4
        tol = 5 * (abs(a[0] - a[1]) + abs(b[0] - b[1])) + 1e-8 * size
        require(ip is None or abs(ip - ref) <= tol, f'inner product of two cochains: {ip!r}, expected {ref!r} (tolerance {tol:.1e})')
    else:
        diff = {e: v1[e] - v0[e] for e in els}
        within(float(f.norm_residual(t0, t1)), nm(diff), 'the norm of a residual')
        if D.dim == 2 and k == 1 and isinstance(spec['degree'], int):
            ip = float(f[t0].inner_product(f[t1]))
            su = {e: s0[e] + s1[e] for e in els}
            a, b = pr(su, None, 0), pr({e: s0[e] - s1[e] for e in els}, None, 0)
            ref = (a[0] - b[0]) / 4
            tol = 5 * (abs(a[0] - a[1]) + abs(b[0] - b[1])) + 1e-8 * (a[0] + b[0]) / 4
            require(abs(ip - ref) <= tol, f'inner product of two cochains: {ip!r}, expected {ref!r} (tol {tol:.1e})')
        if k in (0, D.dim):
            m = float(f[t1].mass())
            r = []
            for nn in (hi, lo):
                X, W = fe.quad_grid(D, nn)
                s = 0.
                for e in els:
                    B, det, x = fe.phys_basis(D, key, e, X)
                    s += float(np.sum(np.einsum('i,ic...->c...', s1[e], B)[0] * det * W))
                r.append(s)
            sc = np.sqrt(pr(s1, None, t1)[0] * domain_volume(D))
            tol = 5 * abs(r[0] - r[1]) + 1e-8 * sc
            require(abs(m - r[0]) <= tol, f'the mass (integral) of a {o} {k}-form: {m!r}, expected {r[0]!r}')
    # H1
    if k < D.dim:
        up = (k + 1, o)
        G = F.ext_d(key)
        su = fe.dof_signs(D, up, els)
        for t, v in ((t0, v0), (t1, v1)):
            dv = {e: su[e] * (D.E(key, e) @ v[e]) for e in els}
            dhi, dlo = pooled(D, up, dv, G, t, hi, lo1)
            dsize = size + expected_sq(D, up, {e: abs(D.E(key, e)) @ abs(np.asarray(v[e])) for e in els}, None, t, lo1) ** .5
            if D.lib == 'msepy':
                h1 = float(f.error(t, etype='H1'))
            else:
                d1 = float(f[t].error(error_type='d_L2'))
                within(d1, (dhi, dlo), f'the L2 error of the derivative of a {o} {k}-form at t={t}', dsize)
                h1 = float(f[t].error(error_type='H1'))
            a = pr({e: sg[e] * v[e] for e in els}, F, t, lo1)
            n += within(h1, (a[0] + dhi, a[1] + dlo), f'the H1 error of a {o} {k}-form at t={t}', dsize)
    return {'nontrivial': n >= 2, 'labels': fe.labels(spec) + [f'k{k}']}


# ------------------------------------------------------------------------------------------ exact errors of polynomials
def s_exact():
    S = fe.st()

    @S.composite
    def mk(draw):
        d = draw(S.sampled_from([2, 2, 3, 3, 1]))
        lib = draw(S.sampled_from(['msepy', 'msehtt', 'msehtt'])) if d > 1 else 'msepy'
        mx = {1: 6, 2: 5, 3: 4}[d]
        p = [draw(S.integers(1, mx)) for _ in range(d)]
        if d == 3 and sum(p) > 7:
            p[draw(S.integers(0, 2))] = 1
        lay = [1] * d
        lay[draw(S.integers(0, d - 1))] = draw(S.integers(1, 2))
        mesh = {'type': 'crazy', 'c': 0., 'bounds': [draw(fe.s_interval(False)) for _ in range(d)], 'periodic': False, 'layout': lay}
        k = draw(S.integers(0, d))
        comps = []
        for _ in range(fe.n_components(d, k)):
            comps.append([['p', draw(fe.s_num(-2, 2, 1)), *[draw(S.integers(0, x + 1)) for x in p], draw(S.integers(0, 1))] for _ in range(draw(S.integers(1, 3)))])
        return {'spec': {'lib': lib, 'dim': d, 'mesh': mesh, 'degree': p}, 'key': [k, draw(S.sampled_from([fe.O, fe.I]))],
                'seed': draw(S.integers(0, 10 ** 6)), 't': draw(fe.s_num(0, 1, 2)), 'field': comps, 'size': draw(S.sampled_from([1., 1., .1, 0.]))}
    return mk()


def prop_exact(case):
    """Where the quadratures of the errors are exact (affine elements, polynomials of degree p + 1 at most), so are the errors."""
    spec, key = case['spec'], tuple(case['key'])
    k, o = key
    d = spec['dim']
    up = (k + 1, o)
    D = fe.Disc(spec, keys=[key] + ([up] if k < d else []))
    f, F, t = D.forms[key], fe.Field(case['field'], d), case['t']
    D.set_cf(key, F)
    v = {e: case['size'] * x for e, x in fe.rng_cochains(D, key, case['seed'])[0].items()}
    D.set_cochain(key, t, v)
    sg = fe.dof_signs(D, key, D.elements)
    s = {e: sg[e] * v[e] for e in D.elements}
    n = [x + 4 for x in D.px()]
    zero = fe.Field([[['p', 0., *[0] * (d + 1)]]] * len(case['field']), d)
    none = {e: 0 * x for e, x in s.items()}
    e2 = expected_sq(D, key, s, F, t, n)
    size = expected_sq(D, key, none, F, t, n) ** .5 + expected_sq(D, key, s, zero, t, n) ** .5
    close(float(f[t].error()), e2 ** .5, f'the L2 error of a {o} {k}-form of degrees {spec["degree"]}', 1e-9, 1e-9 * size + 1e-14)
    if D.lib == 'msepy':
        close(float(f[t].norm()), expected_sq(D, key, s, zero, t, n) ** .5, f'the norm of a {o} {k}-form of degrees {spec["degree"]}', 1e-9, 1e-9 * size + 1e-14)
    if k < d:
        su = fe.dof_signs(D, up, D.elements)
        G = F.ext_d(key)
        dv = {e: su[e] * (D.E(key, e) @ v[e]) for e in D.elements}
        h2 = expected_sq(D, up, dv, G, t, n)
        none = {e: 0 * x for e, x in dv.items()}
        dsize = size + expected_sq(D, up, none, G, t, n) ** .5 + expected_sq(
            D, up, {e: abs(D.E(key, e)) @ abs(np.asarray(v[e])) for e in D.elements}, None, t, n) ** .5
        if D.lib == 'msepy':
            got = float(f.error(t, etype='H1'))
        else:
            got = float(f[t].error(error_type='H1'))
            close(float(f[t].error(error_type='d_L2')), h2 ** .5, f'the L2 error of the derivative of a {o} {k}-form', 1e-9, 1e-5 * dsize + 1e-14)     # (numerical derivatives)
        close(got, (e2 + h2) ** .5, f'the H1 error of a {o} {k}-form of degrees {spec["degree"]}', 1e-9, 1e-5 * dsize + 1e-14)     # (numerical derivatives)
    return {'nontrivial': e2 > 1e-12 * size ** 2 and len(set(spec['degree'])) > 1, 'labels': [f'{D.lib} {d}d k{k}']}


SUBS = [
    Sub('mass_matrix', s_mass, prop_mass, 1800, 24000,
        'entries against own integrals, symmetry, positive definiteness; non-trivial with more than one dof'),
    Sub('norms', s_norm, prop_norm, 500, 7000,
        'norms/errors/inner products/integrals of random and reduced cochains; non-trivial if at least two values '
        'exceed their quadrature tolerance'),
    Sub('exact', s_exact, prop_exact, 700, 7000, 'different degrees per axis, an error'),
]
