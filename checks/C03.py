"""C03: reduction and reconstruction are mutually inverse de Rham maps, exact on polynomials."""
import numpy as np

from lib import fe
from lib.core import Sub, Violation, require, close

ASSUMPTIONS = ['The element mapping of the code is taken as the geometry (it is checked by C06).',
               'The default quadrature of a reduction has at least p + 1 nodes per axis.']


def s_reduce(libs=('msepy', 'msehtt'), dims=(1, 2, 3)):
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(libs=libs, dims=dims, maxp=(5, 4, 3), maxn=(4, 3, 2)))
        d = spec['dim']
        k = draw(S.integers(0, d))
        o = draw(S.sampled_from([fe.O, fe.I]))
        nc = fe.n_components(d, k)
        return {'spec': spec, 'key': [k, o], 'field': draw(fe.s_field(d, nc)), 't': draw(fe.s_time()),
                'pick': draw(S.integers(0, 10 ** 6)), 'q': draw(S.sampled_from([None, None, 2, 4]))}
    return mk()


def pick(D, seed, n):
    r = np.random.default_rng(seed)
    E = D.elements
    return [E[i] for i in sorted(r.choice(len(E), size=min(n, len(E)), replace=False))]


def length(D, e):
    """A length scale of the element."""
    g = np.meshgrid(*[np.array([-1., 1.])] * D.dim, indexing='ij')
    x = D.map(e, *g)
    return max(float(np.ptp(c)) for c in x)


def prop_reduce(case):
    """Every degree of freedom is the integral of the field over its geometric object."""
    spec = case['spec']
    key = tuple(case['key'])
    D = fe.Disc(spec, keys=[key])
    F = fe.Field(fe.tame(D, case['field']), D.dim)
    t = case['t']
    D.set_cf(key, F)
    f = D.forms[key]
    p = D.px()
    if D.lib == 'msepy' and case['q'] is not None and key[0] > 0:
        qd = tuple(x + case['q'] for x in p)
        f[t].reduce(quad_degree=qd if D.dim > 1 else qd)
        nlo = min(p) + case['q']
    else:
        f[t].reduce()
        nlo = min(p) + 1
    c = D.get_cochain(key, t)
    els = pick(D, case['pick'], 3)
    sg = fe.dof_signs(D, key, els)
    # reduce again: dof_signs may have replaced the cochain of t=0
    n = 0
    for e in els:
        dofs = D.dof_boxes(key, D.etype(e))
        require(len(c[e]) == len(dofs), f'element {e}: {len(c[e])} local dofs, expected {len(dofs)}')
        L = length(D, e)
        ids = range(len(dofs)) if len(dofs) <= 24 else np.random.default_rng(case['pick'] + 1).choice(
            len(dofs), 24, replace=False)
        his = {i: fe.integrate_dof(D, e, key, dofs[i], F, t, 20 if D.dim < 3 else 14) for i in ids}
        los = {i: fe.integrate_dof(D, e, key, dofs[i], F, t, nlo - 1) for i in ids}
        qerr = max(abs(his[i] - los[i]) for i in ids)
        for i in ids:
            hi = his[i]
            tol = 20 * qerr + 1e-9 * (abs(hi) + L ** key[0])
            got = sg[e][i] * c[e][i]
            if not abs(got - hi) <= tol:
                raise Violation(f'dof {i} {dofs[i]} of {key} in element {e}: {got!r}, the integral is {hi!r} '
                                f'(tolerance {tol:.2e})')
            n += abs(hi) > 1e-3 * L ** key[0]
    return {'nontrivial': n >= 2, 'labels': fe.labels(spec) + [f'k{key[0]}']}


def s_recon():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(6, 4, 3), maxn=(4, 3, 2)))
        d = spec['dim']
        if spec['lib'] == 'msehtt' and d == 3:   # reconstruct: not implemented on curvilinear hexahedra
            spec['mesh']['c'] = 0.
        return {'spec': spec, 'key': [draw(S.integers(0, d)), draw(S.sampled_from([fe.O, fe.I]))],
                'seed': draw(S.integers(0, 10 ** 6)), 't': draw(fe.s_time())}
    return mk()


def prop_recon(case):
    """The reconstruction of any cochain is the expansion in the nodal/edge basis: integrating it over the geometric
    object of a dof returns the dof, and its values are those of an independently computed expansion."""
    spec = case['spec']
    key = tuple(case['key'])
    D = fe.Disc(spec, keys=[key])
    t = case['t']
    r = np.random.default_rng(case['seed'])
    els = pick(D, case['seed'], 3)
    sg = fe.dof_signs(D, key, els)
    vec = {e: r.uniform(-1, 1, D.n_local(key, e)) for e in D.elements}
    D.set_cochain(key, t, vec)
    got = D.get_cochain(key, t)
    for e in D.elements:
        close(got[e], vec[e], f'the cochain read back in element {e}', rtol=0, atol=0)
    X = [np.sort(r.uniform(-1, 1, r.integers(1, 5))) for _ in range(D.dim)]
    if any(D.etype(e) == 'tri' for e in els):
        X[0] = np.clip(X[0], -0.9, 1)
    if r.random() < 0.3:
        X = [np.array([-1., *x, 1.]) for x in X]
        if D.spec['lib'] == 'msehtt':
            X[0] = X[0][1:]
    rec = D.recon(key, t, *X)
    G = np.meshgrid(*X, indexing='ij')
    for e in els:
        x, v = rec[e]
        xm = D.map(e, *G)
        for a in range(D.dim):
            close(np.ravel(x[a]), np.ravel(xm[a]), f'coordinates of the reconstruction, element {e}', 1e-12, 1e-12)
            require(np.shape(x[a]) == G[0].shape, f'shape of the reconstruction {np.shape(x[a])}, expected {G[0].shape}')
        B, _, _ = fe.phys_basis(D, key, e, X)
        ex = np.einsum('i,ic...->c...', vec[e] * sg[e], B)
        sc = float(np.max(np.einsum('i,ic...->c...', np.abs(vec[e]), np.abs(B))))
        require(len(v) == ex.shape[0], f'{len(v)} components, expected {ex.shape[0]}')
        for c in range(len(v)):
            close(v[c], ex[c], f'component {c} of the reconstruction of {key} in element {e}', 1e-8, 1e-9 * sc)
    # histopolation in one element through the reconstruction itself
    e = els[0]
    if D.etype(e) == 'box':
        dofs = D.dof_boxes(key)
        for i in r.choice(len(dofs), min(4, len(dofs)), replace=False):
            comp, cell = dofs[i]
            Y, W = fe.cell_points(D.nodes(), cell, max(D.px()) + 2)
            _, v = D.recon(key, t, *Y)[e]
            GG = np.meshgrid(*Y, indexing='ij')
            J = D.jac_fd(e, *GG)
            Wt = W[0]
            for w in W[1:]:
                Wt = np.multiply.outer(Wt, w)
            val = float(np.sum(fe.pullback(D.dim, key, J, v)[comp] * Wt))
            close(val, vec[e][i] * sg[e][i], f'integral of the reconstruction over dof {i} {dofs[i]} of {key} in '
                                             f'element {e}', 1e-8, 1e-8, scale=1)
    return {'nontrivial': len(vec[els[0]]) > 1, 'labels': fe.labels(spec) + [f'k{key[0]}']}


def s_poly():
    S = fe.st()

    @S.composite
    def mk(draw):
        lib = draw(S.sampled_from(['msepy', 'msehtt']))
        spec = draw(fe.s_spec(libs=(lib,), maxp=(6, 4, 3), maxn=(4, 3, 2), periodic=(False,),
                              types={'msepy': None, ('msepy', 1): ['crazy'], ('msepy', 2): ['crazy', 'crazy_multi',
                                     'backward_step'], ('msepy', 3): ['crazy', 'backward_step'],
                                     ('msehtt', 2): ['crazy', 'ts', 'backward_step', 'crazy_multi', 'ren', 'quad', 'data-quad'],
                                     ('msehtt', 3): ['crazy']}))
        d = spec['dim']
        m = spec['mesh']
        if 'c' in m:
            m['c'] = 0.
        k = draw(S.integers(0, d))
        nc = fe.n_components(d, k)
        p = min(fe.degree_p(spec))
        deg = p if k == 0 else p - 1
        if m['type'] in ('quad', 'data'):   # bilinear elements: the constants only (outer/inner 1-forms, 0-forms)
            deg = 0
            if k == 2:
                k = 0
        return {'spec': spec, 'key': [k, draw(S.sampled_from([fe.O, fe.I]))],
                'field': draw(fe.s_field(d, fe.n_components(d, k), poly=deg)), 't': draw(fe.s_time()),
                'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_poly(case):
    """Polynomials of the space are reproduced exactly; the reported error is round-off."""
    spec = case['spec']
    key = tuple(case['key'])
    D = fe.Disc(spec, keys=[key])
    F = fe.Field(case['field'], D.dim)
    t = case['t']
    D.reduce(key, F, t)
    r = np.random.default_rng(case['seed'])
    X = [np.sort(r.uniform(-1, 1, 4)) for _ in range(D.dim)]
    rec = D.recon(key, t, *X)
    big = 0.
    for e in D.elements:
        x, v = rec[e]
        for c in range(len(v)):
            ex = F.ev(c, t, *x)
            big = max(big, float(np.max(np.abs(ex))))
    for e in D.elements:
        x, v = rec[e]
        for c in range(len(v)):
            close(v[c], F.ev(c, t, *x), f'reconstruction of a polynomial, component {c}, element {e}', 1e-8, 1e-9,
                  scale=big)
    err = float(D.forms[key][t].error())
    vol = domain_volume(D)
    require(err <= 1e-7 * (1e-3 + big) * max(vol ** 0.5, 1e-12),
            f'the L2 error of a polynomial of the space is {err:.3e} (field size {big:.2e}, volume {vol:.2e})')
    return {'nontrivial': big > 1e-6, 'labels': fe.labels(spec) + [f'k{key[0]}']}


def domain_volume(D):
    v = 0.
    X, W = fe.quad_grid(D, 4)
    G = np.meshgrid(*X, indexing='ij')
    for e in D.elements:
        v += float(np.sum(fe.det_(D.jac_fd(e, *G)) * W))
    return v


def s_history():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(4, 3, 2), maxn=(3, 2, 2)))
        d, m = spec['dim'], spec['mesh']
        key = [draw(S.integers(0, d)), draw(S.sampled_from([fe.O, fe.I]))]
        nc = fe.n_components(d, key[0])
        m3 = spec['lib'] == 'msehtt' and d == 3 and m.get('c')
        fine = spec['lib'] == 'msepy' or (m['type'] in ('crazy', 'crazy_multi', 'backward_step', 'quad', 'rectangle')
                                          and not m.get('trf') and not m.get('ts'))
        if key[0] == 2 and m['type'] in ('quad', 'rectangle'):
            fine = False
        ops = ['reduce', 'reduce'] + ([] if m3 else ['recon']) + (['matrix'] if fine else [])
        t = S.sampled_from([0, 1.25])
        op = S.one_of(*[{
            'reduce': S.tuples(S.just('reduce'), t, S.integers(0, 1), S.sampled_from([None, 2, 4, 7]),
                               S.sampled_from(['own', 'own', 'keep', 'target'])),
            'recon': S.tuples(S.just('recon'), t, S.integers(0, 2), S.booleans(), S.booleans()),
            'matrix': S.tuples(S.just('matrix'), S.integers(0, 2), S.booleans())}[o] for o in ops])
        return {'spec': spec, 'key': key, 'fields': [draw(fe.s_field(d, nc)) for _ in range(2)],
                'ops': draw(S.lists(op.map(list), min_size=2, max_size=8)), 'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_history(case):
    """Reductions with different quadratures/targets, reconstructions (raveled, of some elements) and reconstruction
    matrices in any order on one form: every result is that of the same call on a new form."""
    spec, key = case['spec'], tuple(case['key'])
    D = fe.Disc(spec, keys=[key])
    f = D.forms[key]
    r = np.random.default_rng(case['seed'])
    Fs = [fe.Field(fe.tame(D, c), D.dim) for c in case['fields']]
    els = pick(D, case['seed'], 2)
    sg = fe.dof_signs(D, key, els)
    model = {}      # time -> {element: cochain}
    if D.lib == 'msepy':
        f.cochain.clean('all') if len(f.cochain) else None
    else:
        f.cochain.clean('all')
    pts = [[np.sort(r.uniform(-0.95, 1, int(r.integers(1, 4)))) for _ in range(D.dim)] for _ in range(3)]
    n = 0

    def dofs_of(F, t, q):
        out, tol = {}, {}
        for e in els:
            dofs = D.dof_boxes(key, D.etype(e))
            hi = np.array([fe.integrate_dof(D, e, key, x, F, t, 20 if D.dim < 3 else 12) for x in dofs])
            lo = np.array([fe.integrate_dof(D, e, key, x, F, t, q) for x in dofs])
            out[e] = hi
            tol[e] = 20 * float(np.max(np.abs(hi - lo))) + 1e-9 * (np.max(np.abs(hi)) + length(D, e) ** key[0])
        return out, tol

    for op in case['ops']:
        if op[0] == 'reduce':
            _, t, i, q, mode = op
            F = Fs[i]
            vc = F.vc(D.dim, key)
            kw = {}
            nq = min(D.px())
            if D.lib == 'msepy' and q is not None and key[0] > 0:
                kw['quad_degree'] = tuple(x + q for x in D.px())
                nq += q - 1
            if D.lib == 'msepy':
                if mode == 'target':
                    f.cf = Fs[1 - i].vc(D.dim, key)
                    kw['target'] = vc
                else:
                    f.cf = vc
                got = f.reduce(t, update_cochain=mode != 'keep', **kw)
                got = {e: np.asarray(got[e]) for e in els}
                upd = mode != 'keep'
            elif mode == 'target':
                f.cf = vc
                cf = f.cf[t]
                f.cf = Fs[1 - i].vc(D.dim, key)
                f[t].reduce(cf)
                got, upd = D.get_cochain(key, t), True
            elif mode == 'keep':
                f.cf = vc
                got, upd = f.reduce(f.cf[t]), False
            else:
                f.cf = vc
                f[t].reduce()
                got, upd = D.get_cochain(key, t), True
            want, tol = dofs_of(F, t, max(1, nq))
            for e in els:
                dev = float(np.max(np.abs(np.asarray(got[e]) * sg[e] - want[e])))
                require(dev <= tol[e], f'{op}: the reduction deviates from the integrals by {dev:.2e} in element {e} '
                                       f'(tolerance {tol[e]:.2e})')
            if upd:
                model[t] = {e: np.array(v) for e, v in D.get_cochain(key, t).items()}
                for e in els:
                    close(model[t][e], got[e], f'{op}: the cochain in element {e}', 1e-14, 0)
                n += 1
            for s in model:
                have = D.get_cochain(key, s)
                for e in D.elements:
                    close(have[e], model[s][e], f'{op}: the cochain at t={s} in element {e}', 0, 0)
        elif op[0] == 'recon':
            _, t, i, ravel, some = op
            if t not in model:
                continue
            X = pts[i]
            kw = {}
            if D.dim > 1:
                kw['ravel'] = ravel
            if D.lib == 'msehtt' and some:
                kw['element_range'] = els
            x, v = f[t].reconstruct(*[a.copy() for a in X], **kw)
            G = np.meshgrid(*X, indexing='ij')
            for e in els:
                B, _, xm = fe.phys_basis(D, key, e, X)
                ex = np.einsum('i,ic...->c...', model[t][e] * sg[e], B)
                shp = (lambda a: a.ravel('F')) if (ravel and D.dim > 1) else (lambda a: a)
                for a in range(D.dim):
                    close(np.asarray(x[a][e]), shp(xm[a]), f'{op}: coordinate {a} in element {e}', 1e-11, 1e-11)
                sc = float(np.max(np.abs(B)) * np.max(np.abs(model[t][e])))
                for c in range(len(v)):
                    close(np.asarray(v[c][e]), shp(ex[c]), f'{op}: component {c} in element {e}', 1e-8, 1e-9 * sc + 1e-12)
            if kw.get('element_range') is not None:
                require(sorted(v[0]) == sorted(els), f'{op}: elements {sorted(v[0])} instead of {els}')
        else:
            _, i, some = op
            X = pts[i]
            if D.lib == 'msepy':
                rm = f.reconstruction_matrix(*[a.copy() for a in X], element_range=list(els) if some else None)
                rm = {e: list(rm[e]) for e in els}
            else:
                rm = f.reconstruction_matrix(*[a.copy() for a in X])
                if not isinstance(rm, (list, tuple)):
                    rm = (rm,)
                rm = {e: [m[e] for m in rm] for e in els}
            for e in els:
                B, _, _ = fe.phys_basis(D, key, e, X)
                require(len(rm[e]) == B.shape[1], f'{len(rm[e])} reconstruction matrices, expected {B.shape[1]}')
                for c in range(B.shape[1]):
                    ex = np.array([(b * s).ravel('F') for b, s in zip(B[:, c], sg[e])]).T
                    M = rm[e][c]
                    M = M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
                    close(M, ex, f'{op}: reconstruction matrix {c} of {key} in element {e}', 1e-8,
                          1e-9 * float(np.max(np.abs(B))))
            n += 1
    return {'nontrivial': n >= 2, 'labels': fe.labels(spec) + [f'k{key[0]}'] + sorted({o[0] for o in case['ops']})}


SUBS = [
    Sub('history', s_history, prop_history, 1200, 20000,
        'sequences of reductions (quadratures, targets), reconstructions, reconstruction matrices on one form; '
        'non-trivial with at least two reductions or matrices'),
    Sub('dofs_are_integrals', s_reduce, prop_reduce, 1600, 30000,
        'random mesh/degree/space and field; non-trivial if at least two dofs of the sampled elements are not tiny'),
    Sub('reconstruct_basis', s_recon, prop_recon, 2000, 40000,
        'random mesh/degree/space and random cochain; non-trivial with more than one local dof'),
    Sub('polynomial_exactness', s_poly, prop_poly, 1600, 30000,
        'affine meshes, polynomial fields; non-trivial if the field is not tiny'),
]
