"""C02: reduction commutes with the exterior derivative: reduce(d F) = E reduce(F)."""
import numpy as np

from lib import fe
from lib.core import Sub, Violation, require, close
from checks.C03 import pick, length

ASSUMPTIONS = ['The element mapping of the code is taken as the geometry (it is checked by C06).']


def s_smooth():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(6, 5, 3), maxn=(5, 3, 2)))
        d = spec['dim']
        k = draw(S.integers(0, d - 1))
        return {'spec': spec, 'key': [k, draw(S.sampled_from([fe.O, fe.I]))],
                'field': draw(fe.s_field(d, fe.n_components(d, k))), 't': draw(fe.s_time()),
                'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_smooth(case):
    spec, t = case['spec'], case['t']
    key = tuple(case['key'])
    up = (key[0] + 1, key[1])
    D = fe.Disc(spec, keys=[key, up])
    F = fe.Field(fe.tame(D, case['field']), D.dim)
    G = F.ext_d(key)
    a = D.reduce(key, F, t)
    b = D.reduce(up, G, t)
    els = pick(D, case['seed'], 2)
    n = 0
    nlo = min(D.px())
    for e in els:
        E = D.E(key, e)
        L = length(D, e)
        lo, hi = D.dof_boxes(key, D.etype(e)), D.dof_boxes(up, D.etype(e))
        rows = range(len(hi)) if len(hi) <= 16 else np.random.default_rng(case['seed']).choice(len(hi), 16, False)
        q = 0.
        for i in rows:
            q = max(q, abs(fe.integrate_dof(D, e, up, hi[i], G, t, 16) - fe.integrate_dof(D, e, up, hi[i], G, t, nlo)))
        if key[0] > 0:
            for j in sorted(set(int(j) for i in rows for j in np.nonzero(E[i])[0]))[:30]:
                q = max(q, abs(fe.integrate_dof(D, e, key, lo[j], F, t, 16) -
                               fe.integrate_dof(D, e, key, lo[j], F, t, nlo)))
        lhs = E @ a[e]
        for i in rows:
            tol = 60 * q + 1e-9 * (np.max(np.abs(a[e])) + np.max(np.abs(b[e])) + L ** up[0] * 1e-3)
            if not abs(lhs[i] - b[e][i]) <= tol:
                raise Violation(f'{key} in element {e}, dof {i} {hi[i]}: the coboundary of the reduction is {lhs[i]!r}, '
                                f'the reduction of the derivative {b[e][i]!r} (tolerance {tol:.2e})')
            n += abs(lhs[i]) > 1e3 * tol
    return {'nontrivial': n > 0, 'labels': fe.labels(spec) + [f'k{key[0]}']}


def s_cf():
    S = fe.st()

    @S.composite
    def mk(draw):
        lib = draw(S.sampled_from(['msepy', 'msehtt']))
        d = draw(S.integers(1 if lib == 'msepy' else 2, 3))
        m = {'type': 'crazy', 'c': draw(S.sampled_from([0., 0.1])) if lib == 'msepy' or d == 2 else 0.,
             'bounds': [draw(fe.s_interval(False)) for _ in range(d)],
             'periodic': False, 'layout': draw(fe.s_layout(d, 2))}
        k = draw(S.integers(0, d - 1))
        key = [k, draw(S.sampled_from([fe.O, fe.I]))]
        return {'spec': {'lib': lib, 'dim': d, 'mesh': m, 'degree': draw(S.integers(1, 3))}, 'key': key,
                'field': draw(fe.s_field(d, fe.n_components(d, k))), 't': draw(s_times()),
                'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def s_times():
    S = fe.st()
    return S.lists(fe.s_num(0, 3, 2), min_size=1, max_size=3, unique=True)


def prop_cf(case):
    """The continuous counterpart: d of a form carries d of its field; d of the discrete form approximates it as well
    as the reduction of the derivative, at every time with a cochain."""
    spec = case['spec']
    key = tuple(case['key'])
    up = (key[0] + 1, key[1])
    D = fe.Disc(spec, keys=[key, up])
    F = fe.Field(fe.tame(D, case['field']), D.dim)
    G = F.ext_d(key)
    f = D.forms[key]
    D.set_cf(key, F)
    for t in case['t']:
        f[t].reduce()
    r = np.random.default_rng(case['seed'])
    dcf = f.cf.exterior_derivative()
    x = [r.uniform(b[0] + .05 * (b[1] - b[0]), b[1] - .05 * (b[1] - b[0]), 5) for b in spec['mesh']['bounds']]
    nc = fe.n_components(D.dim, up[0])
    for t in case['t']:
        v = eval_cf(dcf, t, x, spec)
        require(len(v) == nc, f'the derivative of the field has {len(v)} components, expected {nc}')
        for c in range(nc):
            ex = G.ev(c, t, *x)
            sc = max(abs(tm[1]) for cc in F.comps for tm in cc)
            close(np.broadcast_to(v[c], ex.shape), ex, f'component {c} of the derivative of the continuous field', 1e-5,
                  1e-6, scale=sc)
    df = f.d()
    D.set_cf(up, G)
    if D.lib == 'msehtt':
        D.set_cf(up, G, form=df)
    g = D.forms[up]
    for t in case['t']:
        g[t].reduce()
        e1, e2 = float(df[t].error()), float(g[t].error())
        big = max(abs(tm[1]) for cc in F.comps + G.comps for tm in cc) if any(G.comps) else 1.
        vol = np.prod([b[1] - b[0] for b in spec['mesh']['bounds']]) ** .5
        p = spec['degree']
        if not e1 <= e2 * 3 + 0.02 * big * vol:
            raise Violation(f't={t}: the L2 error of d f is {e1:.3e}, of the reduction of the derivative {e2:.3e} '
                            f'(p={p})')
        if not abs(e1 - e2) <= 0.3 * max(e1, e2) + 2e-4 * big * vol:
            raise Violation(f't={t}: the L2 errors {e1:.4e} of d f and {e2:.4e} of the reduction of the derivative '
                            f'disagree')
    return {'nontrivial': any(G.comps), 'labels': fe.labels(spec) + [f'k{key[0]}']}


def eval_cf(cf, t, x, spec):
    from lib import boot
    c = cf
    if isinstance(c, dict):       # a field per region
        c = c[sorted(c)[0]]
    v = c(t, *x) if not hasattr(c, 'field') else None
    if v is None:
        fl = c.field
        fl = fl[sorted(fl)[0]] if isinstance(fl, dict) else fl
        v = fl(t, *x)
    if isinstance(v, np.ndarray) and v.ndim == 1:
        return [v]
    return [np.asarray(_) for _ in v]


def s_exact():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(maxp=(6, 5, 3), maxn=(5, 3, 2), periodic=(False,),
                              types={('msepy', 1): ['crazy'], ('msepy', 2): ['crazy', 'crazy_multi', 'backward_step'],
                                     ('msepy', 3): ['crazy', 'backward_step'],
                                     ('msehtt', 2): ['crazy', 'ts', 'ren', 'backward_step', 'crazy_multi', 'quad', 'data-quad', 'data-split'],
                                     ('msehtt', 3): ['crazy']}))
        if 'c' in spec['mesh']:
            spec['mesh']['c'] = 0.
        d = spec['dim']
        k = draw(S.integers(0, d - 1))
        p = min(fe.degree_p(spec))
        # exact with Gauss/Lobatto rules of p + 1 nodes per axis (and the bilinear maps of a quad)
        deg = 1 if spec['mesh']['type'] in ('quad', 'data') else min(p, 4)
        return {'spec': spec, 'key': [k, draw(S.sampled_from([fe.O, fe.I]))],
                'field': draw(fe.s_field(d, fe.n_components(d, k), poly=deg)), 't': draw(fe.s_time())}
    return mk()


def prop_exact(case):
    """On affine meshes, for polynomial fields: exactly, in all the elements."""
    spec, t = case['spec'], case['t']
    key = tuple(case['key'])
    up = (key[0] + 1, key[1])
    D = fe.Disc(spec, keys=[key, up])
    F = fe.Field(case['field'], D.dim)
    G = F.ext_d(key)
    a = D.reduce(key, F, t)
    b = D.reduce(up, G, t)
    if spec['mesh']['type'] in ('quad', 'data') and spec['degree'] < 2:
        return {'nontrivial': False}
    sc = max(np.max(np.abs(a[e])) for e in D.elements)
    big = 0.
    for e in D.elements:
        E = D.E(key, e)
        big = max(big, np.max(np.abs(E @ a[e])))
        close(E @ a[e], b[e], f'{key} in element {e}: coboundary of the reduction vs reduction of the derivative', 1e-8,
              1e-9, scale=sc)
    return {'nontrivial': big > 1e-8, 'labels': fe.labels(spec) + [f'k{key[0]}']}


SUBS = [
    Sub('smooth', s_smooth, prop_smooth, 1600, 20000,
        'any mesh, smooth fields; non-trivial if a derivative is well above the quadrature tolerance'),
    Sub('exact', s_exact, prop_exact, 2000, 24000,
        'affine (and bilinear) meshes, polynomial fields; non-trivial if the derivative does not vanish'),
    Sub('continuous', s_cf, prop_cf, 800, 10000,
        'd of the form and d of its continuous field at several times; non-trivial if the derivative is not zero'),
]
