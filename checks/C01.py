"""C01: the discrete exterior derivative is the exact, metric-free coboundary operator; d.d = 0."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, Violation, require, close

ASSUMPTIONS = ['The local numbering convention of the dofs (documented in the local-numbering code) is the oracle.']


def derivative_table(dim, key):
    """[(component of df, component of f, axis, sign)] of the exterior derivative in the library's proxies."""
    k, o = key
    if dim == 1:
        return [(0, 0, 0, 1)]
    if dim == 2:
        if k == 0:
            return [(0, 0, 0, 1), (1, 0, 1, 1)] if o == fe.I else [(0, 0, 1, 1), (1, 0, 0, -1)]
        return [(0, 1, 0, 1), (0, 0, 1, -1)] if o == fe.I else [(0, 0, 0, 1), (0, 1, 1, 1)]
    if k == 0:
        return [(0, 0, 0, 1), (1, 0, 1, 1), (2, 0, 2, 1)]
    if k == 1:
        return [(0, 2, 1, 1), (0, 1, 2, -1), (1, 0, 2, 1), (1, 2, 0, -1), (2, 1, 0, 1), (2, 0, 1, -1)]
    return [(0, 0, 0, 1), (0, 1, 1, 1), (0, 2, 2, 1)]


def oracle_E(D, key, etype):
    """Stokes on the cells of the reference element."""
    k, o = key
    lo = D.dof_boxes(key, etype)
    hi = D.dof_boxes((k + 1, o), etype)
    idx = {}
    for i, d in enumerate(lo):
        idx[d] = i
    E = np.zeros((len(hi), len(lo)))
    tab = derivative_table(D.dim, key)
    for r, (c1, cell) in enumerate(hi):
        for a, b, ax, s in tab:
            if a != c1:
                continue
            i = cell[ax][1]
            assert cell[ax][0] == 'e'
            for node, sg in ((i + 1, 1), (i, -1)):
                fc = tuple(('n', node) if x == ax else cell[x] for x in range(D.dim))
                j = idx.get((b, fc))
                if j is None and etype == 'tri' and fc[0] == ('n', 0):
                    if k == 0:   # the collapsed edge is a single node
                        j = idx[(0, (('n', 0), ('n', 0)))]
                    else:        # an edge of no length
                        continue
                E[r, j] += s * sg
    return E


def s_case(dims=(1, 2, 3)):
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=dims, maxp=(7, 5, 3), maxn=(6, 4, 3)))
        return {'spec': spec, 'o': draw(S.sampled_from([fe.O, fe.I])), 'seed': draw(S.integers(0, 10 ** 6)),
                't': draw(fe.s_time())}
    return mk()


def prop_matrix(case):
    spec, o = case['spec'], case['o']
    d = spec['dim']
    D = fe.Disc(spec, keys=[(k, o) for k in range(d + 1)])
    r = np.random.default_rng(case['seed'])
    els = [D.elements[i] for i in r.choice(len(D.elements), min(4, len(D.elements)), replace=False)]
    sg = {k: fe.dof_signs(D, (k, o), els) for k in range(d + 1)}
    for e in els:
        prev = None
        for k in range(d):
            E = D.E((k, o), e)
            nz = set(np.unique(E))
            require(nz <= {-1., 0., 1.}, f'incidence matrix of {k}-forms in element {e} has entries {sorted(nz)}')
            ex = oracle_E(D, (k, o), D.etype(e))
            require(E.shape == ex.shape, f'incidence matrix of {k}-forms: shape {E.shape}, expected {ex.shape}')
            ex = sg[k + 1][e][:, None] * ex * sg[k][e][None, :]
            if not np.array_equal(E, ex):
                i, j = np.argwhere(E != ex)[0]
                raise Violation(f'incidence matrix of {o} {k}-forms in element {e}: entry ({i}, {j}) is {E[i, j]}, '
                                f'Stokes says {ex[i, j]}')
            if prev is not None:
                require(not np.any(E @ prev), f'd d is not zero on {o} {k - 1}-forms in element {e}')
            prev = E
    return {'nontrivial': d > 1 and min(D.px()) >= 1, 'labels': fe.labels(spec)}


def prop_forms(case):
    """d of a form (any cochain history) is the coboundary of its cochain; d(d f) = 0; conformity is kept."""
    spec, o, t = case['spec'], case['o'], case['t']
    d = spec['dim']
    r = np.random.default_rng(case['seed'])
    keys = [(k, o) for k in range(d + 1)]
    D = fe.Disc(spec, keys=keys)
    k = int(r.integers(0, d))
    key = (k, o)
    vecs = {}
    times = [t, round(t + 0.5, 3)]
    for n, tt in enumerate(times):
        v, g = fe.rng_cochains(D, key, case['seed'] + n)
        vecs[tt] = v
        D.set_cochain(key, tt, v)
    f = D.forms[key]
    df = f.d()
    gm1, n1 = D.gm((k + 1, o))
    for tt in times:
        ref = {e: D.E(key, e) @ vecs[tt][e] for e in D.elements}
        got = D.get_cochain(None, tt, form=df)
        for e in D.elements:
            close(got[e], ref[e], f'cochain of d of a {o} {k}-form at t={tt}, element {e}', 1e-12, 1e-12)
        if D.lib == 'msepy':
            cb = f.coboundary[tt].cochain.local
            for e in D.elements:
                close(cb[e], ref[e], f'coboundary of a {o} {k}-form at t={tt}, element {e}', 1e-12, 1e-12)
            close(f.matrix.incidence[0].toarray() if hasattr(f.matrix.incidence[0], 'toarray') else D.E(key),
                  D.E(key), 'matrix.incidence', 0, 0)
        else:
            cb = f[tt].coboundary()
            for e in D.elements:
                close(cb[e], ref[e], f'coboundary of a {o} {k}-form at t={tt}, element {e}', 1e-12, 1e-12)
        # conformity: the elements agree about the values of the dofs they share
        val = {}
        for e in D.elements:
            for i, g in enumerate(gm1[e]):
                g = int(g)
                if g in val and abs(val[g] - ref[e][i]) > 1e-11:
                    raise Violation(f'the coboundary of a conforming {o} {k}-cochain is not conforming: global dof {g}'
                                    f' is {val[g]!r} or {ref[e][i]!r} (element {e})')
                val[g] = ref[e][i]
        if k + 2 <= d:
            D.set_cochain((k + 1, o), tt, got)
            ddf = D.get_cochain(None, tt, form=D.forms[(k + 1, o)].d())
            m = max(np.max(np.abs(ddf[e])) for e in D.elements)
            require(m < 1e-11, f'd d of a {o} {k}-form is {m:.2e}')
    return {'nontrivial': len(D.elements) > 1, 'labels': fe.labels(spec) + [f'k{k}']}


SUBS = [
    Sub('matrix', s_case, prop_matrix, 4000, 60000,
        'random mesh/degree/orientation; non-trivial in 2 and 3 dimensions (a chain of more than one derivative)'),
    Sub('forms', s_case, prop_forms, 3000, 40000,
        'random global cochains at two times; non-trivial with at least two elements'),
]
