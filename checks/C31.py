"""C31: bundle-valued forms are their rows of scalar-valued forms; wedge, Hodge and projection matrices."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, close, require

ASSUMPTIONS = ['The scalar-valued spaces are the reference of the rows (they are checked by C01-C05).',
               'Bundle spaces exist in msepy only; in 1D they are not usable.']


def moderate(spec):
    """Sides of similar lengths: with extreme aspect ratios the mass matrices are too badly conditioned to compare."""
    b = spec['mesh'].get('bounds')
    if b:
        n = max(y - x for x, y in b)
        spec['mesh']['bounds'] = [[x, y] if y - x > n / 20 else [x, x + n / 2] for x, y in b]
    return spec


# ----------------------------------------------------------------------------------------------------- rows
def s_rows():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = moderate(draw(fe.s_spec(libs=('msepy',), dims=(2, 2, 3), maxp=(3, 3, 2), maxn=(3, 3, 2), custom=False)))
        d = spec['dim']
        maxp = 3 if d == 2 else 2
        spec['degree'] = draw(S.integers(1, maxp))
        deg = draw(S.one_of(S.integers(1, maxp),
                            S.lists(S.lists(S.integers(1, maxp), min_size=d, max_size=d), min_size=d, max_size=d)))
        k = draw(S.integers(0, d))
        nc = fe.n_components(d, k)
        return {'spec': spec, 'key': [k, draw(S.sampled_from([fe.O, fe.I]))], 'deg': deg,
                'high': draw(S.booleans()), 't': draw(fe.s_time()), 'seed': draw(S.integers(0, 10 ** 6)),
                'fields': [draw(fe.s_field(d, nc)) for _ in range(d)]}
    return mk()


def field_of(D, key, Fs):
    """The vector (k = 0, n) or tensor valued function whose rows are the fields."""
    ph = boot.phyem()
    if key[0] in (0, D.dim):
        return ph.vc.vector(*[fe._closure(F, 0, D.dim) for F in Fs])
    return ph.vc.tensor(*[fe._closure(F, j, D.dim) for F in Fs for j in range(D.dim)])


class Bundle:
    def __init__(self, case):
        ph = boot.phyem()
        self.case = case
        self.d = d = case['spec']['dim']
        self.k, self.o = k, o = case['key']
        self.rows = [(case['deg'],) * d] * d if isinstance(case['deg'], int) else [tuple(r) for r in case['deg']]
        self.key = (k, o)
        keys = [(k, o)] + ([(k + 1, o)] if k < d else [])

        def abstract(D):
            out = {}
            for key in keys:
                sp = ph.space.new('bundle', key[0], orientation=o)
                out[f'b{key[0]}'] = sp.make_form(f'b{key[0]}', f'lin-b{key[0]}')
                ph.space.finite(case['deg'], spaces=[sp])
            return out

        ph.config.set_high_accuracy(bool(case['high']))
        self.D = D = fe.Disc(case['spec'], keys=keys, make_abstract=abstract)
        ph.config.set_high_accuracy(bool(case['high']))
        self.b = D.impl.base['forms'][f'lin-b{k}']
        self.bd = D.impl.base['forms'][f'lin-b{k + 1}'] if k < d else None

    def lam(self, key=None):
        return self.D.forms[self.key if key is None else key].space


def partition(rows):
    """Canonical renumbering of an array of ids, by first occurrence."""
    seen = {}
    return [[seen.setdefault(x, len(seen)) for x in r] for r in rows]


def _stack(parts):
    n = [p.shape[0] for p in parts]
    m = [p.shape[1] for p in parts]
    A = np.zeros((sum(n), sum(m)))
    i = j = 0
    for p in parts:
        A[i:i + p.shape[0], j:j + p.shape[1]] = p
        i += p.shape[0]
        j += p.shape[1]
    return A


def prop_rows(case):
    B = Bundle(case)
    try:
        return _rows(case, B)
    finally:
        boot.phyem().config.set_high_accuracy(True)


def _rows(case, B):
    D, d, key, k, o = B.D, B.d, B.key, B.k, B.o
    b, deg, rows, t = B.b, case['deg'], B.rows, case['t']
    L = B.lam()
    nel = len(D.elements)
    # -- numbering
    nl = [int(L.num_local_dofs(r)) for r in rows]
    require(int(b.space.num_local_dofs(deg)) == sum(nl), f'{b.space.num_local_dofs(deg)} local dofs, rows have {nl}',
            key='local dofs')
    off = np.concatenate([[0], np.cumsum(nl)]).astype(int)
    comp = b.space.num_local_dof_components(deg)
    num = b.space.local_numbering(deg)
    for i, r in enumerate(rows):
        lc, ln = L.num_local_dof_components(r), L.local_numbering(r)
        bc = comp[i] if isinstance(comp[i], (list, tuple)) else [comp[i]]
        require([int(_) for _ in bc] == [int(_) for _ in lc], f'row {i}: components {comp[i]}, the row has {lc}',
                key='components')
        bn = num[i] if isinstance(num[i], (list, tuple)) else [num[i]]
        require(len(bn) == len(ln) and all(np.array_equal(np.array(x), np.array(y) + off[i]) for x, y in zip(bn, ln)),
                f'row {i}: the local numbering is not the shifted one of the row', key='local numbering')
    gm = np.array(b.cochain.gathering_matrix._gm)
    lg = [np.array(L.gathering_matrix(r)._gm) for r in rows]
    want = partition([[(i, int(g)) for i in range(d) for g in lg[i][e]] for e in range(nel)])
    require(gm.shape == (nel, sum(nl)) and partition(gm.tolist()) == want,
            'the dofs shared by elements are not those of the rows', key='gathering')
    n = max(map(max, want)) + 1
    require(sorted(set(gm.ravel().tolist())) == list(range(n)) and int(b.cochain.gathering_matrix.num_dofs) == n,
            f'the dofs are not numbered 0 .. {n - 1}', key='gathering range')
    # -- incidence
    r = np.random.default_rng(case['seed'])
    vec = r.uniform(-1, 1, (n,))
    loc = vec[gm]
    if k < d:
        E = b.space.incidence_matrix(deg).toarray()
        want = _stack([L.incidence_matrix(_).toarray() for _ in rows])
        require(E.shape == want.shape and np.array_equal(E, want), 'the incidence matrix is not that of the rows',
                key='incidence')
        b[t].cochain = loc
        db = b.coboundary[t]
        got = np.array(db.cochain.local)
        close(got, loc @ want.T, 'the coboundary', rtol=0, atol=1e-13, key='coboundary')
    # -- mass matrix
    M = b.space.mass_matrix(deg)
    uniform = len(set(rows)) == 1
    for e in {0, int(case['seed']) % nel}:
        m = M(e).toarray()
        blocks = [m[off[i]:off[i + 1], off[i]:off[i + 1]] for i in range(d)]
        sc = float(np.max(np.abs(m)))
        close(m, _stack(blocks), f'element {e}: different rows of the mass matrix', rtol=0, atol=1e-13 * sc, key='mass')
        for i, row in enumerate(rows):
            if uniform:
                ref = L.mass_matrix(row)(e).toarray()
                close(blocks[i], ref, f'element {e}: the mass matrix of row {i}', rtol=1e-11, atol=1e-12 * sc,
                      key='mass')
            else:
                # an exact, or nearly exact, integral: the quadrature has the maximal degree of the rows
                keep, D.spec['degree'] = D.spec['degree'], list(row)
                hi = fe.exact_mass(D, key, e, 3 + 2 * max(max(_) for _ in rows))
                D.spec['degree'] = keep
                w = np.linalg.eigvals(np.linalg.solve(hi, blocks[i])).real
                exact = case['high'] and D.mesh.elements._is_linear()
                lo, up = (1 - 1e-8, 1 + 1e-8) if exact else (0.05, 1.2 * 3 ** d)
                require(np.min(w) > lo and np.max(w) < up,
                        f'element {e}: the mass matrix of row {i} has relative eigenvalues {np.min(w)} .. {np.max(w)}',
                        key='mass')
    # -- reduction
    fields = [fe.Field(fe.tame(D, c), d) for c in case['fields']]
    lams = []
    qerr = 0.
    lf = D.forms[key]
    for F, row in zip(fields, rows):
        lf.cf = F.vc(d, key)
        lams.append(np.array(L.reduce(lf.cf, t, row)))
        if k > 0:
            q = tuple(_ + 5 for _ in row)
            qerr = max(qerr, float(np.max(np.abs(np.array(L.reduce(lf.cf, t, row, quad_degree=q)) - lams[-1]))))
    b.cf = field_of(D, key, fields)
    b[t].reduce()
    got = np.array(b[t].cochain.local)
    sc = float(np.max(np.abs(np.hstack(lams))))
    close(got, np.hstack(lams), 'the reduced cochain', rtol=1e-10, atol=1e-11 * (1e-3 + sc) + 20 * qerr, key='reduce')
    # -- reconstruction
    b[t].cochain = loc
    X = [np.sort(r.uniform(-1, 1, r.integers(1, 5))) for _ in range(d)]
    for ravel in (False, True):
        xyz, v = b[t].reconstruct(*X, ravel=ravel)
        for i, row in enumerate(rows):
            lx, lv = L.reconstruct(loc[:, off[i]:off[i + 1]], row, *X, ravel=ravel)
            vi = [v[i]] if len(lv) == 1 else v[i]
            require(len(vi) == len(lv), f'row {i} has {len(vi)} components', key='reconstruct')
            for j in range(len(lv)):
                s = float(np.max(np.abs(lv[j])))
                close(np.array(vi[j]), np.array(lv[j]), f'component {i}{j} of the reconstruction', rtol=1e-11,
                      atol=1e-12 * s, key='reconstruct')
            for a in range(d):
                close(np.array(xyz[a]), np.array(lx[a]), f'coordinate {a}', rtol=1e-12, atol=1e-12, key='coordinates')
    v = [[np.array(_) for _ in vi] if k not in (0, d) else [np.array(vi)] for vi in v]
    rm = b.space.reconstruction_matrix(deg, *X) if d == 2 and k < 2 else None     # (the others are not implemented)
    for e in {0, nel - 1, int(case['seed']) % nel} if rm is not None else ():
        for i in range(d):
            for j in range(len(v[i])):
                A = rm[e][i] if len(v[i]) == 1 else rm[e][i][j]
                A = A.toarray() if hasattr(A, 'toarray') else np.array(A)
                w = A @ (loc[e] if A.shape[1] == loc.shape[1] else loc[e, off[i]:off[i + 1]])
                s = float(np.max(np.abs(v[i][j][e]))) + 1e-300
                close(w, v[i][j][e], f'element {e}: the reconstruction matrix of component {i}{j}', rtol=1e-10,
                      atol=1e-11 * s, key='reconstruction matrix')
    # -- error
    if uniform:
        es = 0.
        for i in range(d):
            lf.cf = fields[i].vc(d, key)
            es += L.error(lf.cf, t, loc[:, off[i]:off[i + 1]], rows[i], None) ** 2
        close(b[t].error(), np.sqrt(es), 'the error', rtol=1e-9, atol=1e-12, key='error')
    # -- the exterior derivative of the field, and the numeric derivatives
    if k < d:
        P = [np.array([float(_)]) for _ in r.uniform(-0.8, 0.8, d)]
        e = int(case['seed']) % nel
        x = D.map(e, *P)
        try:
            got = b.cf.exterior_derivative()
        except AttributeError as ex:
            if "'T3dTensor' object" not in str(ex) and "'T3dVector' object has no attribute 'gradient'" not in str(ex):
                raise                                                    # (those are not implemented in 3D)
            got = None
    if k < d and got is not None:
        reg = next(g for g in D.mesh.regions if e in range(*D.mesh.elements._elements_in_region(g)))
        val = got[reg](t, *x)
        kd = k + 1
        for i in range(d):
            G = fields[i].ext_d(key)
            row = [val[i]] if kd in (0, d) else val[i]
            for j in range(len(G.comps)):
                ref = G.ev(j, t, *x)
                s = sum(abs(tm[1]) for c in fields[i].comps for tm in c) * (1 + max(abs(float(_[0])) for _ in x)) ** 6
                close(np.asarray(row[j]), ref, f'component {i}{j} of the exterior derivative of the field', rtol=1e-4,
                      atol=1e-5 * (1 + s), key='d of the field')
    if d == 2 and k == 0 and D.spec['mesh']['type'] != 'backward_step':
        g = [np.linspace(-0.9, 0.9, 3), np.linspace(-0.7, 0.8, 2)]
        b[t].cochain = loc
        ld = B.lam((1, o))
        gr = []
        for i, row in enumerate(rows):
            ex = L.incidence_matrix(row).toarray()
            _, u = ld.reconstruct(loc[:, off[i]:off[i + 1]] @ ex.T, row, *g)
            u = [np.array(_) for _ in u]
            gr.append(u if o == fe.I else [-u[1], u[0]])      # (d/dx, d/dy) of the component
        for name, ref in (('divergence', gr[0][0] + gr[1][1]), ('rot', gr[1][0] - gr[0][1])):
            dds = getattr(b.numeric, name)(*g, t=t)
            X_, Y_ = D.mesh._regionwsie_stack(*[np.array(_) for _ in L.reconstruct(
                loc[:, off[0]:off[1]], rows[0], *g)[0]])
            R = D.mesh._regionwsie_stack(ref)
            R = R[0] if isinstance(R, (list, tuple)) else R
            for reg in R:
                close(np.array(dds._coo_dict_list[0][reg]), np.array(X_[reg]), f'x of the {name}', rtol=1e-12,
                      atol=1e-12, key='numeric ' + name)
                s = max(float(np.max(np.abs(_))) for u in gr for _ in u)
                close(np.array(dds._val_dict_list[0][reg]), np.array(R[reg]), f'the {name} of the form', rtol=1e-10,
                      atol=1e-11 * s, key='numeric ' + name)
    return {'nontrivial': nel > 1 or max(max(_) for _ in rows) > 1,
            'labels': fe.labels(case['spec']) + [f'k{k}', 'uniform' if uniform else 'mixed', o]}


# ------------------------------------------------------------------------------------ wedge, Hodge, projection
def s_maps():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = moderate(draw(fe.s_spec(libs=('msepy',), dims=(2, 2, 3), maxp=(3, 3, 2), maxn=(3, 3, 2), custom=False)))
        d = spec['dim']
        spec['degree'] = 1
        maxp = 4 if d == 2 else 3
        deg = S.one_of(S.integers(1, maxp), S.lists(S.integers(1, maxp), min_size=d, max_size=d))
        k = draw(S.integers(0, d))
        o = draw(S.sampled_from([fe.O, fe.I]))
        p0 = draw(deg)
        p1 = draw(deg)
        if draw(S.booleans()):       # nested
            a, b = [[x] * d if isinstance(x, int) else x for x in (p0, p1)]
            p1 = [max(x, y) for x, y in zip(a, b)]
        return {'spec': spec, 'key': [k, o], 'p0': p0, 'p1': p1, 'high': draw(S.booleans()),
                'wedge': [draw(S.sampled_from([fe.O, fe.I])), draw(S.sampled_from([fe.O, fe.I]))],
                'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_maps(case):
    """The projection matrix is the L2 projection (the embedding when the spaces are nested), the wedge matrix the
    integral of products, and the Hodge matrix solves M h = W c."""
    ph = boot.phyem()
    d = case['spec']['dim']
    k, o = case['key']
    w0, w1 = case['wedge']
    keys = sorted({(k, o), (0, w0), (d, w1)})
    ph.config.set_high_accuracy(bool(case['high']))
    try:
        D = fe.Disc(case['spec'], keys=keys)
        ph.config.set_high_accuracy(bool(case['high']))
        return _maps(case, D)
    finally:
        ph.config.set_high_accuracy(True)


def deg_of(p):
    return p if isinstance(p, int) else tuple(p)


def _maps(case, D):
    from phyem.msepy.space.addons.projection import MsePySpaceProjection
    from phyem.msepy.space.addons.Hodge import MsePySpaceHodge
    d = D.dim
    key = tuple(case['key'])
    p0, p1 = deg_of(case['p0']), deg_of(case['p1'])
    sp = D.forms[key].space
    r = np.random.default_rng(case['seed'])
    nel = len(D.elements)
    X = [np.sort(r.uniform(-1, 1, 3)) for _ in range(d)]
    a, b = [(p,) * d if isinstance(p, int) else p for p in (p0, p1)]
    nested = all(x <= y for x, y in zip(a, b))
    es = {0, nel - 1, int(case['seed']) % nel}
    # -- projection
    P = MsePySpaceProjection(sp, sp, p0, p1).matrix
    g0 = np.array(sp.gathering_matrix(p0)._gm)
    loc = r.uniform(-1, 1, g0.max() + 1)[g0]
    W = sp.inner_product(p1, (sp, p0))
    M1 = sp.mass_matrix(p1)
    out = np.zeros((nel, int(sp.num_local_dofs(p1))))
    for e in range(nel):
        m = P[e]
        m = m.toarray() if hasattr(m, 'toarray') else np.array(m)
        require(m.shape == (out.shape[1], loc.shape[1]), f'the projection matrix has shape {m.shape}', key='projection')
        out[e] = m @ loc[e]
    for e in es:
        w = W(e).toarray()
        close(M1(e).toarray() @ out[e], w @ loc[e], f'element {e}: M (P c) is not W c', rtol=1e-8,
              atol=1e-10 * float(np.max(np.abs(w))), key='projection')
        sym = sp.inner_product(p0, (sp, p1))(e).toarray()
        close(w, sym.T, f'element {e}: the inner product matrix is not symmetric', rtol=1e-10,
              atol=1e-12 * float(np.max(np.abs(w))), key='symmetry')
    if nested:
        _, u = sp.reconstruct(loc, p0, *X)
        _, v = sp.reconstruct(out, p1, *X)
        for j in range(len(u)):
            s = max(float(np.max(np.abs(np.array(_)))) for _ in u)
            close(np.array(v[j]), np.array(u[j]), f'component {j} of the projection onto a larger space', rtol=1e-7,
                  atol=1e-7 * s, key='embedding')
        g1 = np.array(sp.gathering_matrix(p1)._gm)
        vec = np.full(g1.max() + 1, np.nan)
        vec[g1.ravel()] = out.ravel()
        close(vec[g1], out, 'the dofs shared by elements of the projection', rtol=1e-7,
              atol=1e-7 * float(np.max(np.abs(out))), key='conforming')
    # -- wedge and Hodge
    if d == 2:
        s0, s1 = D.forms[(0, case['wedge'][0])].space, D.forms[(2, case['wedge'][1])].space
        w = s0.wedge_matrix(s1, p0, p1)
        w = w.toarray()
        x, wx = fe.gauss(8)
        G = np.meshgrid(x, x, indexing='ij')
        ww = np.outer(wx, wx).ravel()
        keep = D.spec['degree']
        D.spec['degree'] = case['p0']
        B0 = fe.ref_basis(D, (0, fe.O), [x, x])
        D.spec['degree'] = case['p1']
        B2 = fe.ref_basis(D, (2, fe.O), [x, x])
        D.spec['degree'] = keep
        B0, B2 = [np.array([np.ravel(v) for _, v in q]) for q in (B0, B2)]
        ref = (B0 * ww) @ B2.T
        close(w, ref, 'the wedge matrix', rtol=1e-9, atol=1e-10, key='wedge')
        H = MsePySpaceHodge(s1, s0, p1, p0).matrix
        g1 = np.array(s1.gathering_matrix(p1)._gm)
        c = r.uniform(-1, 1, g1.max() + 1)[g1]
        h = np.zeros((nel, w.shape[0]))
        for e in range(nel):
            h[e] = np.asarray(H[e].toarray() if hasattr(H[e], 'toarray') else H[e]) @ c[e]
        M = s0.mass_matrix(p0)
        for e in es:
            rhs = ref @ c[e]
            close(M(e).toarray() @ h[e], rhs, f'element {e}: M (H c) is not W c', rtol=1e-7,
                  atol=1e-9 * float(np.max(np.abs(rhs))), key='Hodge')
        if case['high'] and D.mesh.elements._is_linear() and all(y - 1 <= x for x, y in zip(a, b)):
            _, u = s1.reconstruct(c, p1, *X)
            _, v = s0.reconstruct(h, p0, *X)
            s = float(np.max(np.abs(np.array(u[0]))))
            close(np.array(v[0]), np.array(u[0]), 'the Hodge dual of a 2-form in the range of the 0-forms', rtol=1e-6,
                  atol=1e-7 * s, key='Hodge exact')
    return {'nontrivial': a != b or max(a) > 1, 'labels': fe.labels(D.spec) + [f'k{key[0]}'] + ['nested'] * nested}


# ------------------------------------------------------------------------------------------------- traces
def s_diag():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = moderate(draw(fe.s_spec(libs=('msepy',), dims=(2,), maxp=(3, 3, 2), maxn=(3, 3, 2), custom=False)))
        if 'c' in spec['mesh']:
            spec['mesh']['c'] = 0.
        spec['degree'] = 1
        row = S.lists(S.integers(1, 3), min_size=2, max_size=2)
        return {'spec': spec, 'key': [1, draw(S.sampled_from([fe.O, fe.I]))],
                'deg': draw(S.one_of(S.integers(1, 3), S.lists(row, min_size=2, max_size=2))),
                'k': draw(S.sampled_from([0, 2])), 'q': draw(S.one_of(S.integers(1, 3), row)),
                'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_diag(case):
    """The inner product of a bundle-valued 1-form with a diagonal one is the integral of the trace times the scalar."""
    ph = boot.phyem()
    o = case['key'][1]

    def abstract(D):
        b = ph.space.new('bundle', 1, orientation=o)
        q = ph.space.new('bundle-diagonal', case['k'], orientation=o)
        fs = {'b': b.make_form('b', 'lin-b'), 'q': q.make_form('q', 'lin-q')}
        ph.space.finite(case['deg'], spaces=[b])
        ph.space.finite(deg_of(case['q']), spaces=[q])
        return fs

    D = fe.Disc(case['spec'], keys=[], make_abstract=abstract)
    b, q = [D.impl.base['forms'][_] for _ in ('lin-b', 'lin-q')]
    r = np.random.default_rng(case['seed'])
    B = b.space.inner_product(b.degree, (q.space, q.degree), special_key='(bf1, db)')
    loc = []
    for f in (b, q):
        g = np.array(f.cochain.gathering_matrix._gm)
        loc.append(r.uniform(-1, 1, g.max() + 1)[g])
        f[0].cochain = loc[-1]
    x, w = fe.gauss(7)
    _, T = b[0].reconstruct(x, x)
    _, s = q[0].reconstruct(x, x)
    G = np.meshgrid(x, x, indexing='ij')
    n = 0
    for e in {0, len(D.elements) - 1, int(case['seed']) % len(D.elements)}:
        J = D.jac_fd(e, *G)
        dv = np.outer(w, w) * np.abs(fe.det_(J))
        t, u = np.array(T[0][0][e]) + np.array(T[1][1][e]), np.array(s[0][e])
        ref = float(np.sum(dv * t * u))
        A = B(e).toarray()
        sc = float(np.sum(dv * np.abs(t) * np.abs(u)))
        close(loc[0][e] @ A @ loc[1][e], ref, f'element {e}: <B, q>', rtol=1e-8, atol=1e-7 * sc, key='trace')
        n += abs(ref) > 1e-3 * sc
    return {'nontrivial': n > 0, 'labels': fe.labels(D.spec) + [o, f"q{case['k']}"]}


SUBS = [
    Sub('rows', s_rows, prop_rows, 1000, 8000, 'More than one element or a degree above 1.'),
    Sub('maps', s_maps, prop_maps, 1000, 8000, 'Two different degrees, or a degree above 1.'),
    Sub('diagonal', s_diag, prop_diag, 500, 4000, 'The integral is not small compared with that of the modulus.'),
]
