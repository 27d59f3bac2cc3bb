"""C13: multilinear terms are the integrals they denote, as vectors, matrices, residuals and Newton steps."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, require, close, HarnessError
from checks.C07 import Degenerate
from checks.C08 import dense, densev

ASSUMPTIONS = ['Mass matrices, incidence matrices and gathering matrices of the code (checked by C02, C03, C05) are the linear pieces of the '
               'expected systems; the products are integrated by our own basis functions and quadrature.']

I, O = fe.I, fe.O
TYPES = {('msepy', 2): ['crazy', 'crazy', 'crazy_multi'], ('msepy', 3): ['crazy'],
         ('msehtt', 2): ['crazy', 'crazy', 'ren', 'crazy_multi', 'rectangle', 'quad', 'data-quad'], ('msehtt', 3): ['crazy0']}

# the cross products: (space of A, space of B) -> space of A x B
X2 = {((0, O), (1, O)): (1, O), ((0, O), (1, I)): (1, I), ((2, I), (1, O)): (1, O), ((2, I), (1, I)): (1, I),
      ((1, I), (1, I)): (0, O), ((1, O), (1, O)): (0, O), ((1, O), (1, I)): (2, I), ((1, I), (1, O)): (0, O)}
XX2 = {((0, O), (1, I)): (1, O), ((1, O), (1, I)): (0, O)}
X3 = {((1, O), (1, I)): (1, I), ((2, I), (2, O)): (2, O), ((1, O), (2, O)): (2, O), ((2, I), (1, I)): (1, I),
      ((2, O), (1, I)): (2, I), ((2, O), (2, O)): (1, O)}
XX3 = {((1, O), (2, O)): (1, O), ((1, O), (1, I)): (2, O), ((2, O), (1, I)): (1, O), ((2, I), (2, O)): (2, I)}
XXX3 = {((1, O), (1, I)): (1, O)}
OPS = {2: {'cross_product': X2, 'Cross_Product': XX2}, 3: {'cross_product': X3, 'Cross_Product': XX3, 'CrossProduct': XXX3}}


def shapes(lib, dim, sA, sB, sC):
    """Every supported term of A, B and the test form C: (meth, shape, op, target, allowed numbers of known forms)."""
    out = []
    dC = (sC[0] + 1, sC[1]) if sC[0] < dim else None
    for op, tab in OPS[dim].items():
        t = tab.get((sA, sB))
        if t is None:
            continue
        if t == sC:
            out.append(('in', 'ABC', op, t))
        if dC == t:
            out.append(('in', 'ABdC', op, t))
        if sC[0] == dim - t[0]:
            out.append(('dp', 'ABC', op, t))
        if dC is not None and dC[0] == dim - t[0] and op == 'cross_product':
            out.append(('dp', 'ABdC', op, t))
    if lib == 'msehtt' and dim == 2:
        if (sA, sB, sC) == ((1, O), (0, I), (0, I)):      # (A . grad B, C), integrated by parts
            out.append(('in', 'conv', 'convect', sC))
        nc = lambda s: fe.n_components(2, s[0])  # noqa
        ok = lambda a, b, c: a == 1 and b == c  # noqa
        dB = (sB[0] + 1, sB[1]) if sB[0] < 2 else None
        if dC and ok(nc(sA), nc(sB), nc(dC)):
            out.append(('in', 'ABdC', 'multi', dC))
            out.append(('dp', 'ABdC', 'multi', (2 - dC[0], dC[1])))
        if dC and dB and ok(nc(sA), nc(dB), nc(dC)):
            out.append(('in', 'AdBdC', 'multi', dC))
        if ok(nc(sA), nc(sB), nc(sC)):
            out.append(('in', 'A,BC', 'multi', sA))
            out.append(('dp', 'ABC', 'multi', (2 - sC[0], sC[1])))
        if dB and ok(nc(sA), nc(dB), nc(sC)):
            out.append(('dp', 'AdBC', 'multi', (2 - sC[0], sC[1])))
    return out


def knowns(lib, sh, int_degree=True):
    """The sets of known forms (of A, B) the term is implemented for."""
    meth, shape, op = sh[:3]
    if shape == 'ABRD':       # (A x B, C x D) with a third known form C
        return ['AB', 'B'] if meth == 'in' else ['AB']
    if shape == 'conv':
        return ['AB', 'A', 'B', ''] if int_degree else []
    if op == 'multi':
        if 'd' in shape and not int_degree:
            return []
        return ['AB', 'A', 'B'] if 'dB' in shape else ['AB', 'A', 'B', '']
    if meth == 'dp':
        if op != 'cross_product':
            return []
        if shape == 'ABdC':
            return ['AB']
        return ['AB', 'A', 'B', ''] if lib == 'msehtt' else ['AB', 'A', 'B']
    if shape == 'ABdC' and (lib == 'msepy' or not int_degree):
        return ['AB', 'A', 'B']
    return ['AB', 'A', 'B', '']


def four(sA, sB, sC, sD):
    """The pairings of A x B and C x D, of four 1-forms."""
    if any(s[0] != 1 for s in (sA, sB, sC, sD)):
        return []
    t, u = X2.get((sA, sB)), X2.get((sC, sD))
    return ([('in', t)] if t == u else []) + ([('dp', t)] if t[0] + u[0] == 2 else [])


_cat = {}


def catalog(lib, dim, int_degree, mode):
    """{(sX, sA, sB): [(equation, P, Q, shape)]} with at least one term in equation 0 (P, Q: forms 0 X, 1 A, 2 B)."""
    if (lib, dim, int_degree, mode) not in _cat:
        keys = [(k, o) for k in range(dim + 1) for o in (I, O)]
        out = {}
        for sX in keys:
            for sA in keys:
                for sB in keys:
                    sp = (sX, sA, sB)
                    got = []
                    for eq in range(3):
                        p, q = [i for i in range(3) if i != eq]
                        for P, Q in ((p, q), (q, p)):
                            got += [(eq, P, Q, s) for s in shapes(lib, dim, sp[P], sp[Q], sp[eq]) if knowns(lib, s, int_degree)]
                            if lib == 'msepy' and dim == 2:
                                got += [(eq, P, Q, (m, 'ABRD', 'cross_product', t, R)) for R in range(3)
                                        for m, t in four(sp[P], sp[Q], sp[R], sp[eq])]
                    if any(g[0] == 0 and g[1] == 1 and (mode == 'ls' or '' in knowns(lib, g[3], int_degree)) for g in got):
                        out[sp] = got
        _cat[(lib, dim, int_degree, mode)] = out
    return _cat[(lib, dim, int_degree, mode)]


def s_case(mode, libs=('msepy', 'msehtt'), types=TYPES, dims=(2, 2, 2, 3)):
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=dims, maxp=(1, 3, 2), maxn=(1, 2, 2), types=types, libs=libs,
                              periodic=(False, False, True), cmax=0.2, custom=False))
        if mode != 'ls' and spec['mesh'].get('bounds'):      # the unknowns of a solve stay of comparable sizes
            spec['mesh']['bounds'] = [draw(fe.s_interval(False)) for _ in spec['mesh']['bounds']]
        lib, d = spec['lib'], spec['dim']
        if d == 3:
            m = spec['mesh']
            if m.get('periodic'):
                m['periodic'] = False
            m['layout'] = draw(S.sampled_from([1, [2, 1, 1], [1, 2, 1], [1, 1, 2]]))
            p = draw(S.sampled_from([1, 1, [2, 1, 1], [1, 2, 1], [1, 1, 2], 2]))
            spec['degree'] = p
        elif spec['mesh'].get('periodic') and lib == 'msehtt':
            spec['degree'] = draw(S.sampled_from([1, 1, 2, [2, 1], [1, 2]]))
        whole = isinstance(spec['degree'], int)
        cat = catalog(lib, d, whole, mode)
        rich = [k for k in sorted(cat) if any(g[3][1] in ('ABRD', 'conv') for g in cat[k])]
        sp = draw(S.sampled_from(rich if rich and draw(S.integers(0, 5)) == 0 else sorted(cat)))
        opts = cat[sp]
        terms = []
        for n in range(draw(S.integers(1, 4))):
            good = [o for o in opts if n or mode == 'ls' or '' in knowns(lib, o[3], whole)]
            ops = sorted({o[3][:3] for o in good})
            op = draw(S.sampled_from(ops))
            eq, P, Q, sh = draw(S.sampled_from([o for o in good if o[3][:3] == op]))
            kn = [k for k in knowns(lib, sh, whole) if k or mode != 'ls']
            if n == 0 and mode != 'ls':
                kn = ['']
            terms.append([eq, P, Q, list(sh), draw(S.sampled_from(kn)), draw(S.booleans()),
                          draw(S.sampled_from([1, 1, 2, 0.5, -1.25, 0.1]))])
        return {'spec': spec, 'mode': mode, 'spaces': sp, 'terms': terms, 'dt': draw(S.sampled_from([0.5, 0.125, 0.01])),
                'mix': draw(S.integers(0, 10 ** 6)), 'seed': draw(S.integers(0, 10 ** 6)), 'k': draw(S.integers(1, 3)),
                'iters': draw(S.integers(1, 3)), 'again': draw(S.booleans())}
    return mk()


class Multilinear:
    def __init__(self, case):
        self.case = case
        self.sp = [tuple(s) for s in case['spaces']]
        spec = case['spec']
        self.d = d = spec['dim']
        keys = set(self.sp)
        for s in self.sp:
            if s[0] < d:
                keys.add((s[0] + 1, s[1]))
        self.r = np.random.default_rng(case['mix'])
        self.nls_mode = any(t[4] == '' for t in case['terms'])
        self.ess = [tuple(x) for x in case.get('ess') or []]       # (form, section): essential boundary conditions
        if self.ess:
            from checks.C07 import Sections
            self.Z = Sections(spec, case['seed'], sorted(keys), make=self.abstract)
            self.D = self.Z.D
        else:
            self.D = fe.Disc(spec, keys=sorted(keys), make_abstract=self.abstract)
        D = self.D
        self.sys = D.objs['s'].apply()
        self.forms = [D.impl.base['forms'][f'lin-u{i}'] for i in range(3)]
        self.t0, n = 0.25, 4
        self.ts.specify('constant', [self.t0, self.t0 + n * case['dt'], n], 1)
        self.gm = [D.gm(s) for s in self.sp]
        self.off = np.concatenate([[0], np.cumsum([g[1] for g in self.gm])]).astype(int)
        self.signs = {}
        self._T = {}

    # ------------------------------------------------------------------ the abstract side
    def abstract(self, D):
        ph = boot.phyem()
        case, r, d = self.case, self.r, self.d
        space = lambda s: self.space(D, s)  # noqa
        names = ['x', 'a', 'b']
        U = [space(s).make_form(rf'{n}', f'lin-u{i}') for i, (n, s) in enumerate(zip(names, self.sp))]
        side = r.integers(0, 2, 3)
        pde = ph.pde([f'dt{i} = 0' if side[i] else f'0 = - dt{i}' for i in range(3)],
                     {f'dt{i}': U[i].time_derivative() for i in range(3)})
        pde._indi_dict = None
        pde.unknowns = U
        self.U = U
        if self.ess:
            bcs = {}
            for j, sec in self.ess:
                bcs.setdefault(sec, []).append(ph.trace(U[j]))
            pde.bc.define_bc({x: (v[0] if len(v) == 1 and r.integers(0, 2) else v) for x, v in bcs.items()})
        wf = pde.test_with([space(s) for s in self.sp], sym_repr=['vx', 'va', 'vb'])
        self.ts = ts = ph.time_sequence()
        dt = ts.make_time_interval('k-1', 'k')
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants('k-1', 'k')
        for i in range(3):
            td.differentiate(f'{i}-0', 'k-1', 'k')
        wf = td()
        wf.unknowns = [u @ ts['k'] for u in U]
        V = wf.test_forms
        for i in range(3):
            wf = wf.derive.split(f'{i}-0', 'f0', [U[i] @ ts['k'], U[i] @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        model = [[('new', 1.), ('old', -1.)] for _ in range(3)]     # the terms of an equation (on one of its sides), in order
        self.coef = {}
        # the multilinear terms are attached to the first main term of the equation
        for n, (eq, P, Q, sh, kn, pos, fac) in enumerate(case['terms']):
            t = self.term(case['terms'][n], U, V[eq])
            m = int(r.integers(0, len(model[eq])))      # attached to any term; signs are relative to it
            pm = ['+', '+' if pos else '-']
            both = [wf.terms[f'{eq}-{m}'], t]
            new = [model[eq][m], (n, model[eq][m][1] * (1. if pos else -1.))]
            self.coef[n] = fac * new[1][1]
            if r.integers(0, 2):
                both, new, pm = both[::-1], new[::-1], pm[::-1]
            wf = wf.derive.replace(f'{eq}-{m}', both, pm)
            if sh[1] == 'conv':        # (A . grad B, C) = - (B A, grad C)
                new = [(w, -c) if w == n else (w, c) for w, c in new]
                self.coef[n] *= -1.
                at = f'{eq}-{m + both.index(t)}'
                wf = wf.derive.integration_by_parts(at, drop_bi_term=True)
                kf = {'AB': [U[P] @ ts['k-1'], U[Q] @ ts['k-1']], 'A': U[P] @ ts['k-1'], 'B': U[Q] @ ts['k-1'], '': None}[kn]
                if kf is not None:
                    wf.terms[at].add_extra_info({'known-forms': kf})
            model[eq][m:m + 1] = new
        arr = {}
        for i in range(3):
            right = [j for j, (w, _) in enumerate(model[i]) if w == 'old' or (w != 'new' and case['terms'][w][4] == 'AB')]
            left = [j for j in range(len(model[i])) if j not in right]
            left, right = [left[j] for j in r.permutation(len(left))], [right[j] for j in r.permutation(len(right))]
            arr[i] = ','.join(map(str, left)) + ' = ' + ','.join(map(str, right))
        wf = wf.derive.rearrange(arr)
        ph.space.finite(fe.parse_degree(case['spec']['degree']))
        mp = wf.mp()
        s = mp.nls() if self.nls_mode else mp.ls()
        return {'s': s}

    def space(self, D, s):
        return D.abs_forms[tuple(s)].space

    def term(self, term, U, c):
        """The term (its test form is c), with its known forms."""
        ph = boot.phyem()
        eq, P, Q, sh, kn, pos, fac = term
        d, ts = self.d, self.ts
        meth, shape, op = sh[:3]
        p = U[P] @ ts['k-1' if 'A' in kn else 'k']
        q = U[Q] @ ts['k-1' if 'B' in kn else 'k']
        M = {'in': ph.inner, 'dp': ph.dp}[meth]
        dd = lambda f: f.exterior_derivative()  # noqa
        tgt = lambda f: f.space if meth == 'in' else ph.space.new('Lambda', d - f.space.k, orientation=f.space.orientation)  # noqa
        x = (lambda a, b, t: a.multi(b, t)) if op == 'multi' else (lambda a, b, t: getattr(a, op)(b))
        kw = {} if fac == 1 else {'factor': fac}
        if shape == 'ABC':
            t = M(x(p, q, tgt(c)), c, **kw)
        elif shape == 'ABdC':
            t = M(x(p, q, tgt(dd(c))), dd(c), **kw)
        elif shape == 'AdBC':
            t = M(x(p, dd(q), tgt(c)), c, **kw)
        elif shape == 'AdBdC':
            t = M(x(p, dd(q), tgt(dd(c))), dd(c), **kw)
        elif shape == 'ABRD':
            rr = U[sh[4]] @ ts['k-1']
            t = M(x(p, q, None), rr.cross_product(c), **kw)
        elif shape == 'conv':
            return M(p.convect(q), c, **kw)
        elif shape == 'A,BC':
            t = M(p, x(q, c, p.space), **kw)
        else:
            raise HarnessError(shape)
        kf = {'AB': [p, q], 'A': p, 'B': q, '': None}[kn]
        if shape == 'ABRD':
            kf = [f for f, name in ((p, 'A'), (q, 'B')) if name in kn] + [rr]
        if kf is not None:
            t.add_extra_info({'known-forms': kf})
        return t

    def instant(self, k):
        return self.t0 + self.case['dt'] * k

    # ------------------------------------------------------------------ the oracle
    def tensor(self, n, quad):
        """{e: T[i, j, k]} of term n (P, Q, test), at a quadrature of `quad` points."""
        eq, P, Q, sh, *_ = self.case['terms'][n]
        meth, shape, op = sh[:3]
        key = (eq, P, Q, tuple(map(str, sh)), quad)
        if key in self._T:
            return self._T[key]
        D, d = self.D, self.d
        up = lambda s: (s[0] + 1, s[1])  # noqa
        sp, sq, sc = self.sp[P], self.sp[Q], self.sp[eq]
        sides = [sp, up(sq) if 'dB' in shape else sq, up(sc) if 'dC' in shape or shape == 'conv' else sc] + ([self.sp[sh[4]]] if shape == 'ABRD' else [])
        for s in sides:
            if s not in self.signs:
                self.signs[s] = fe.dof_signs(D, s, D.elements)
        X, W = [], 1.
        for p in fe.axis_degrees(self.case['spec']):
            q, w = fe.gauss(int(p * (2 if shape == 'ABRD' else 1.5)) + 2 + quad)
            X.append(q)
            W = np.multiply.outer(W, w)
        out = {}
        for e in D.elements:
            B = []
            for s in sides:
                b, det, _ = fe.phys_basis(D, s, e, X)
                b = b * self.signs[s][e].reshape((-1,) + (1,) * (b.ndim - 1))
                B.append(b.reshape(b.shape[0], b.shape[1], -1))
            w = (W * det).ravel()
            a, b, c = B[:3]
            if shape == 'ABRD':
                u, v = [np.einsum('im,jm->ijm', y[:, 0], z[:, 1]) - np.einsum('im,jm->ijm', y[:, 1], z[:, 0]) for y, z in ((a, b), (B[3], c))]
                out[e] = np.einsum('ijm,rkm,m->ijkr', u, v, w, optimize=True)
                continue
            if shape == 'conv':
                out[e] = np.einsum('icm,jm,kcm,m,ka->ija', a, b[:, 0], c, w, D.E(sc, e), optimize=True)
                continue
            if op == 'multi':       # a scalar times a vector dot a vector, or three scalars
                T = np.einsum('im,jcm,kcm,m->ijk', a[:, 0], b, c, w, optimize=True)
            else:
                three = lambda f: f if f.shape[1] == 3 else (  # noqa: the plane in the space
                    np.concatenate([f, 0 * f[:, :1]], axis=1) if f.shape[1] == 2 else
                    np.concatenate([0 * f, 0 * f, f], axis=1))
                a, b, c = three(a), three(b), three(c)
                T = 0
                for u, v, x in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                    T = T + np.einsum('im,jm,km,m->ijk', a[:, u], b[:, v], c[:, x], w, optimize=True)
                    T = T - np.einsum('im,jm,km,m->ijk', a[:, v], b[:, u], c[:, x], w, optimize=True)
            if 'dB' in shape:
                T = np.einsum('imk,mj->ijk', T, D.E(sq, e))
            if 'dC' in shape:
                T = np.einsum('ijm,mk->ijk', T, D.E(sc, e))
            out[e] = T
        self._T[key] = out
        return out

    def residual(self, xk, xp, quad, which=None):
        """F(x) of the equations, dF/dx, and the size of the entries of F without cancellation.

        which: 'linear' leaves out the terms that are nonlinear, 'nonlinear' is only these.
        """
        D, off = self.D, self.off
        N = off[-1]
        F, J, S, R = np.zeros(N), np.zeros((N, N)), np.zeros(N), np.zeros((N, N))
        dt = self.case['dt']
        for i in range(3) if which != 'nonlinear' else ():
            g = self.gm[i][0]
            for e in D.elements:
                row = off[i] + g[e]
                M = self.M[(i, e)]
                np.add.at(F, row, M @ (xk[row] - xp[row]) / dt)
                np.add.at(J, (row[:, None], row[None, :]), M / dt)
                np.add.at(S, row, np.abs(M) @ (np.abs(xk[row]) + np.abs(xp[row])) / dt)
                np.add.at(R, (row[:, None], row[None, :]), np.abs(M) / dt)
        for n, (eq, P, Q, sh, kn, pos, fac) in enumerate(self.case['terms']):
            if which is not None and (kn == '') != (which == 'nonlinear'):
                continue
            c = self.coef[n]
            T = self.tensor(n, quad)
            if sh[1] == 'ABRD':
                T = {e: np.einsum('ijkr,r->ijk', T[e], xp[self.off[sh[4]] + self.gm[sh[4]][0][e]]) for e in D.elements}
            for e in D.elements:
                rows = [off[j] + self.gm[j][0][e] for j in (P, Q, eq)]
                a = (xp if 'A' in kn else xk)[rows[0]]
                b = (xp if 'B' in kn else xk)[rows[1]]
                np.add.at(F, rows[2], c * np.einsum('ijk,i,j->k', T[e], a, b))
                np.add.at(S, rows[2], abs(c) * np.einsum('ijk,i,j->k', np.abs(T[e]), np.abs(a), np.abs(b)))
                if 'A' not in kn:
                    np.add.at(R, (rows[2][:, None], rows[0][None, :]), abs(c) * np.einsum('ijk,j->ki', np.abs(T[e]), np.abs(b)))
                    np.add.at(J, (rows[2][:, None], rows[0][None, :]), c * np.einsum('ijk,j->ki', T[e], b))
                if 'B' not in kn:
                    np.add.at(R, (rows[2][:, None], rows[1][None, :]), abs(c) * np.einsum('ijk,i->kj', np.abs(T[e]), np.abs(a)))
                    np.add.at(J, (rows[2][:, None], rows[1][None, :]), c * np.einsum('ijk,i->kj', T[e], a))
        return F, J, S, R

    def masses(self):
        self.M = {}
        for i in range(3):
            for e in self.D.elements:
                self.M[(i, e)] = self.D.M(self.sp[i], e)

    def put(self, t, seed):
        """Random cochains of the three forms: the global vector."""
        out = []
        for i in range(3):
            v, g = fe.rng_cochains(self.D, self.sp[i], seed + i)
            self.D.set_cochain(None, t, v, form=self.forms[i])
            out.append(g)
        return np.concatenate(out)

    def get(self, t):
        out = np.full(self.off[-1], np.nan)
        for i in range(3):
            v = self.D.get_cochain(None, t, form=self.forms[i])
            for e in self.D.elements:
                row = self.off[i] + self.gm[i][0][e]
                bad = ~np.isnan(out[row])
                if np.any(bad):
                    close(v[e][bad], out[row][bad], f'unknown {i}: shared dofs of element {e}', 1e-12, 1e-12)
                out[row] = v[e]
        return out


def s_tensor(mode):
    """Terms (A, B tp C), (dA, B tp C) of bundle-valued forms (msepy, 2D, inner 0-forms B and C)."""
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2,), maxp=(1, 2), maxn=(1, 2), types={('msepy', 2): ['crazy', 'crazy', 'crazy_multi']}, libs=('msepy',),
                              periodic=(False, False, True), cmax=0.2, custom=False))
        if spec['mesh'].get('bounds'):
            spec['mesh']['bounds'] = [draw(fe.s_interval(False)) for _ in spec['mesh']['bounds']]
        spec['degree'] = draw(S.sampled_from([1, 1, 2]))
        sp = draw(S.sampled_from([[0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 1], [1, 0, 1]]))
        terms = []
        for n in range(draw(S.integers(1, 3))):
            good = []
            for slot in range(3):
                for eq in range(3) if n else [0]:
                    for P in range(3):
                        for Q in range(3):
                            x = [sp[P], sp[Q]]
                            x.insert(slot, sp[eq])
                            kinds = (['tp'] if x == [1, 0, 0] and P != Q else []) + (['dtp'] if x == [0, 0, 0] else [])
                            good += [(eq, P, Q, ['in', kd, slot]) for kd in kinds]
            if n == 0 and mode != 'ls':
                good = [g for g in good if g[1] != g[2]]
            if not good:
                break
            eq, P, Q, sh = draw(S.sampled_from(good))
            kn = ['AB'] if P == Q else ['AB', 'A', 'B'] + ['']
            kn = [k for k in kn if k or mode != 'ls']
            if n == 0 and mode != 'ls':
                kn = ['']
            terms.append([eq, P, Q, sh, draw(S.sampled_from(kn)), draw(S.booleans()), draw(S.sampled_from([1, 1, 2, 0.5, -1.25, 0.1]))])
        if not terms:
            sp, terms = [0, 0, 0], [[0, 1, 2, ['in', 'dtp', draw(S.integers(0, 2))], 'AB' if mode == 'ls' else '', True, 1]]
        return {'spec': spec, 'mode': mode, 'spaces': sp, 'terms': terms, 'dt': draw(S.sampled_from([0.5, 0.125, 0.01])),
                'mix': draw(S.integers(0, 10 ** 6)), 'seed': draw(S.integers(0, 10 ** 6)), 'k': draw(S.integers(1, 3)),
                'iters': draw(S.integers(1, 3)), 'again': draw(S.booleans())}
    return mk()


class Tensor(Multilinear):
    def __init__(self, case):
        self.case, self.sp, self.d = case, case['spaces'], 2
        self.r = np.random.default_rng(case['mix'])
        self.nls_mode = any(t[4] == '' for t in case['terms'])
        self.ess = []
        self.D = D = fe.Disc(case['spec'], keys=[(0, I), (1, I), (2, I)], make_abstract=self.abstract)
        self.sys = D.objs['s'].apply()
        self.forms = [D.impl.base['forms'][f'lin-u{i}'] for i in range(3)]
        self.t0, n = 0.25, 4
        self.ts.specify('constant', [self.t0, self.t0 + n * case['dt'], n], 1)
        self.gm = []
        for f in self.forms:
            g = np.array(f.cochain.gathering_matrix._gm)
            self.gm.append(({e: g[e] for e in D.elements}, int(g.max()) + 1))
        self.off = np.concatenate([[0], np.cumsum([g[1] for g in self.gm])]).astype(int)
        self._T = {}

    def space(self, D, s):
        return boot.phyem().space.new('bundle', s, orientation=I)

    def term(self, term, U, c):
        ph = boot.phyem()
        eq, P, Q, (_, shape, slot), kn, pos, fac = term
        p, q = [U[i] @ self.ts['k-1' if w in kn else 'k'] for i, w in ((P, 'A'), (Q, 'B'))]
        f = [p, q]
        f.insert(slot, c)
        a, b, c = f
        t = ph.inner(a.exterior_derivative() if shape == 'dtp' else a, b.tensor_product(c), **({} if fac == 1 else {'factor': fac}))
        if kn:
            t.add_extra_info({'known-forms': {'AB': p if P == Q else [p, q], 'A': p, 'B': q}[kn]})
        return t

    def tensor(self, n, quad):
        eq, P, Q, (_, shape, slot), *_ = self.case['terms'][n]
        if (n, quad) in self._T:
            return self._T[n, quad]
        D = self.D
        x, w = fe.gauss(int(self.case['spec']['degree'] * 1.5) + 2 + quad)
        out = {}
        for e in D.elements:
            f = {}
            for k in (0, 1):
                b, det, _ = fe.phys_basis(D, (k, I), e, [x, x])
                f[k] = b.reshape(b.shape[0], b.shape[1], -1)
            m = (np.multiply.outer(w, w) * det).ravel()
            z = [np.zeros((2 * b.shape[0], 2) + b.shape[1:]) for b in (f[0], f[1])]
            for k in (0, 1):
                n_ = f[k].shape[0]
                z[k][:n_, 0] = f[k]
                z[k][n_:, 1] = f[k]
            B = z[0][:, :, 0]
            T = np.einsum('iabm,jam,kbm,m->ijk', z[1], B, B, m, optimize=True)
            if shape == 'dtp':
                E = D.E((0, I), e)
                E = np.kron(np.eye(2), E)
                T = np.einsum('ijk,ia->ajk', T, E)
            out[e] = np.moveaxis(T, slot, 2)
        self._T[n, quad] = out
        return out

    def masses(self):
        self.M = {(i, e): np.kron(np.eye(2), self.D.M((s, I), e)) for i, s in enumerate(self.sp) for e in self.D.elements}

    def put(self, t, seed):
        out = []
        for i in range(3):
            g = np.random.default_rng(seed + i).uniform(-1, 1, self.gm[i][1])
            self.forms[i][t].cochain = np.array([g[self.gm[i][0][e]] for e in self.D.elements])
            out.append(g)
        return np.concatenate(out)

    def get(self, t):
        out = np.full(self.off[-1], np.nan)
        for i in range(3):
            v = np.array(self.forms[i][t].cochain.local)
            for n, e in enumerate(self.D.elements):
                row = self.off[i] + self.gm[i][0][e]
                bad = ~np.isnan(out[row])
                if np.any(bad):
                    close(v[n][bad], out[row][bad], f'unknown {i}: shared dofs of element {e}', 1e-12, 1e-12)
                out[row] = v[n]
        return out


# ----------------------------------------------------------------------------------------------------- rewriting terms
def arrangements(dim, op, sp):
    """All (X; Y, Z) of the three forms for which the pairing of X with Y x Z exists."""
    tab = OPS[dim]['cross_product']
    out = []
    for X in range(3):
        for Y in range(3):
            Z = 3 - X - Y
            if len({X, Y, Z}) < 3 or Z not in range(3):
                continue
            t = tab.get((sp[Y], sp[Z]))
            if t is not None and (t == sp[X] if op == 'in' else t[0] + sp[X][0] == dim):
                out.append([X, Y, Z])
    return out


def triples():
    if not hasattr(triples, 'got'):
        triples.got = []
        for dim in (2, 3):
            keys = [(k, o) for k in range(dim + 1) for o in (I, O)]
            for op in ('in', 'dp'):
                for a in keys:
                    for b in keys:
                        for c in keys:
                            if len(arrangements(dim, op, (a, b, c))) > 1:
                                triples.got.append((dim, op, (a, b, c)))
    return triples.got


def s_rewrite():
    S = fe.st()

    @S.composite
    def mk(draw):
        if draw(S.integers(0, 5)) == 0:
            dim = draw(S.sampled_from([2, 3]))
            return {'what': 'hodge', 'dim': dim, 'key': [draw(S.integers(0, dim)), draw(S.sampled_from([O, I]))], 'side': draw(S.booleans()),
                    'pos': draw(S.booleans()), 'der': draw(S.booleans()), 'factor': draw(S.sampled_from([1, 2, .5])), 'row': draw(S.integers(0, 1))}
        dim, op, sp = draw(S.sampled_from(triples()))
        arr = arrangements(dim, op, sp)
        return {'what': 'triple', 'dim': dim, 'op': op, 'spaces': sp, 'from': draw(S.sampled_from(arr)), 'to': draw(S.sampled_from(arr)),
                'left': [draw(S.booleans()), draw(S.booleans())], 'names': draw(S.permutations(['A', 'B', 'C', 'u', 'w', 'f'])),
                'der': [draw(S.integers(0, 3)) == 0 for _ in range(3)], 'time': draw(S.booleans()), 'pos': draw(S.booleans()),
                'factor': draw(S.sampled_from([1, 2, .5])), 'row': draw(S.integers(0, 1))}
    return mk()


def prop_rewrite(case):
    """The same integral, of the same forms: symbolic weak formulations."""
    ph = boot.phyem()
    dim = case['dim']
    ph.config.set_embedding_space_dim(dim)
    man = ph.manifold(dim)
    ph.mesh(man)
    space = lambda s: ph.space.new('Lambda', s[0], orientation=s[1])  # noqa
    ts = ph.time_sequence()

    def form(s, name, der):
        """A form of the space, a derivative if asked for and possible."""
        if der and s[0] > 0:
            return space((s[0] - 1, s[1])).make_form(name, f'lin-{name}').exterior_derivative()
        f = space(s).make_form(name, f'lin-{name}')
        return f @ ts['k'] if case.get('time') else f
    u, z = [space((0, O)).make_form(x, f'lin-main{x}') for x in ('u', 'z')]
    row = case['row']
    pde = ph.pde(['du + dz = 0', 'dz - du = 0'], {'du': u.time_derivative(), 'dz': z.time_derivative()})
    pde.unknowns = [u, z]
    wf = pde.test_with([space((0, O))] * 2, sym_repr=['v', 'w'])
    V = wf.test_forms
    kw = {} if case['factor'] == 1 else {'factor': case['factor']}
    pm = '+' if case['pos'] else '-'
    names = lambda w: {i: (w[i][0], [f._lin_repr for f in (w[i][1]._f0, w[i][1]._f1)]) for i in w}  # noqa

    def insert(t):
        w = wf.derive.replace(f'{row}-0', [wf.terms[f'{row}-0'], t], ['+', pm])
        require(w.terms[f'{row}-1'] is t, 'the term is inserted')
        return w, f'{row}-1'
    if case['what'] == 'hodge':
        k, o = case['key']
        a = form((k, o), 'a', case['der'])
        star = ph.Hodge(a)
        b = star.space.make_form('b', 'lin-b')
        t = ph.inner(star, b, **kw) if case['side'] else ph.inner(b, star, **kw)
        w, at = insert(t)
        before = names(w)
        out = w.derive.switch_to_duality_pairing(at)
        sign, new = out[at]
        require(type(new).__name__ == 'DualityPairingTerm', f'{case}: {new} is a duality pairing')
        want = [a, b] if case['side'] else [b, a]
        got = [new._f0._lin_repr, new._f1._lin_repr]
        require(got == [f._lin_repr for f in want], f'{case}: the forms {got} of the pairing')
        even = True
        labels = ['hodge']
    else:
        sp = [tuple(s) for s in case['spaces']]
        F = [form(s, n, d) for s, n, d in zip(sp, 'abc', case['der'])]
        L = case['names'][:3]
        make = ph.inner if case['op'] == 'in' else ph.dp

        def parts(arr, left):
            x, y, z = arr
            m = [F[x], F[y].cross_product(F[z])]
            o = [L[x], f'{L[y]} x {L[z]}']
            if left:
                m, o = m[::-1], o[::-1]
            return m, ('({}, {})' if case['op'] == 'in' else '<{} | {}>').format(*o)
        m0, f0 = parts(case['from'], case['left'][0])
        m1, f1 = parts(case['to'], case['left'][1])
        t = make(*m0, **kw)
        w, at = insert(t)
        before = names(w)
        out = w.derive.commutation_wrt_inner_and_x(at, f0, f1)
        sign, new = out[at]
        require(type(new) is type(t), f'{case}: the kind of {new}')
        got = [new._f0._lin_repr, new._f1._lin_repr]
        require(got == [f._lin_repr for f in m1], f'{f0} to {f1}, forms {[f._lin_repr for f in F]}: the new term has the forms {got}')
        require(new._f0.space is m1[0].space and new._f1.space is m1[1].space, f'{f0} to {f1}: the spaces of the new term')
        inv = lambda p: sum(p[i] > p[j] for i in range(3) for j in range(i)) % 2  # noqa
        even = inv(case['from']) == inv(case['to'])
        labels = [case['op'], f'{dim}d', 'even' if even else 'odd', 'moved' if case['from'] != case['to'] else 'same']
    require(sign == ('+' if even == case['pos'] else '-'), f'{case}: sign {sign} of the new term')
    require(new._factor is t._factor or str(new._factor._lin_repr) == str(t._factor._lin_repr), f'{case}: the factor')
    require(names(w) == before, f'{case}: the original formulation is unchanged')
    n1 = names(out)
    require({i: v for i, v in n1.items() if i != at} == {i: v for i, v in before.items() if i != at}, f'{case}: the other terms are unchanged')
    return {'nontrivial': True, 'labels': labels}


def rules(P):
    """(our fine quadrature, the coarse one that sets the tolerance on curved elements): points in addition to exactness."""
    m = P.case['spec']['mesh']
    curved = bool(m.get('c')) or m['type'] in ('quad', 'data')
    return (6 if P.d == 2 else 4, 0, True) if curved else (0, 0, False)


def text(case):
    return f"{case['spaces']} " + '; '.join(f'eq {t[0]}: {"+" if t[5] else "-"} {t[6]} {t[3][0]}[{t[1]},{t[2]} {t[3][1]} {t[3][2]}] known {t[4] or "-"}'
                                            for t in case['terms'])


def prop_ls(case, cls=Multilinear):
    try:
        P = cls(case)
    except Degenerate:      # (no faces in a section)
        return {'nontrivial': False, 'excluded': True}
    D = P.D
    P.masses()
    hi, lo, curved = rules(P)
    txt = text(case)
    for rep in range(2 if case['again'] else 1):
        k = case['k'] + rep
        xp = P.put(P.instant(k - 1), case['seed'] + 10 * rep)
        z = np.zeros(P.off[-1])
        b, A, S, R = P.residual(z, xp, hi)
        b = -b
        tolA, tolb = 0., 0.
        if curved:
            b2, A2 = P.residual(z, xp, lo)[:2]
            tolA, tolb = 4 * np.max(np.abs(A2 - A)), 4 * np.max(np.abs(-b2 - b))
        st = P.sys(k=k)
        als = st.assemble()
        GA, Gb = dense(als.A), densev(als.b)
        N = P.off[-1]
        require(GA.shape == (N, N) and Gb.shape == (N,), f'{txt}: shape of the system {GA.shape}, {Gb.shape}, expected {N}')
        cg = st.global_gathering_matrices[1]
        where = np.zeros(N, dtype=int)
        for e in D.elements:
            loc = np.concatenate([P.off[i] + P.gm[i][0][e] for i in range(3)])
            where[loc] = np.asarray(cg[e])
        GA, Gb = GA[np.ix_(where, where)], Gb[where]
        # an equation is determined up to its sign
        for i in range(3):
            sl = slice(P.off[i], P.off[i + 1])
            s = np.sign(np.sum(GA[sl, sl] * A[sl, sl])) or 1.
            for j in range(3):
                cl = slice(P.off[j], P.off[j + 1])
                close(s * GA[sl, cl], A[sl, cl], f'{txt}: block {i},{j} of the matrix, step {k}', 0, 1e-9 * np.max(R[sl]) + tolA)
            close(s * Gb[sl], b[sl], f'{txt}: block {i} of the vector, step {k}', 0, 1e-9 * np.max(S[sl]) + tolb)
    size = max(np.max(np.abs(t)) for n in range(len(case['terms'])) for t in P.tensor(n, hi).values())
    return {'nontrivial': size > 1e-6, 'labels': lab(case)}


def lab(case):
    return fe.labels(case['spec']) + [f'{t[3][0]}:{t[3][1]}:{t[3][2]}:{t[4] or "-"}' for t in case['terms']] + \
        [f'eq{t[0]}' for t in case['terms']]


def prop_newton(case, cls=Multilinear):
    try:
        P = cls(case)
    except Degenerate:      # (no faces in a section)
        return {'nontrivial': False, 'excluded': True}
    D = P.D
    P.masses()
    hi, lo, curved = rules(P)
    txt = text(case)
    k = case['k']
    xp = P.put(P.instant(k - 1), case['seed'])
    st = P.sys(k=k)

    def newton(quad, n):
        x = xp.copy()
        dx = []
        for _ in range(n):
            F, J, S, _ = P.residual(x, xp, quad)
            if np.linalg.cond(J) > 1e8:
                return None, dx
            s = np.linalg.solve(J, -F)
            x = x + s
            dx.append(np.linalg.norm(s))
            if dx[-1] > 1e6:
                return None, dx
        return x, dx
    n = case['iters']
    x, dx = newton(hi, n)
    if x is None:
        return {'nontrivial': False, 'excluded': True}
    tol = 1e-8 * (1 + np.max(np.abs(x)))
    if curved:
        x2, _ = newton(lo, n)
        if x2 is None:
            return {'nontrivial': False, 'excluded': True}
        tol += 8 * np.max(np.abs(x2 - x))
    msg = st.solve([P.forms[i] for i in range(3)], atol=1e-13, maxiter=str(n) if D.lib == 'msehtt' and case['again'] else n)
    got = P.get(P.instant(k))
    close(got, x, f'{txt}: the iterate after {n} Newton steps from the newest cochains', 0, tol)
    close(P.get(P.instant(k - 1)), xp, f'{txt}: the known cochains after solving', 0, 0)
    return {'nontrivial': bool(np.max(np.abs(x - xp)) > 1e-4), 'labels': lab(case) + [f'iters{n}']}


SUBS = [
    Sub('linear', lambda: s_case('ls'), prop_ls, 800, 8000, 'the product does not vanish'),
    Sub('newton', lambda: s_case('nls'), prop_newton, 700, 6000, 'the iterate differs from the start'),
    Sub('rewrite', s_rewrite, prop_rewrite, 400, 4000, 'any rewritten term'),
    Sub('tensor', lambda: s_tensor('ls'), lambda c: prop_ls(c, Tensor), 240, 3000, 'the product does not vanish'),
    Sub('tensor newton', lambda: s_tensor('nls'), lambda c: prop_newton(c, Tensor), 240, 3000, 'the iterate differs from the start'),
]
