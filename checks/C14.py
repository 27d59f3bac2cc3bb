"""C14: nonlinear solvers: iterations, stopping, reported residuals, constraints and boundary conditions, several steps."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, require, close
from checks.C07 import Degenerate, faces, side_dofs
from checks import C13
from checks.C13 import Multilinear, rules, text

ASSUMPTIONS = ['The residual and its Jacobian are those of C13 (own quadrature, mass matrices of the code).',
               'msepy measures an increment by the norm of its local (per element) values, msehtt by that of its global values.']


# Picard iterations are implemented when a linear matrix is not cached: one with a known form in it
PICARD = {('msehtt', 2): ['crazy', 'crazy', 'crazy', 'crazy_multi', 'ren', 'quad']}


def s_case(kind):
    S = fe.st()

    @S.composite
    def mk(draw):
        case = draw(C13.s_case('nls', ('msehtt',), PICARD, (2, 2)) if kind == 'picard' else C13.s_case('nls'))
        spec = case['spec']
        m = spec['mesh']
        if kind == 'picard':
            if m['type'] in ('crazy', 'crazy_multi'):
                m['c'] = draw(S.sampled_from([0., 0.1, 0.2]))
            eq, a, b, sh = case['terms'][draw(S.integers(0, len(case['terms']) - 1))][:4]
            kn = [x for x in C13.knowns('msehtt', sh, isinstance(spec['degree'], int)) if len(x) == 1]
            if kn:
                case['terms'].append([eq, a, b, sh, draw(S.sampled_from(kn)), draw(S.booleans()), draw(S.sampled_from([1, 0.5, -1.25]))])
        case['kind'] = kind
        case['ess'] = []
        if kind != 'stop':
            low = [i for i, s in enumerate(case['spaces']) if s[0] < spec['dim']]
            if low and not m.get('periodic') and draw(S.integers(0, 2)) == 0:
                case['ess'] = draw(S.lists(S.tuples(S.sampled_from(low), S.sampled_from([r'\Gamma_a', r'\Gamma_b'])).map(list),
                                           min_size=1, max_size=2, unique_by=tuple))
                case['fields'] = [draw(fe.s_field(spec['dim'], fe.n_components(spec['dim'], case['spaces'][j][0]))) for j, _ in case['ess']]
        case['cus'] = [] if kind == 'stop' else \
            draw(S.lists(S.tuples(S.sampled_from(['fix', 'fix', 'set', 'x0', 'constrain', 'row', 'rows']), S.integers(0, 2), S.integers(1, 3),
                                  S.sampled_from(['near', 'far'])).map(list),
                         min_size=0 if case['ess'] else 1, max_size=3))
        case['steps'] = draw(S.integers(1, 2))
        case['atol'] = draw(S.sampled_from([1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8]))
        case['maxiter'] = draw(S.integers(1, 9))
        case['forced'] = draw(S.booleans())
        case['start'] = draw(S.sampled_from(['newest', 'newest', 'newest', 'later', 'at']))
        case['size'] = draw(S.sampled_from([1., 0.3, 0.05]))
        return case
    return mk()


class Run(Multilinear):
    def __init__(self, case, scheme):
        super().__init__(case)
        self.scheme = scheme
        self.masses()
        D = self.D
        self.lib = D.lib
        self.nl = {t[0] for t in case['terms'] if t[4] == ''}
        self.rr = np.random.default_rng(case['seed'] + 7)
        self.vc, self.ess_dofs = [], []
        for (j, sec), comps in zip(self.ess, case.get('fields', [])):
            k, o = self.sp[j]
            vc = fe.Field(fe.tame(D, comps), self.d).vc(self.d, (k, o))
            self.vc.append(vc)
            if self.lib == 'msepy':
                man = D.impl.base['manifolds'][sec]
                if len([1 for x in self.ess if x[1] == sec]) > 1:
                    from checks.C10 import _Sym
                    bc = self.sys.bc.config(man, form=_Sym(self.U[j], boot.phyem()))
                else:
                    bc = self.sys.bc.config(man)
                bc(vc)
                mesh = D.impl.find_mesh_of_manifold(man)
            else:
                mesh = self.Z.ms[sec]
                self.sys.config(['essential bc', 1], mesh, vc, root_form=self.forms[j])
            got = {}
            for e, a, n in faces(self.Z, mesh):
                for l in side_dofs(D, self.sp[j], e, a, n):
                    got[int(self.gm[j][0][e][l])] = (e, l)
            self.ess_dofs.append(got)

    def put(self, t, seed):
        out = []
        for i in range(3):
            v, g = fe.rng_cochains(self.D, self.sp[i], seed + i)
            c = self.case['size']
            self.D.set_cochain(None, t, {e: c * v[e] for e in v}, form=self.forms[i])
            out.append(c * g)
        return np.concatenate(out)

    def positions(self, i, g):
        return [(e, int(l)) for e in self.D.elements for l in np.flatnonzero(np.asarray(self.gm[i][0][e]) == g)]

    # ------------------------------------------------------------------ constraints on a step
    def constrain(self, st, k, xp, x0):
        """Customize the static system; the constraints: x0, {dof: None: x0 stays, v: its equation becomes x = v}, [(dof)] constrained."""
        case, D, r = self.case, self.D, self.rr
        x0 = x0.copy()
        rows, extra, keep = {}, [], set()
        n_of = lambda i: self.gm[i][1]  # noqa
        val = lambda d, far: float(np.round((x0[d] if far == 'near' else 0.) + r.uniform(-1, 1) * (0.1 if far == 'near' else 1.), 3))  # noqa
        order = []
        newt = self.scheme == 'Newton'
        for op, i, n, far in case['cus']:
            i = int(i)
            g = [int(x) for x in r.permutation(n_of(i))[:n]]
            dofs = [self.off[i] + x for x in g]
            if any(d in keep for d in dofs):
                continue           # one instruction per dof
            order.append(op)
            keep |= set(dofs)
            if self.lib == 'msepy':
                if op == 'constrain' or op == 'fix' and n == 1:      # a dof of the whole system
                    d = self.whole(st, i, g[0])
                    if r.integers(0, 3) == 0:
                        d = d - self.off[-1]                 # counted from the end
                    if op == 'fix':
                        st.customize.set_no_evaluation(int(d))
                    else:
                        v = val(dofs[0], far)
                        st.customize.set_dof(int(d), v)
                        x0[dofs[0]] = v
                    rows[dofs[0]] = None
                    keep -= set(dofs[1:])
                elif op in ('fix', 'row', 'rows'):
                    es, ls = [], []
                    for x in g:
                        P = self.positions(i, x)
                        e, l = P[r.integers(0, len(P))]
                        es.append(e)
                        ls.append(np.array([l]))
                    st.customize.set_no_evaluation_of_local_dofs(i, es, ls)
                    for d in dofs:
                        rows[d] = None
                else:
                    es, ls, vs = [], [], []
                    for x, d in zip(g, dofs):
                        v = val(d, far)
                        P = self.positions(i, x)
                        for e, l in P if op == 'x0' else [P[r.integers(0, len(P))]]:
                            es.append(e)
                            ls.append(np.array([l]) if r.integers(0, 2) else l)
                            vs.append(np.array([v]) if isinstance(ls[-1], np.ndarray) else v)
                        x0[d] = v
                    st.customize.set_x0_from_local_dofs(i, es, ls, vs)
            else:
                if op in ('row', 'rows') and i in self.nl:
                    op = 'fix'
                if op == 'constrain':
                    if extra:
                        continue
                    keep -= set(dofs[1:])
                    st.customize.add_additional_constrain__fix_a_global_dof(i, g[0])
                    extra.append(dofs[0])
                elif op == 'row':
                    P = self.positions(i, g[0])
                    e, l = P[r.integers(0, len(P))]
                    v = val(dofs[0], far)
                    st.customize.linear.set_local_dof(i, e, l, v)
                    rows[dofs[0]] = v
                    keep -= set(dofs[1:])
                elif op == 'rows':
                    v = [val(d, far) for d in dofs]
                    st.customize.linear.apply_essential_bc_for_unknown(i, g, v)
                    rows.update(dict(zip(dofs, v)))
                elif not newt:
                    v = [val(d, far) for d in dofs]
                    st.customize.set_global_dofs_for_unknown(i, g, v)
                    rows.update(dict(zip(dofs, v)))
                elif op == 'fix':
                    st.customize.fixed_global_dofs_for_unknown(i, g)
                    for d in dofs:
                        rows[d] = None
                else:
                    v = [val(d, far) for d in dofs]
                    st.customize.set_x0_for_unknown(i, g, v)
                    for d, w in zip(dofs, v):
                        x0[d] = w
                        if op == 'set':
                            rows[d] = None
                    if op == 'set':
                        st.customize.fixed_global_dofs_for_unknown(i, g)
        # boundary conditions win over the rest at x0 where they are set through it
        both = [d for (j, _), got in zip(self.ess, self.ess_dofs) for d in [self.off[j] + g for g in got]]
        clash = bool(set(both) & keep)
        seen = {}
        for (j, _), got, vc in zip(self.ess, self.ess_dofs, self.vc):
            t = self.instant(k)
            f = self.D.forms[self.sp[j]]
            red = f.reduce(t, update_cochain=False, target=vc) if self.lib == 'msepy' else f.reduce(vc[t])
            for g, (e, l) in got.items():
                d, v = self.off[j] + g, float(red[e][l])
                if d in seen and abs(seen[d] - v) > 1e-10:
                    clash = True             # two conditions on one dof
                seen[d] = v
                if self.lib == 'msepy' or (newt and j in self.nl):
                    x0[d] = v
                    rows[d] = None
                else:
                    rows[d] = v
        return x0, rows, extra, clash, order

    def whole(self, st, i, g):
        """The number of dof g of unknown i in the whole system."""
        e, l = self.positions(i, g)[0]
        base = sum(self.D.n_local(self.sp[j], e) for j in range(i))
        return int(np.asarray(st._global_col_gm_[e])[base + l])

    def multiplicity(self):
        m = np.zeros(self.off[-1])
        for i in range(3):
            for e in self.D.elements:
                np.add.at(m, self.off[i] + self.gm[i][0][e], 1)
        return m

    # ------------------------------------------------------------------ own iterations
    def iterate(self, x0, xp, rows, extra, quad, n):
        N = self.off[-1]
        x, beta = x0.copy(), []
        w = self.multiplicity() if self.lib == 'msepy' else np.ones(N)
        d0 = list(rows)
        if self.scheme == 'Picard':
            b0, A0 = self.residual(np.zeros(N), xp, quad, 'linear')[:2]
        for _ in range(n):
            if self.scheme == 'Picard':
                F = A0 @ x + b0 + self.residual(x, xp, quad, 'nonlinear')[0]
                J = A0.copy()
            else:
                F, J = self.residual(x, xp, quad)[:2]
            for d in d0:
                J[d] = 0
                J[d, d] = 1
                F[d] = 0 if rows[d] is None else x[d] - rows[d]
            for d in extra:
                c = np.zeros(len(J))
                c[d] = 1
                J = np.block([[J, c[:, None]], [c[None, :], np.zeros((1, 1))]])
                F = np.append(F, 0)
            if np.linalg.cond(J) > 1e7:
                return None, beta
            dx = np.linalg.solve(J, -F)[:N]
            x = x + dx
            beta.append(float(np.sqrt(np.sum(w * dx ** 2))))
            if np.max(np.abs(x)) > 1e4:
                return None, beta
        return x, beta


def stop_rule(beta, atol, maxiter, info, txt, slow):
    """The reported residuals, and when the iterations stopped, fit the documentation."""
    def ends(n):
        b = beta[:n]
        if b[-1] < atol:
            return 'converged'
        if n >= maxiter:
            return 'maxiter'
        if n > 1 and b[-1] > 100 * b[-2]:
            return 'diverging'
        if n > 1 and b[-1] < b[-2] and (b[-2] - b[-1]) / b[-2] < slow:
            return 'slow'
    for n in range(1, len(beta)):
        require(ends(n) is None, f'{txt}: iterations went on after residuals {beta[:n]} (atol {atol}, maxiter {maxiter})')
    e = ends(len(beta))
    require(e is not None, f'{txt}: iterations stopped at residuals {beta} (atol {atol}, maxiter {maxiter})')
    want = {'converged': 0, 'maxiter': len(beta), 'slow': len(beta), 'diverging': -1}[e]
    require(info == want, f'{txt}: convergence info {info} after {len(beta)} iterations that ended as {e}: {beta}, atol {atol}')
    return e


def prop(case):
    scheme = 'Picard' if case['kind'] == 'picard' else 'Newton'
    try:
        P = Run(case, scheme)
    except Degenerate:      # (no faces in a section)
        return {'nontrivial': False, 'excluded': True}
    hi, lo, curved = rules(P)
    txt = f"{scheme} {text(case)}"
    k = case['k']
    N = P.off[-1]
    labels, moved, done = [], False, 0
    ess_txt = f" conditions {case['ess']}" if case['ess'] else ''
    xp = P.put(P.instant(k - 1), case['seed'])
    x0 = xp.copy()
    later = None
    if case['start'] != 'newest':         # the newest cochains are not those of the previous step
        later = P.instant(k) + (0 if case['start'] == 'at' else 0.4 * case['dt'])
        x0 = P.put(later, case['seed'] + 50)
        x_later = x0.copy()
    for step in range(case['steps']):
        forms = [P.forms[i] for i in range(3)]
        st = P.sys(k=k)
        start, rows, extra, clash, order = P.constrain(st, k, xp, x0)
        if clash:
            return {'nontrivial': False, 'excluded': True, 'labels': ['x:clash']}
        if scheme == 'Picard' and not extra:
            start = x0
        tag = f"step {k}: {txt}{ess_txt} with {case['cus']}"
        forced = case['kind'] != 'stop' or case['forced']
        n = case['iters'] if case['kind'] != 'stop' else case['maxiter']
        kw = {'scheme': 'Picard'} if scheme == 'Picard' else {}
        # Do our own first: leave out systems that are not well conditioned.
        mx = n
        own = {}
        for q in ([hi, lo] if curved else [hi]):
            own[q] = P.iterate(start, xp, rows, extra, q, mx if forced else 1)
            if own[q][0] is None:
                return {'nontrivial': moved, 'excluded': not moved, 'labels': labels}
        atol = 1e-14 if forced else case['atol']
        try:
            x, message, info = st.solve(forms, atol=atol, maxiter=str(n) if forced else n, **kw)
        except NotImplementedError:
            if scheme == 'Picard':
                return {'nontrivial': False, 'excluded': True, 'labels': ['x:picard']}
            raise
        beta = [float(_) for _ in info['residuals']]
        if forced:
            require(len(beta) == n, f'{tag}: {len(beta)} iterations, forced to {n}')
        else:
            end = stop_rule(beta, atol, n, info['convergence info'], tag, 1e-4 if P.lib == 'msehtt' else 1e-6)
            labels.append(end)
            for q in own:
                own[q] = P.iterate(start, xp, rows, extra, q, len(beta))
                if own[q][0] is None:
                    return {'nontrivial': moved, 'excluded': not moved, 'labels': labels}
        want, wb = own[hi]
        size = 1 + np.max(np.abs(want))
        tol, tb = 1e-8 * size, [1e-8 * (size + b) for b in wb]
        if curved:
            tol += 8 * np.max(np.abs(own[lo][0] - want))
            tb = [t + 8 * abs(b - c) + 8 * np.sqrt(N) * np.max(np.abs(own[lo][0] - want)) for t, b, c in zip(tb, wb, own[lo][1])]
        if tol > 1e-2 * size:
            return {'nontrivial': moved, 'excluded': not moved, 'labels': labels}
        for n_, (b, w, t) in enumerate(zip(beta, wb, tb)):
            close(b, w, f'{tag}: residual (the norm of the increment) reported for iteration {n_ + 1}', 0, 10 * t)
        got = P.get(P.instant(k))
        close(got, want, f'{tag}: iterate {len(beta)}', 0, tol)
        for d in rows:
            v = start[d] if rows[d] is None else rows[d]
            close(got[d], v, f'{tag}: constrained dof {d}', 0, 1e-9 * size)
        close(P.get(P.instant(k - 1)), xp, f'{tag}: the known cochains after solving', 0, 0)
        if later is not None and case['start'] == 'later':
            close(P.get(later), x_later, f'{tag}: the newest cochains after solving', 0, 0)
        moved = moved or bool(np.max(np.abs(got - xp)) > 1e-4)
        labels += order + ([f'ess{len(case["ess"])}'] if case['ess'] else [])
        # the next step starts here
        xp = x0 = got
        if later is not None and case['start'] == 'later':
            break
        k += 1
        done += 1
    return {'nontrivial': moved, 'labels': fe.labels(case['spec']) + labels + [f'steps{done}', scheme]}


SUBS = [
    Sub('stop', lambda: s_case('stop'), prop, 400, 5000, 'the solution differs from the start'),
    Sub('newton', lambda: s_case('newton'), prop, 400, 5000, 'the solution differs from the start'),
    Sub('picard', lambda: s_case('picard'), prop, 300, 3000, 'the solution differs from the start'),
]
