"""C10: a discretized weak formulation is the linear system it denotes."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, HarnessError, require, close
from checks.C07 import Sections, Degenerate, faces, side_dofs
from checks.C08 import dense, densev

ASSUMPTIONS = ['Mass and incidence matrices, gathering matrices and boundary integral vectors of the code (checked by C01, C02, C05, C07) '
               'are the pieces the expected system is composed of.']

TYPES = {('msepy', 1): ['crazy'], ('msepy', 2): ['crazy', 'crazy', 'crazy_multi'], ('msepy', 3): ['crazy'],
         ('msehtt', 2): ['crazy', 'crazy', 'ren', 'crazy_multi', 'backward_step', 'rectangle'], ('msehtt', 3): ['crazy0']}
INST = ['k-1', 'k-1/2', 'k']


# -------------------------------------------------------------------------------------- generation
def s_case():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(1, 2, 2, 2, 3), maxp=(3, 2, 1), maxn=(4, 3, 2), types=TYPES, periodic=(False, False, True),
                              cmax=0.2))
        d = spec['dim']
        per = bool(spec['mesh'].get('periodic'))
        o = draw(S.sampled_from([fe.I, fe.O]))
        nu = draw(S.integers(1, 3 if d < 3 else 2))
        ks = [draw(S.integers(0, d))]
        while len(ks) < nu:      # neighbours in the complex, so that derivatives couple them
            ks.append(min(d, max(0, draw(S.sampled_from(ks)) + draw(S.sampled_from([-1, 1, 1, 0])))))
        kn = [draw(S.integers(0, d)) for _ in range(draw(S.integers(1, 2)))]
        kw = ks + kn
        time = draw(S.sampled_from([True, True, False]))
        eqs = []
        for i in range(nu):
            k = ks[i]
            opt = [('id', w) for w in range(len(kw)) if kw[w] == k] + [('d', w) for w in range(len(kw)) if kw[w] == k - 1] + \
                  [('cd', w) for w in range(len(kw)) if kw[w] == k + 1]
            dyn = time and draw(S.integers(0, 3)) > 0
            terms = [['pt', i, draw(S.booleans()), draw(S.integers(0, 1)), 0, []]] if dyn else \
                [['id', i, draw(S.booleans()), draw(S.integers(0, 1)), 2, []]]
            seen = {(terms[0][0], i)}
            for _ in range(draw(S.integers(1, 3))):
                q = draw(S.sampled_from(opt))
                if q in seen:
                    continue
                seen.add(q)
                terms.append([q[0], q[1], draw(S.booleans()), draw(S.integers(0, 1)), draw(S.integers(0, 5)), []])
            terms = list(draw(S.permutations(terms)))
            eqs.append(terms)
        fac = S.sampled_from([2, 0.5, -1.25, 3.7, 1e-3, 1])
        return {'spec': spec, 'o': o, 'ks': ks, 'kn': kn, 'time': time, 'eqs': eqs,
                'bc': 0 if per or d == 1 else draw(S.integers(0, 3)), 'mix': draw(S.integers(0, 10 ** 6)),
                'factors': draw(S.lists(fac, min_size=8, max_size=8)),
                'switch': draw(S.lists(S.integers(0, nu - 1), max_size=2)),
                'delete': draw(S.integers(0, 3)) == 0,
                'ts': [draw(fe.s_num(0, 2, 1)), draw(fe.s_num(0.1, 2, 1)), draw(S.integers(2, 4))],
                'steps': draw(S.lists(S.integers(1, 4), min_size=1, max_size=4)),
                'fields': [draw(fe.s_field(d, 1)), draw(fe.s_field(d, d if d > 1 else 1))],
                'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


# -------------------------------------------------------------------------------------- the model
class Term:
    """sign * factor * ( op(w at inst) , v ); op: 'id' | 'd' | 'cd' (w, dv) | 'bd' -<tr*w|tr v> | 'pt'."""

    def __init__(self, op, w, sign, factor=1., inst=None):
        self.op, self.w, self.sign, self.factor, self.inst = op, w, sign, factor, inst

    def copy(self, **kw):
        t = Term(self.op, self.w, self.sign, self.factor, self.inst)
        for k, v in kw.items():
            setattr(t, k, v)
        return t


class Problem:
    """Runs one weak formulation through the code, next to a list-of-terms model of it."""

    def __init__(self, case):
        self.case = case
        spec = case['spec']
        self.d = d = spec['dim']
        self.kw = case['ks'] + case['kn']
        self.nu = len(case['ks'])
        o = case['o']
        self.keys = sorted({(k, o) for k in self.kw} | {(k + 1, o) for k in case['ks'] if k < d} |
                           {(k - 1, o) for k in case['ks'] if k > 0})
        self.r = np.random.default_rng(case['mix'])
        self.per = bool(spec['mesh'].get('periodic')) and spec['mesh']['type'] != 'backward_step'
        self.Ms, self.Es = {}, {}
        self.plan_bc()
        if case['bc']:
            self.Z = Sections(spec, case['seed'], self.keys, make=self.abstract)
            self.D = self.Z.D
        else:
            self.Z = None
            self.D = fe.Disc(spec, keys=self.keys, make_abstract=self.abstract)

    def plan_bc(self):
        """Which form has a natural condition (in one equation), and which unknowns have essential conditions."""
        case = self.case
        self.natural, self.essential = None, []
        if not case['bc']:
            return
        cand = [(i, t[1]) for i, eq in enumerate(case['eqs']) for t in eq if t[0] == 'cd']
        if self.d == 2 and cand and case['bc'] in (1, 3):
            self.natural = cand[self.r.integers(0, len(cand))]
        ess = [i for i in range(self.nu) if case['ks'][i] < self.d]
        if ess and case['bc'] in (2, 3):
            self.essential = sorted({ess[j] for j in self.r.integers(0, len(ess), 2)})

    # ------------------------------------------------------------------ the abstract side
    def abstract(self, D):
        ph = boot.phyem()
        case, r = self.case, self.r
        o = case['o']
        F = []
        for w, k in enumerate(self.kw):
            sp = D.abs_forms[(k, o)].space
            F.append(sp.make_form(rf'{"abcgh"[w]}^{k}', f'lin-w{w}'))
        self.F = F
        names, rows = {}, []
        for i, eq in enumerate(case['eqs']):
            txt, side = ['', ''], [[], []]
            for op, w, pos, sd, *_ in eq:
                n = f'{op}_w{w}'
                if n not in names:
                    f = F[w]
                    names[n] = {'id': lambda: f, 'd': f.exterior_derivative, 'cd': f.codifferential, 'pt': f.time_derivative}[op]()
                txt[sd] += (' + ' if pos else ' - ') + n
                side[sd].append(Term(op, w, 1. if pos else -1.))
            rows.append(((txt[0] or '0') + ' = ' + (txt[1] or '0'), side))
        self.expr = [x for x, _ in rows]
        self.M = M = [s for _, s in rows]          # the model: per equation [left terms, right terms]
        pde = ph.pde(self.expr, names)
        pde._indi_dict = None
        pde.unknowns = F[:self.nu]
        if case['bc']:
            bcs = {}
            if self.natural is not None:
                bcs.setdefault(r'\Gamma_a', []).append(ph.trace(ph.Hodge(F[self.natural[1]])))
            for j in self.essential:
                bcs.setdefault(r'\Gamma_b', []).append(ph.trace(F[j]))
            if bcs:
                pde.bc.define_bc({k: (v[0] if len(v) == 1 and r.integers(0, 2) else v) for k, v in bcs.items()})
        wf = pde.test_with([F[i].space for i in range(self.nu)], sym_repr=[rf'v_{i}' for i in range(self.nu)])
        # ---- integration by parts, term by term
        for i in range(self.nu):
            while True:
                flat = [(s, n, t) for s in range(2) for n, t in enumerate(M[i][s])]
                todo = [(m, s, n, t) for m, (s, n, t) in enumerate(flat) if t.op == 'cd' and t.inst is None]
                if not todo:
                    break
                m, s, n, t = todo[r.integers(0, len(todo))]
                keep = self.natural == (i, t.w)
                wf = wf.derive.integration_by_parts(f'{i}-{m}', **({} if self.per or keep else {'drop_bi_term': True}))
                new = [t.copy(inst='*')] + ([t.copy(op='bd', sign=-t.sign, inst='*')] if keep and not self.per else [])
                M[i][s][n:n + 1] = new
        for i in range(self.nu):
            for s in range(2):
                M[i][s] = [t.copy(inst=None) for t in M[i][s]]
        for i in case['switch'][:1]:
            wf = wf.derive.switch_sign(i)
            self.flip(i)
        # ---- time
        self.ts = ts = None
        if case['time']:
            wf, ts = self.discretize_time(ph, wf)
            self.ts = ts
        else:
            wf = self.split_static(wf)
        self.un = [(w, 'k' if case['time'] else None) for w in range(self.nu)]
        # ---- delete a term
        if case['delete']:
            i = int(r.integers(0, self.nu))
            flat = self.flat(i)
            ok = [m for m, (s, n, t) in enumerate(flat) if t.op != 'bd' and not self.is_main(t, i)]
            if ok and len(flat) > 2:
                m = ok[r.integers(0, len(ok))]
                wf = wf.derive.delete(f'{i}-{m}')
                s, n, _ = flat[m]
                del M[i][s][n]
        # ---- unknowns to the left, the rest to the right, in any order
        arr = {}
        for i in range(self.nu):
            flat = self.flat(i)
            L = [m for m, (s, n, t) in enumerate(flat) if (t.w, t.inst) in self.un and t.op != 'bd']
            R = [m for m in range(len(flat)) if m not in L]
            L, R = [L[j] for j in r.permutation(len(L))], [R[j] for j in r.permutation(len(R))]
            sep = [', ', ','][r.integers(0, 2)]
            arr[i] = sep.join(map(str, L)) + ' = ' + sep.join(map(str, R))
            side = []
            for s, ms in enumerate((L, R)):
                side.append([flat[m][2].copy(sign=flat[m][2].sign * (1 if flat[m][0] == s else -1)) for m in ms])
            M[i][:] = side
        wf = wf.derive.rearrange(arr if r.integers(0, 2) else [arr[i] for i in range(self.nu)])
        if len(case['switch']) > 1:
            wf = wf.derive.switch_sign(case['switch'][1])
            self.flip(case['switch'][1])
        self.wf = wf
        ph.space.finite(fe.parse_degree(case['spec']['degree']))
        mp = wf.mp()
        ls = mp.ls()
        self.mp, self.abs_ls = mp, ls
        out = {'ls': ls}
        out.update({f'F{w}': f for w, f in enumerate(F)})
        if ts is not None:
            out['ts'] = ts
        return out

    def is_main(self, t, i):
        return t.w == i and t.op == 'id' and t.inst in (None, 'k')

    def flat(self, i):
        return [(s, n, t) for s in range(2) for n, t in enumerate(self.M[i][s])]

    def flip(self, i):
        for s in range(2):
            self.M[i][s] = [t.copy(sign=-t.sign) for t in self.M[i][s]]

    def form_of(self, t, ph, inst=None):
        f = self.F[t.w]
        inst = t.inst if inst is None else inst
        if inst is not None:
            f = f @ self._ts[inst]
        return f.exterior_derivative() if t.op == 'd' else f

    def split_static(self, wf):
        """Some terms get a factor, or are split in two."""
        ph = boot.phyem()
        r, M = self.r, self.M
        self._ts = None
        fac = list(self.case['factors'])
        for i in range(self.nu):
            for _ in range(int(r.integers(0, 3))):
                flat = self.flat(i)
                ok = [m for m, (s, n, t) in enumerate(flat) if t.op != 'bd' and t.factor == 1.]
                if not ok or not fac:
                    continue
                m = ok[r.integers(0, len(ok))]
                s, n, t = flat[m]
                f = self.form_of(t, ph)
                N = int(r.integers(1, 3))
                fs = [fac.pop() for _ in range(min(N, len(fac)))]
                sg = ['+-'[r.integers(0, 2)] for _ in fs]
                wf = wf.derive.split(f'{i}-{m}', 'f0', [f] * len(fs), sg, factors=list(fs))
                M[i][s][n:n + 1] = [t.copy(sign=t.sign * (1 if g == '+' else -1), factor=float(x)) for x, g in zip(fs, sg)]
        return wf

    def discretize_time(self, ph, wf):
        case, r, M = self.case, self.r, self.M
        ts = ph.time_sequence()
        dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t') if r.integers(0, 2) else ts.make_time_interval('k-1', 'k')
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants(*INST)
        self._ts = ts
        plan = {}
        code = {}
        for i, eq in enumerate(case['eqs']):
            for op, w, pos, sd, c, _ in eq:
                code[(i, op, w)] = c
        order = [(i, m) for i in range(self.nu) for m in range(len(self.flat(i)))]
        for j in r.permutation(len(order)):
            i, m = order[j]
            t = self.flat(i)[m][2]
            if t.op == 'pt':
                td.differentiate(f'{i}-{m}', 'k-1', 'k')
                plan[(i, m)] = 'diff'
                continue
            c = code[(i, 'cd' if t.op == 'bd' else t.op, t.w)]
            if t.op == 'bd':
                inst = ['k', 'k-1', 'k-1/2'][c % 3]
                td.average(f'{i}-{m}', self.F[t.w], [inst])
                plan[(i, m)] = [inst]
            elif c < 2:
                inst = [['k-1', 'k'], ['k', 'k-1']][c]
                td.average(f'{i}-{m}', self.F[t.w], ['k-1', 'k'])
                plan[(i, m)] = inst
            else:
                inst = ['k', 'k-1', 'k-1/2', 'k'][c - 2]
                if c == 5:
                    td.average(f'{i}-{m}', self.F[t.w], inst)
                else:
                    td.average(f'{i}-{m}', self.F[t.w], [inst])
                plan[(i, m)] = [inst]
        wf = td()
        wf.unknowns = [self.F[w] @ ts['k'] for w in range(self.nu)]
        # the td is expected to give one term per term; now the averages and differences are written out
        for i in range(self.nu):
            for s in range(2):
                for n, t in enumerate(M[i][s]):
                    m = [q for q, (s_, n_, _) in enumerate(self.flat(i)) if (s_, n_) == (s, n)][0]
                    t.plan = plan[(i, m)]
        theta = list(case['factors'])
        for i in r.permutation(self.nu):
            i = int(i)
            while True:
                flat = self.flat(i)
                todo = [(m, x) for m, x in enumerate(flat) if getattr(x[2], 'plan', None) is not None]
                if not todo:
                    break
                m, (s, n, t) = todo[r.integers(0, len(todo))]
                if t.plan == 'diff':
                    f = self.F[t.w]
                    wf = wf.derive.split(f'{i}-{m}', 'f0', [f @ ts['k'], f @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
                    M[i][s][n:n + 1] = [Term('id', t.w, t.sign, '1/dt', 'k'), Term('id', t.w, -t.sign, '1/dt', 'k-1')]
                elif len(t.plan) == 2:
                    a = [0.5, 0.5] if r.integers(0, 2) or not theta else [theta.pop(), 0.5]
                    fs = [self.form_of(t, ph, x) for x in t.plan]
                    g = [1 / 2 if x == 0.5 else x for x in a]
                    wf = wf.derive.split(f'{i}-{m}', 'f0', fs, ['+', '+'], factors=g)
                    M[i][s][n:n + 1] = [Term(t.op, t.w, t.sign, x, y) for x, y in zip(a, t.plan)]
                else:
                    M[i][s][n] = Term(t.op, t.w, t.sign, t.factor, t.plan[0])
        return wf, ts

    # ------------------------------------------------------------------ the concrete side
    def configure(self):
        case, D = self.case, self.D
        self.ls = D.objs['ls'].apply()
        self.forms = [D.impl.base['forms'][f'lin-w{w}'] for w in range(len(self.kw))]
        d, o = self.d, case['o']
        F = [fe.Field(fe.tame(D, x), d) for x in case['fields']]
        self.FF = F
        if self.natural is not None:
            i, w = self.natural
            k = case['ks'][i]
            self.nvc = (F[0] if k == 1 else F[1]).vc(d, (0, o) if k == 1 else (1, o))
            if D.lib == 'msepy':
                self.ls.bc.config(D.impl.base['manifolds'][r'\Gamma_a'])(self.nvc)
            else:
                self.ls.config(['natural bc', 1], self.Z.ms[r'\Gamma_a'], self.nvc, root_form=self.forms[w])
        self.evc = {}
        for j in self.essential:
            k = case['ks'][j]
            self.evc[j] = (F[0] if k in (0, d) else F[1]).vc(d, (k, o))
            if D.lib == 'msepy':
                man = D.impl.base['manifolds'][r'\Gamma_b']
                if len(self.essential) > 1:
                    bc = self.ls.bc.config(man, form=_Sym(self.F[j], boot.phyem()))
                else:
                    bc = self.ls.bc.config(man)
                bc(self.evc[j])
            else:
                self.ls.config(['essential bc', 1], self.Z.ms[r'\Gamma_b'], self.evc[j], root_form=self.forms[j])
        if self.ts is not None:
            t0, dt, n = case['ts']
            self.ts.specify('constant', [t0, t0 + n * dt, 2 * n], 2)
            self.dt, self.t0, self.n = dt, t0, n

    def time_of(self, inst, k):
        if inst is None:
            return 0.
        return self.t0 + self.dt * (k + {'k-1': -1, 'k-1/2': -0.5, 'k': 0}[inst])

    def expected(self, k, values):
        """(A, b, offsets): the dense system at step k; values(w, t) -> the local cochains."""
        D, case = self.D, self.case
        o = case['o']
        els = D.elements
        keys = [(x, o) for x in case['ks']]
        gm = {key: D.gm(key) for key in set(keys)}
        off = np.concatenate([[0], np.cumsum([gm[key][1] for key in keys])]).astype(int)
        N = off[-1]
        A, b = np.zeros((N, N)), np.zeros(N)
        Ms, Es = self.Ms, self.Es       # as they were before any system was built

        def Mm(kk, e):
            if (kk, e) not in Ms:
                Ms[(kk, e)] = D.M((kk, o), e)
            return Ms[(kk, e)]

        def En(kk, e):
            if (kk, e) not in Es:
                Es[(kk, e)] = D.E((kk, o), e)
            return Es[(kk, e)]
        for i in range(self.nu):
            ki = case['ks'][i]
            gi = gm[keys[i]][0]
            for s in range(2):
                for t in self.M[i][s]:
                    c = t.sign * (1. / self.dt if t.factor == '1/dt' else t.factor)
                    if t.op == 'bd':
                        vec = self.boundary_vector(i, self.time_of(t.inst, k))
                        for e in els:
                            if e in vec:
                                np.add.at(b, off[i] + gi[e], c * vec[e] * (1 if s == 1 else -1))
                        continue
                    unk = (t.w, t.inst) in self.un
                    for e in els:
                        if t.op == 'id':
                            B = Mm(ki, e)
                        elif t.op == 'd':
                            B = Mm(ki, e) @ En(ki - 1, e)
                        elif t.op == 'cd':
                            B = En(ki, e).T @ Mm(ki + 1, e)
                        else:
                            raise HarnessError(t.op)
                        if unk:
                            if s != 0:
                                raise HarnessError('unknown on the right')
                            np.add.at(A, (off[i] + gi[e][:, None], off[t.w] + gm[keys[t.w]][0][e][None, :]), c * B)
                        else:
                            v = values(t.w, self.time_of(t.inst, k))
                            np.add.at(b, off[i] + gi[e], c * (B @ v[e]) * (1 if s == 1 else -1))
        for j in self.essential:
            tk = self.time_of('k' if case['time'] else None, k)
            red = self.reduced(j, tk)
            for (e, a, n) in faces(self.Z, self.section(r'\Gamma_b')):
                for l in sorted(side_dofs(D, keys[j], e, a, n)):
                    g = off[j] + gm[keys[j]][0][e][l]
                    A[g] = 0
                    A[g, g] = 1
                    b[g] = red[e][l]
        return A, b, off, gm, keys

    def section(self, name):
        if self.D.lib == 'msepy':
            return self.D.impl.find_mesh_of_manifold(self.D.impl.base['manifolds'][name])
        return self.Z.ms[name]

    def boundary_vector(self, i, t):
        D, key = self.D, (self.case['ks'][i], self.case['o'])
        f = D.forms[key]
        v = f.bi.with_vc_over_boundary_section(t, self.nvc, self.section(r'\Gamma_a'))
        if D.lib == 'msepy':
            return {e: v[e] for e in D.elements}
        return {e: np.asarray(v[e]) for e in v}

    def reduced(self, j, t):
        D, key = self.D, (self.case['ks'][j], self.case['o'])
        f = D.forms[key]
        if D.lib == 'msepy':
            return f.reduce(t, update_cochain=False, target=self.evc[j])
        r = f.reduce(self.evc[j][t] if hasattr(self.evc[j], '__getitem__') else self.evc[j])
        return r


class _Sym:
    def __init__(self, f, ph):
        self._sym_repr = ph.trace(f)._sym_repr


def prop_system(case):
    try:
        P = Problem(case)
    except Degenerate:
        return {'nontrivial': False, 'excluded': True}
    P.configure()
    D = P.D
    els = D.elements
    htt = D.lib == 'msehtt'
    cache = {}
    cut = lambda t: round(float(t), 8)  # noqa

    def values(w, t):
        return cache[(w, cut(t))]

    def provide(k):
        """cochains for everything on the right"""
        need = {(t.w, P.time_of(t.inst, k)) for i in range(P.nu) for s in range(2) for t in P.M[i][s]
                if t.op != 'bd' and (t.w, t.inst) not in P.un}
        for w, t in sorted(need):
            if (w, cut(t)) not in cache or htt:
                v, _ = fe.rng_cochains(D, (P.kw[w], case['o']), case['seed'] + 7 * w + int(1000 * t))
                cache[(w, cut(t))] = v
                D.set_cochain(None, t, v, form=P.forms[w])
    steps = case['steps'] if case['time'] else [1, 1]
    if case['time']:
        steps = [1 + (k - 1) % P.n for k in steps]
    if htt:
        steps = sorted(set(steps)) if case['time'] else steps     # msehtt keeps the three latest cochains
    done = 0
    for k in steps:
        provide(k)
        A, b, off, gm, keys = P.expected(k, values)
        if case['time']:
            st = P.ls(k=k)
        else:
            st = P.ls(0.) if P.natural is not None or case['mix'] % 2 else P.ls(0)
        als = st.assemble()
        GA, Gb = dense(als.A), densev(als.b)
        N = len(b)
        require(GA.shape == (N, N) and Gb.shape == (N,), f'shape of the system: {GA.shape}, {Gb.shape}, expected {N}')
        cg = st.global_gathering_matrices[1]
        where = np.zeros(N, dtype=int)
        for e in els:
            loc = np.concatenate([off[i] + gm[keys[i]][0][e] for i in range(P.nu)])
            where[loc] = np.asarray(cg[e])
        GA, Gb = GA[np.ix_(where, where)], Gb[where]
        txt = f'{P.expr} (step {k})'
        for i in range(P.nu):
            for j in range(P.nu):
                close(GA[off[i]:off[i + 1], off[j]:off[j + 1]], A[off[i]:off[i + 1], off[j]:off[j + 1]],
                      f'{txt}: block {i},{j} of A', 1e-9, 1e-10, scale=1e-3)
            close(Gb[off[i]:off[i + 1]], b[off[i]:off[i + 1]], f'{txt}: block {i} of b', 1e-9, 1e-10, scale=1.)
        done += 1
        # writing a solution into the unknowns
        y = np.random.default_rng(case['seed'] + k).normal(size=N)
        z = np.zeros(N)
        z[where] = y
        st.x.update(z)
        tk = P.time_of('k' if case['time'] else None, k)
        for i in range(P.nu):
            got = D.get_cochain(None, tk, form=P.forms[i])
            for e in els:
                close(got[e], y[off[i] + gm[keys[i]][0][e]], f'{txt}: unknown {i} after the update', 0, 1e-13)
            cache[(i, cut(tk))] = {e: np.array(got[e]) for e in els}
    for kk, e in P.Ms:
        close(D.M((kk, case['o']), e), P.Ms[(kk, e)], f'{txt}: the mass matrix of the space of {kk}-forms after the systems were built',
              1e-12, 1e-14, scale=1e-3)
    lab = fe.labels(case['spec']) + (['time'] if case['time'] else ['steady']) + (['natural'] if P.natural else []) + \
        (['essential'] if P.essential else [])
    return {'nontrivial': sum(len(s) for m in P.M for s in m) > P.nu and len(els) > 1, 'labels': lab}


# -------------------------------------------------------------------------------------- manufactured solutions
def s_manufactured():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2, 2, 2, 3), maxp=(4, 4, 3), maxn=(4, 3, 2), cmax=0.1, periodic=(False,),
                              types={('msepy', 2): ['crazy', 'crazy_multi', 'backward_step'], ('msepy', 3): ['crazy'],
                                     ('msehtt', 2): ['crazy', 'ren', 'crazy_multi', 'backward_step'], ('msehtt', 3): ['crazy0']}))
        if 'c' in spec['mesh']:
            spec['mesh']['c'] = 0.
        for x in spec['mesh'].get('bounds') or []:      # (the condition of the system is not at stake here)
            if not 0.1 < x[1] - x[0] < 5:
                x[:] = [0.5, 1.5]
        d = spec['dim']
        g = spec['degree']
        if d == 3:      # room for a potential that vanishes on the natural section
            spec['degree'] = 3
            if spec['mesh'].get('layout'):
                spec['mesh']['layout'] = [x if isinstance(x, int) and x < 3 else 2 for x in (
                    spec['mesh']['layout'] if isinstance(spec['mesh']['layout'], list) else [2, 2, 2])]
        elif isinstance(g, int):
            spec['degree'] = max(g, 2)
        else:
            spec['degree'] = [max(x, 2) if isinstance(x, int) else (x if len(x) > 1 else [0.4, 0.6]) for x in g]
        o = draw(S.sampled_from([fe.I, fe.O]))
        b = S.booleans()
        sd = S.integers(0, 1)
        if o == fe.O:
            ks, kn = [d - 1, d], [d]
            eqs = [[['id', 0, draw(b), draw(sd)], ['cd', 1, draw(b), draw(sd)]], [['d', 0, draw(b), draw(sd)], ['id', 2, draw(b), draw(sd)]]]
        else:
            ks, kn = [1, 0], [0]
            eqs = [[['id', 0, draw(b), draw(sd)], ['d', 1, draw(b), draw(sd)]], [['cd', 0, draw(b), draw(sd)], ['id', 2, draw(b), draw(sd)]]]
        eqs = [list(draw(S.permutations([x + [0, []] for x in eq]))) for eq in eqs]
        amp = fe.s_num(-2, 2, 1).filter(lambda a: abs(a) > 0.05)
        term = S.tuples(S.just('p'), amp, *[S.integers(0, 3)] * d, S.just(0)).map(list)
        return {'spec': spec, 'o': o, 'ks': ks, 'kn': kn, 'time': False, 'eqs': eqs, 'bc': 3, 'mix': draw(S.integers(0, 10 ** 6)),
                'factors': [], 'switch': draw(S.lists(sd, max_size=2)), 'delete': False,
                'phi': draw(S.lists(term, min_size=1, max_size=4)), 'seed': draw(S.integers(0, 10 ** 6)), 't': draw(fe.s_num(0, 2, 1))}
    return mk()


class Elliptic(Problem):
    """u = c1 grad(phi), f = c2 div(u), from equations with given signs."""

    def plan_bc(self):
        outer = self.case['o'] == fe.O
        self.natural = ((0, 1) if outer else (1, 0)) if self.d == 2 else None
        self.essential = [0] if outer else [1]

    def split_static(self, wf):
        self._ts = None
        return wf


def poly_mul(ts, a, c):
    """The polynomial ts times (x_a - c)."""
    out = []
    for t in ts:
        n = list(t)
        n[2 + a] += 1
        out.append(n)
        m = list(t)
        m[1] = -c * t[1]
        if m[1]:
            out.append(m)
    return out


def prop_manufactured(case):
    spec = case['spec']
    try:
        P = Elliptic(case)
    except Degenerate:
        return {'nontrivial': False, 'excluded': True}
    D, d, o = P.D, P.d, case['o']
    outer = o == fe.O
    ps = fe.axis_degrees(spec)
    pmin = [len(x) if isinstance(x, (list, tuple)) else x for x in ps]
    cap = [p - 1 for p in pmin]
    if min(cap) < 1:
        return {'nontrivial': False, 'excluded': True}
    phi = []
    nat = []
    if d == 3:      # no boundary term: the natural quantity vanishes on the natural section
        sides = sorted({(a, n) for e, a, n in faces(P.Z, P.section(r'\Gamma_a'))})
        box = spec['mesh'].get('bounds') or [[0, 1]] * d
        nat = [(a, float(box[a][n])) for a, n in sides]
    room = [c - sum(a == b for b, _ in nat) for a, c in enumerate(cap)]
    if min(room) < 0 or (not outer and d == 3):
        # (inner, 3-d: the normal flux would have to vanish; the squares below do that)
        if outer or min(c - 2 * sum(a == b for b, _ in nat) for a, c in enumerate(cap)) < 0:
            return {'nontrivial': False, 'excluded': True}
        room = [c - 2 * sum(a == b for b, _ in nat) for a, c in enumerate(cap)]
    for t in case['phi']:
        phi.append([t[0], t[1]] + [min(x, r) for x, r in zip(t[2:2 + d], room)] + [0])
    for a, c in nat:
        for _ in range(1 if outer else 2):
            phi = poly_mul(phi, a, c)
    phi = fe.Field([phi], d)
    # ---- signs: sum of sign*term over the left minus the right
    sg = [{x[0]: (1 if x[2] else -1) * (1 if x[3] == 0 else -1) for x in eq} for eq in case['eqs']]
    if outer:      # a u + b d*phi = 0, d*phi = -grad phi;  c du + e f = 0
        c1 = sg[0]['cd'] / sg[0]['id']
        c2 = -sg[1]['d'] / sg[1]['id']
    else:          # a u + b dphi = 0;  c d*u + e f = 0, d*u = -div u
        c1 = -sg[0]['d'] / sg[0]['id']
        c2 = sg[1]['cd'] / sg[1]['id']
    sc = lambda ts, c: [[t[0], c * t[1]] + list(t[2:]) for t in ts]  # noqa
    u = fe.Field([sc(phi.diff(0, a), c1) or [['p', 0.] + [0] * (d + 1)] for a in range(d)], d)
    f = fe.Field([sum((sc(u.diff(a, a), c2) for a in range(d)), []) or [['p', 0.] + [0] * (d + 1)]], d)
    FF = [phi, u]
    case = dict(case, fields=[FF[0].comps, FF[1].comps])
    P.case = case
    tame, fe.tame = fe.tame, lambda D, x: x
    try:
        P.configure()
    finally:
        fe.tame = tame
    t = case['t']
    kf = case['kn'][0]
    F = P.forms
    def reduced(i, field, k):
        F[i].cf = field.vc(d, (k, o))
        F[i][t].reduce()
        return D.get_cochain(None, t, form=F[i])
    reduced(2, f, kf)
    ls = P.ls(t)
    als = ls.assemble()
    empty = not faces(P.Z, P.section(r'\Gamma_a' if outer else r'\Gamma_b'))      # the potential is free up to a constant
    GA = dense(als.A)
    GA = GA / np.max(np.abs(GA), axis=1, keepdims=True)
    cond = np.linalg.cond(GA)
    require(cond < 1e14 or empty, f'{P.expr}: the system is singular')
    if empty or cond > 1e9:
        return {'nontrivial': False, 'excluded': True}
    x, msg, info = als.solve('spsolve')[:3] if D.lib == 'msehtt' else (als.solve()[0], '', 0)
    ls.x.update(x)
    size = []
    for i, g in enumerate((u, phi)):
        got = D.get_cochain(None, t, form=F[i])
        ref = reduced(i, g, case['ks'][i])
        scale = max(np.max(np.abs(ref[e])) for e in D.elements)
        size.append(scale)
        for e in D.elements:
            close(got[e], ref[e], f'{P.expr}: {"u" if i == 0 else "phi"} of the manufactured solution, element {e}', 0, max(1e-9, 1e-14 * cond) * max(scale, *size, 1e-2))
    return {'nontrivial': size[0] > 1e-3 and len(D.elements) > 1, 'labels': fe.labels(spec) + [o, f'd{d}']}


SUBS = [
    Sub('system', s_case, prop_system, 1200, 15000, 'more terms than equations on several elements'),
    Sub('manufactured', s_manufactured, prop_manufactured, 320, 5000, 'a non-constant potential on several elements'),
]
