"""C11: structure preservation of time-stepping schemes: conservation of energy, power balance, strong conservation laws, step by step."""
import numpy as np

from lib import boot, core, fe
from lib.core import Sub, require, close
from checks import C07

ASSUMPTIONS = ['Systems are solved by dense least squares, so a constant pressure may be undetermined.']
I, O = 'inner', 'outer'


def energy(D, key, t):
    c = D.get_cochain(key, t)
    return sum(c[e] @ D.M(key, e) @ c[e] for e in D.elements)


def inner(D, key, u, v):
    return sum(u[e] @ D.M(key, e) @ v[e] for e in D.elements)


def solve(D, ls, k):
    st = ls(k=k)
    als = st.assemble()
    A, b = (als.A.M, als.b.V) if D.lib == 'msehtt' else (als.A._M, als.b._v)
    A, b = A.toarray(), np.array(b)
    x, _, _, sv = np.linalg.lstsq(A, b, rcond=1e-13)
    r = np.linalg.norm(A @ x - b)
    if r > 1e-8 * (np.linalg.norm(b) + 1e-3):
        return None
    st.x.update(x)
    sv = sv[sv > 1e-13 * sv[0]]
    return sv[0] / sv[-1]


def steps(case, ts):
    n, t0, dt = case['n'], case['t0'], case['dt']
    ts.specify('constant', [t0, t0 + n * dt, 2 * n], 2)


# ------------------------------------------------------------------------------------------------ linear waves
def wave_abstract(case, hold, natural=False):
    def make(D):
        ph = boot.phyem()
        k, o, s = case['k'], case['o'], case['sign']
        a, b = D.abs_forms[(k + 1, o)], D.abs_forms[(k, o)]
        da_dt, db_dt = a.time_derivative(), b.time_derivative()
        cd_a, d_b = a.codifferential(), b.exterior_derivative()
        pm = '+' if s > 0 else '-'
        mp_ = '-' if s > 0 else '+'
        if case['side'] == 0:
            expr = [f'da_dt = {pm} d_b', f'db_dt = {mp_} cd_a']
        else:
            expr = [f'da_dt {mp_} d_b = 0', f'db_dt {pm} cd_a = 0']
        pde = ph.pde(expr, {'da_dt': da_dt, 'd_b': d_b, 'db_dt': db_dt, 'cd_a': cd_a})
        pde._indi_dict = None
        pde.unknowns = [a, b]
        if natural:
            D.abstract_mesh.boundary_partition(r'\Gamma_a', r'\Gamma_b')
            pde.bc.define_bc({r'\Gamma_a': ph.trace(ph.Hodge(a)), r'\Gamma_b': ph.trace(b)})
        wf = pde.test_with([a.space, b.space], sym_repr=['p', 'q'])
        wf = wf.derive.integration_by_parts('1-1', **({} if natural else {'drop_bi_term': True}))
        wf = wf.derive.rearrange({0: '0, 1 = ', 1: '0, 1 = 2' if natural else '0, 1 = '})
        ts = ph.time_sequence()
        dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t')
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
        td.differentiate('0-0', 'k-1', 'k')
        td.average('0-1', b, ['k-1', 'k'])
        td.differentiate('1-0', 'k-1', 'k')
        td.average('1-1', a, ['k-1', 'k'])
        if natural:
            td.average('1-2', a, ['k-1/2'])
        wf = td()
        wf.unknowns = [a @ ts['k'], b @ ts['k']]
        wf = wf.derive.split('0-0', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        wf = wf.derive.split('1-0', 'f0', [b @ ts['k'], b @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        wf = wf.derive.split('0-2', 'f0', [(b @ ts['k']).exterior_derivative(), (b @ ts['k-1']).exterior_derivative()], ['+', '+'], factors=[1 / 2, 1 / 2])
        wf = wf.derive.split('1-2', 'f0', [(a @ ts['k']), (a @ ts['k-1'])], ['+', '+'], factors=[1 / 2, 1 / 2])
        wf = wf.derive.rearrange({0: '0, 2 = 1, 3', 1: '2, 0 = 3, 1' + (', 4' if natural else '')})
        ph.space.finite(fe.parse_degree(case['spec']['degree']))
        hold['ts'] = ts
        return {'ls': wf.mp().ls(), 'a': a, 'b': b}
    return make


def start(D, case, keys, t0):
    for i, k in enumerate(keys):
        v, _ = fe.rng_cochains(D, k, case['seed'] + i)
        D.set_cochain(k, t0, v)


def strong(D, case, ka, kb, t, dt):
    """a_k - a_{k-1} = +-dt d (b_k + b_{k-1})/2, dof by dof"""
    a1, a0 = D.get_cochain(ka, t), D.get_cochain(ka, t - dt)
    b1, b0 = D.get_cochain(kb, t), D.get_cochain(kb, t - dt)
    for e in D.elements:
        close((a1[e] - a0[e]) / dt, case['sign'] * D.E(kb, e) @ (b1[e] + b0[e]) / 2, f'the law of conservation at t={t} in element {e}', 1e-6, 1e-7, scale=1.)


def prop_wave(case):
    spec = case['spec']
    hold = {}
    k, o = case['k'], case['o']
    ka, kb = (k + 1, o), (k, o)
    D = fe.Disc(spec, keys=[ka, kb], make_abstract=wave_abstract(case, hold))
    ts = hold['ts']
    steps(case, ts)
    t0, dt = case['t0'], case['dt']
    start(D, case, [ka, kb], t0)
    ls = D.objs['ls'].apply()
    H = [energy(D, ka, t0) + energy(D, kb, t0)]
    first = D.get_cochain(kb, t0)
    worst = 0.
    for m in range(1, case['n'] + 1):
        cond = solve(D, ls, m)
        if cond is None or cond > 1e9:
            return {'nontrivial': False, 'excluded': True}
        worst = max(cond, worst)
        t = t0 + m * dt
        H.append(energy(D, ka, t) + energy(D, kb, t))
        strong(D, case, ka, kb, t, dt)
    for i, h in enumerate(H):
        close(h, H[0], f'the energy after {i} steps (case k={k} {o})', 1e-9 + 1e-14 * worst, 0)
    moved = D.get_cochain(kb, t0 + case['n'] * dt)
    change = max(np.max(np.abs(moved[e] - first[e])) for e in D.elements)
    return {'nontrivial': bool(change > 1e-6), 'labels': fe.labels(spec) + [f'a in ({k + 1},{o})']}


def s_base(draw, S, spec):
    return {'spec': spec, 'o': draw(S.sampled_from([O, I])), 'sign': draw(S.sampled_from([1., -1.])), 'side': draw(S.integers(0, 1)),
            'n': draw(S.integers(1, 4)), 't0': draw(S.sampled_from([0., 1., -2.5])), 'dt': draw(S.sampled_from([.5, .1, .02])), 'seed': draw(S.integers(0, 10 ** 6))}


TW = {('msepy', 1): ['crazy'], ('msepy', 2): ['crazy', 'crazy', 'crazy_multi', 'backward_step'], ('msepy', 3): ['crazy'],
      ('msehtt', 2): ['crazy', 'crazy_multi', 'quad', 'rectangle', 'ts', 'meshpy', 'ren'], ('msehtt', 3): ['crazy0', 'crazy']}


def s_wave():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(1, 2, 2, 2, 3), maxp=(3, 3, 1), maxn=(4, 3, 2), types=TW))
        return dict(s_base(draw, S, spec), k=draw(S.integers(0, spec['dim'] - 1)))
    return mk()


# ------------------------------------------------------------------------------------------------ power through the boundary
def prop_power(case):
    spec = case['spec']
    hold = {}
    k, o, s = case['k'], case['o'], case['sign']
    ka, kb = (k + 1, o), (k, o)
    try:
        Z = C07.Sections(spec, case['seed'], [ka, kb], make=wave_abstract(case, hold, True))
    except C07.Degenerate:
        return {'nontrivial': False, 'excluded': True}
    D = Z.D
    steps(case, hold['ts'])
    t0, dt = case['t0'], case['dt']
    F = fe.Field(fe.tame(D, case['field']), 2)
    vc = F.vc(2, (0, O) if len(F.comps) == 1 else (1, O))
    zero = fe.Field([[['c', 0., 0, 0, 0, 0]]] * len(case['zero']), 2).vc(2, (0, O) if len(case['zero']) == 1 else (1, O))
    ls = D.objs['ls'].apply()
    b = D.forms[kb]
    if D.lib == 'msepy':
        man = D.impl.base['manifolds']
        ls.bc.config(man[r'\Gamma_a'])(vc)
        ls.bc.config(man[r'\Gamma_b'])(zero)
    else:
        ls.config(['natural bc', 1], Z.ms[r'\Gamma_a'], vc, root_form=D.forms[ka])
        ls.config(['essential bc', 1], Z.ms[r'\Gamma_b'], zero, root_form=b)
    A = C07.faces(Z, Z.ms[r'\Gamma_a'] if D.lib == 'msehtt' else section(D, r'\Gamma_a'))
    sg = fe.dof_signs(D, kb, D.elements)
    start(D, case, [ka], t0)
    D.set_cochain(kb, t0, {e: np.zeros(D.n_local(kb, e)) for e in D.elements})
    power = False
    for m in range(1, case['n'] + 1):
        cond = solve(D, ls, m)
        if cond is None or cond > 1e9:
            return {'nontrivial': False, 'excluded': True}
        t = t0 + m * dt
        strong(D, case, ka, kb, t, dt)
        b1, b0 = D.get_cochain(kb, t), D.get_cochain(kb, t - dt)
        p = max(D.px()) + 1
        rules = [fe.lobatto_quad(p), fe.gauss(min(D.px()) + 1), fe.gauss(p + 20), fe.gauss(p + 24)]
        W, size = [], 0.
        for nodes, w in rules:
            tot = 0.
            for q in A:
                for i, val in C07.side_integrals(D, kb, q, F, t - dt / 2, nodes, w).items():
                    x = val * sg[q[0]][i] * (b1[q[0]][i] + b0[q[0]][i]) / 2
                    tot += x
                    size += abs(x)
            W.append(tot)
        rule = W[0] if D.lib == 'msepy' else W[1]
        E1 = energy(D, ka, t) + energy(D, kb, t)
        E0 = energy(D, ka, t - dt) + energy(D, kb, t - dt)
        got, want = (E1 - E0) / 2 / dt, s * W[3]
        tol = 1e-8 * size + 1e-9 * (E1 + E0) / dt + 30 * abs(rule - W[3]) + abs(W[2] - W[3])
        require(abs(got - want) <= tol, f'the energy changes by {got} per time in step {m}, the power through the boundary is {want} (tolerance {tol})', key='power')
        power = power or abs(want) > 10 * tol
    return {'nontrivial': bool(power), 'labels': fe.labels(spec) + [f'a in ({k + 1},{o})']}


def section(D, name):
    return D.impl.find_mesh_of_manifold(D.impl.base['manifolds'][name])


def s_power():
    S = fe.st()
    ty = {('msepy', 2): ['crazy', 'crazy', 'crazy_multi', 'backward_step'], ('msehtt', 2): ['crazy', 'crazy', 'crazy_multi', 'ren', 'rectangle', 'backward_step']}

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2,), maxp=(3, 3, 1), maxn=(4, 3, 2), types=ty, periodic=(False,)))
        k = draw(S.integers(0, 1))
        return dict(s_base(draw, S, spec), k=k, field=draw(fe.s_field(2, 1 if k == 1 else 2)), zero=[0] * (2 if k == 1 else 1))
    return mk()


# ------------------------------------------------------------------------------------------------ incompressible flow
FLOW = {2: [((0, O), O), ((2, I), O), ((0, O), I), ((2, I), I)], 3: [((1, O), I), ((2, I), O), ((1, O), O), ((2, I), I)]}


def flow_abstract(case, hold):
    def make(D):
        ph = boot.phyem()
        d, o = D.dim, case['o']
        u, P = D.abs_forms[kuv(d, o)[0]], D.abs_forms[kuv(d, o)[1]]
        w = D.abs_forms[tuple(case['w'])]
        du_dt, wxu = u.time_derivative(), w.cross_product(u)
        if o == O:
            gP, du = P.codifferential(), u.exterior_derivative()
            expr = ['du_dt + wxu - gP = 0', 'du = 0']
        else:
            gP, du = P.exterior_derivative(), u.codifferential()
            expr = ['du_dt + wxu + gP = 0', '- du = 0']
        pde = ph.pde(expr, {'du_dt': du_dt, 'wxu': wxu, 'gP': gP, 'du': du})
        pde._indi_dict = None
        pde.unknowns = [u, P]
        wf = pde.test_with([u.space, P.space], sym_repr=['v', 'q'])
        wf = wf.derive.integration_by_parts('0-2' if o == O else '1-0', drop_bi_term=True)
        ts = ph.time_sequence()
        dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t')
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
        td.differentiate('0-0', 'k-1', 'k')
        td.average('0-1', w, ['k-1/2'])
        td.average('0-1', u, ['k-1', 'k'])
        td.average('0-2', P, ['k-1/2'])
        td.average('1-0', u, ['k'])
        wf = td()
        wf.unknowns = [u @ ts['k'], P @ ts['k-1/2']]
        wf = wf.derive.split('0-0', 'f0', [u @ ts['k'], u @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        wm = w @ ts['k-1/2']
        wf = wf.derive.split('0-2', 'f0', [wm.cross_product(u @ ts['k-1']), wm.cross_product(u @ ts['k'])], ['+', '+'], factors=[1 / 2, 1 / 2])
        wf = wf.derive.rearrange({0: '0, 3, 4 = 1, 2'})
        for i in ('0-4', '0-1', '0-2', '0-3'):
            t = wf.terms[i]
            if 'times' in str(t._sym_repr):
                t.add_extra_info({'known-forms': wm})
        ph.space.finite(fe.parse_degree(case['spec']['degree']))
        hold['ts'] = ts
        return {'ls': wf.mp().ls(), 'u': u, 'P': P, 'w': w}
    return make


def kuv(d, o):
    return ((d - 1, O), (d, O)) if o == O else ((1, I), (0, I))


def prop_flow(case):
    spec = case['spec']
    d, o = spec['dim'], case['o']
    ku, kp = kuv(d, o)
    kw = tuple(case['w'])
    hold = {}
    D = fe.Disc(spec, keys=sorted({ku, kp, kw}, key=str), make_abstract=flow_abstract(case, hold))
    ts = hold['ts']
    steps(case, ts)
    t0, dt = case['t0'], case['dt']
    start(D, case, [ku], t0)
    ls = D.objs['ls'].apply()
    H = []
    for m in range(1, case['n'] + 1):
        v, _ = fe.rng_cochains(D, kw, case['seed'] + 10 * m)
        D.set_cochain(kw, t0 + (m - .5) * dt, v)
        cond = solve(D, ls, m)
        if cond is None or cond > 1e8:
            return {'nontrivial': False, 'excluded': True}
        t = t0 + m * dt
        u = D.get_cochain(ku, t)
        H.append(inner(D, ku, u, u))
        size = np.sqrt(H[0]) + 1e-9
        # incompressible: in every element (outer), against every dof of the pressure (inner)
        if o == O:
            for e in D.elements:
                close(D.E(ku, e) @ u[e], 0 * (D.E(ku, e) @ u[e]), f'the divergence of u at t={t} in element {e}', 0, 1e-9 * max(1., np.max(np.abs(u[e]))))
        else:
            g = D.gm(kp)
            div = np.zeros(g[1])
            for e in D.elements:
                np.add.at(div, np.asarray(g[0][e], dtype=int), D.E(kp, e).T @ D.M(ku, e) @ u[e])
            close(div, 0 * div, f'the weak divergence of u at t={t}', 0, 1e-8 * size)
    for i, h in enumerate(H):
        close(h, H[0], f'the kinetic energy after {i + 1} steps, after one', 1e-8, 1e-14)
    return {'nontrivial': len(H) > 1 and H[0] > 1e-8, 'labels': fe.labels(spec) + [f'{kw} x {ku}']}


TF = {('msepy', 2): ['crazy', 'crazy', 'crazy_multi'], ('msepy', 3): ['crazy'],
      ('msehtt', 2): ['crazy', 'crazy', 'crazy_multi', 'rectangle', 'quad'], ('msehtt', 3): ['crazy0']}


def s_flow():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2, 2, 2, 2, 3), maxp=(3, 3, 1), maxn=(4, 3, 2), types=TF))
        if spec['lib'] == 'msehtt' and not isinstance(spec['degree'], int):
            spec['degree'] = 2
        w, o = draw(S.sampled_from(FLOW[spec['dim']]))
        return dict(s_base(draw, S, spec), w=list(w), o=o, n=draw(S.integers(2, 3)))
    return mk()


SUBS = [
    Sub('wave', s_wave, prop_wave, 600, 6000, 'the fields changed'),
    Sub('power', s_power, prop_power, 500, 5000, 'a power through the boundary'),
    Sub('flow', s_flow, prop_flow, 500, 5000, 'several steps with a velocity'),
]
