"""C33: the sample solutions satisfy the equations they are samples of."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, require, close

ASSUMPTIONS = ['Derivatives of the reference are central differences of order 4 of the sample fields; derivatives of the fields by phyem may be numerical (1e-3 for second ones).']

H = 1e-3


def D(f, k, h=H):
    """Derivative to the k-th argument (0: time) of an array-valued function."""
    def g(*X):
        def at(s):
            Y = list(X)
            Y[k] = Y[k] + s * h
            return f(*Y)
        return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
    return g


def F(v):
    """A field as a function to an array of components."""
    def f(t, *X):
        sh = np.shape(X[0])
        return np.array([np.broadcast_to(np.array(c, dtype=float), sh) for c in v(t, *X)])
    return f


def comp(f, i):
    return lambda *X: f(*X)[i]


def stack(*fs):
    return lambda *X: np.array([g(*X) for g in fs])


def lin(*pairs):
    return lambda *X: sum(c * f(*X) for c, f in pairs)


def grad(s, d):
    return stack(*[D(comp(s, 0), i + 1) for i in range(d)])


def div(v, d):
    return lambda *X: np.array([sum(D(comp(v, i), i + 1)(*X) for i in range(d))])


def curl(v):
    return stack(*[lin((1, D(comp(v, (i + 2) % 3), (i + 1) % 3 + 1)), (-1, D(comp(v, (i + 1) % 3), (i + 2) % 3 + 1))) for i in range(3)])


def curl2(s):
    """Curl of a scalar in the plane."""
    return stack(D(comp(s, 0), 2), lin((-1, D(comp(s, 0), 1))))


def rot(v):
    return stack(lin((1, D(comp(v, 1), 1)), (-1, D(comp(v, 0), 2))))


def X3(a, b):
    return lambda *X: np.cross(a(*X), b(*X), axis=0)


def S2(s, v):
    """Scalar times vector (cross product in the plane)."""
    return lambda *X: s(*X)[0] * np.array([-v(*X)[1], v(*X)[0]])


def V2(a, b):
    return lambda *X: np.array([a(*X)[0] * b(*X)[1] - a(*X)[1] * b(*X)[0]])


def dot(a, b):
    return lambda *X: np.sum(a(*X) * b(*X), axis=0, keepdims=True)


def scaled(s, v):
    return lambda *X: s(*X)[0] * v(*X)


def lap(f, d):
    return lin(*[(1, D(D(f, i + 1), i + 1)) for i in range(d)])


ZERO = 0.


class Rel:
    def __init__(self, name, d, t, X):
        self.name, self.t, self.X, self.d = name, t, X, d

    def __call__(self, got, want, what, tol=1e-5):
        g = got(self.t, *self.X)
        w = np.zeros_like(g) if isinstance(want, float) else want(self.t, *self.X)
        require(g.shape == w.shape, f'{self.name}: {what}: {g.shape[0]} components, not {w.shape[0]}', key=f'{self.name} {what}')
        require(bool(np.all(np.isfinite(g))), f'{self.name}: {what} is not finite', key=f'{self.name} {what}')
        close(g, w, f'{self.name} at t={self.t}: {what}', tol, tol * max(1., float(np.max(np.abs(w), initial=0.))), key=f'{self.name} {what}')


NAMES = {'Eigen2': 2, 'ManufacturedSolutionNS2TGV': 2, 'ManufacturedSolutionMHD2Ideal1': 2, 'ManufacturedSolutionNS3Conservation1': 3, 'ManufacturedSolutionMHD3_0': 3,
         'ManufacturedSolutionMHD3_1': 3, 'ManufacturedSolutionLSingularity': 2, 'MHD3_Helicity_Conservation_test1': 3, 'ManufacturedSolution_Hall_MHD3_0': 3,
         'ManufacturedSolution_Hall_MHD3_1': 3, 'ManufacturedSolution_Hall_MHD3_2': 3, 'ManufacturedSolution_Hall_MHD3_3': 3, 'ManufacturedSolution_Hall_MHD3_4_TemporalAccuracy': 3,
         'ManufacturedSolution_Hall_MHD3_Conservation0': 3, 'ManufacturedSolution_Hall_MHD3_NullPoints': 3, 'Manufactured_Solution_PNPNS_2D_PeriodicDomain1': 2,
         'Manufactured_Solution_PNPNS_2D_InitialDiscontinuousConcentrations': 2, 'InitialConditionShearLayerRollUp': 2, 'InitialConditionOrszagTangVortex': 2,
         'InitialConditionOrszagTangVortex_3D': 3, 'InitialCondition_LoopAdvection': 2, 'ConditionsNormalDipoleCollision2': 2, 'ConditionsLidDrivenCavity2': 2,
         'ConditionsLidDrivenCavity3': 3, 'ConditionsLidDrivenCavity_2dMHD_1': 2}


def s_samples():
    S = fe.st()
    return S.fixed_dictionaries({'name': S.sampled_from(sorted(NAMES)), 't': S.sampled_from([0., 0., .1, .5, 1.]), 'par': S.lists(fe.s_num(.3, 3., 1), min_size=6, max_size=6),
                                 'default': S.booleans(), 'before': S.sampled_from([None, None, 'same', 'other']), 'seed': S.integers(0, 10 ** 6)})


def prop_samples(case):
    ph = boot.phyem()
    sm = ph.samples
    name, t = case['name'], case['t']
    d = NAMES[name]
    a, b, c, e, g, h = case['par']
    r = np.random.default_rng(case['seed'])
    ph.config.set_embedding_space_dim(d)

    def build(n, q, default):
        a, b, c, e, g, h = q
        if n == 'Eigen2':
            kw = dict(OM=(a, b), PHI=(c, e, g))
        elif n in ('ManufacturedSolutionNS2TGV', 'ManufacturedSolutionNS3Conservation1'):
            kw = dict(Re=10 * a)
        elif n in ('ManufacturedSolutionMHD2Ideal1', 'ManufacturedSolutionMHD3_0', 'ManufacturedSolutionMHD3_1'):
            kw = dict(c=a, Rm=b, Rf=c)
        elif 'Hall' in n:
            kw = dict(c=a, Rm=b, Rf=c, eta=e)
        elif n == 'Manufactured_Solution_PNPNS_2D_PeriodicDomain1':
            kw = dict(epsilon=min(a, .5), shift=3 + b)
        elif n == 'InitialConditionShearLayerRollUp':
            kw = dict(delta=a, epsilon=b)
        elif n == 'InitialConditionOrszagTangVortex':
            kw = dict(Rm=a)
        elif n == 'InitialConditionOrszagTangVortex_3D':
            kw = dict(Rm=a, eta=b)
        elif n == 'InitialCondition_LoopAdvection':
            kw = dict(Lx=a, Ly=b, A0=c, R=e / 3)
        elif n == 'ConditionsNormalDipoleCollision2':
            kw = dict(x1=a / 10, y1=b / 10, x2=-c / 10, y2=-e / 10, r0=.2 + g / 10, we1=100 * h, we2=-100 * h, K_scale=a)
        elif 'Cavity' in n:
            kw = dict(lid_speed=-a)
        else:
            kw = {}
        return getattr(sm, n)(**({} if default else kw)), kw
    if case['before']:           # objects made earlier do not matter
        o, _ = build(name if case['before'] == 'same' else 'ManufacturedSolutionNS2TGV' if d == 2 else 'ManufacturedSolutionMHD3_1', [4 - v for v in case['par']], False)
        for k in ('f', 'u', 'B', 'omega', 'velocity'):
            if hasattr(o, k):
                getattr(o, k)(t, *[np.full(2, .3)] * d)
    o, kw = build(name, case['par'], case['default'])
    import inspect
    full = {k: v.default for k, v in inspect.signature(type(o).__init__).parameters.items() if k != 'self'}
    if not case['default']:
        full.update(kw)
    P = full
    X = list(r.uniform(.1, 1.4, (d, 6)))
    R = Rel(name, d, t, X)
    LOW = 2e-2 if d == 3 else 5e-3         # second derivatives, taken numerically by phyem
    if name == 'Eigen2':
        A, B = F(o.a), F(o.b)
        R(D(A, 0), div(B, 2), 'da/dt = div b')
        R(D(B, 0), grad(A, 2), 'db/dt = grad a')
        R(F(o.scalar), A, 'a')
        R(F(o.vector), B, 'b')
    elif name == 'ManufacturedSolutionNS2TGV':
        u, p = F(o.u), F(o.p)
        w = rot(u)
        R(div(u, 2), ZERO, 'div u')
        R(F(o.div_u), ZERO, 'div_u', 1e-3)
        R(F(o.omega), w, 'omega', 1e-4)
        R(F(o.P), lin((1, p), (.5, dot(u, u))), 'P')
        R(lin((1, D(u, 0)), (1, S2(w, u)), (1 / P['Re'], curl2(w)), (1, grad(lin((1, p), (.5, dot(u, u))), 2))), ZERO, 'momentum')
        R(F(o.f), ZERO, 'f', LOW)
    elif name == 'ManufacturedSolutionNS3Conservation1':
        u = F(o.u)
        R(div(u, 3), ZERO, 'div u')
        R(F(o.div_u), ZERO, 'div_u', 1e-3)
        R(F(o.omega), curl(u), 'omega', 1e-4)
        require(o.Re == P['Re'], 'Re')
    elif name == 'ManufacturedSolutionMHD2Ideal1':
        u, p, E, B = F(o.u), F(o.P), F(o.E), F(o.B)
        R(u, curl2(F(o.streamfunction)), 'u', 1e-4)
        R(D(B, 0), lin((-1, curl2(E))), 'dB/dt = - curl E')
        R(div(B, 2), ZERO, 'div B')
        R(F(o.divB), ZERO, 'divB', 1e-3)
        phi = F(o.streamfunction)
        u = curl2(phi)
        w, j = rot(u), rot(B)
        R(F(o.omega), w, 'omega', LOW)
        R(F(o.j), j, 'j', 1e-4)
        R(F(o.m), lin((1 / P['Rm'], j), (-1, E), (-1, V2(u, B))), 'm', 1e-3)
        if t <= .5:
            R(F(o.f), lin((1, D(u, 0)), (1, S2(w, u)), (1 / P['Rf'], curl2(w)), (-P['c'], S2(j, B)), (1, grad(p, 2))), 'f', .2)        # (third derivatives)
    elif name in ('ManufacturedSolutionMHD3_0', 'ManufacturedSolutionMHD3_1') or name.startswith('ManufacturedSolution_Hall_MHD3_') and name[31:32] in '01234' and name[31:]:
        u, p, E, B = F(o.u), F(o.P), F(o.E), F(o.B)
        w, j = curl(u), curl(B)
        R(D(B, 0), lin((-1, curl(E))), 'dB/dt = - curl E')
        R(div(B, 3), ZERO, 'div B')
        R(F(o.divB), ZERO, 'divB', 1e-3)
        if name[31:32] != '3':          # (a velocity with another boundary condition, not solenoidal)
            R(div(u, 3), ZERO, 'div u')
        R(F(o.omega), w, 'omega', 1e-3)
        R(F(o.j), j, 'j', 1e-3)
        R(F(o.m), lin((1 / P['Rm'], j), (-1, E), (-1, X3(u, B)), (P.get('eta', 0), X3(j, B))), 'm', 5e-3)
        R(F(o.f), lin((1, D(u, 0)), (1, X3(w, u)), (1 / P['Rf'], curl(w)), (-P['c'], X3(j, B)), (1, grad(p, 3))), 'f', LOW)
        for k in ('c', 'Rm', 'Rf', 'eta'):
            require(not hasattr(o, k) or getattr(o, k) == P[k], f'parameter {k}')
        # boundary conditions of the boxes they are meant for
        L = 1. if 'Temporal' in name else 2 * np.pi
        on = {'1': ('uxn', 'P', 'Bxn'), '2': ('uxn', 'P', 'Exn'), '3': ('wxn', 'P', 'Bxn'), '4': ('uxn', 'P', 'Bxn')}.get(name[31:32] if 'Hall' in name else '', ())
        for ax in range(3):
            for side in (0., L):
                Y = [v * L / 1.5 for v in X]
                Y[ax] = np.full_like(Y[ax], side)
                n = np.zeros((3, len(Y[0])))
                n[ax] = 1
                for q in on:
                    v = {'u': u, 'B': B, 'E': E, 'w': w, 'P': p}[q[0]](t, *Y)
                    v = v if q == 'P' else np.cross(v, n, axis=0)
                    close(v, np.zeros_like(v), f'{name}: {q} on axis {ax} at {side}', 1e-9, 1e-9, key=f'{name} {q}')
    elif name == 'ManufacturedSolutionLSingularity':
        phi = F(o.potential)
        R(lap(phi, 2), ZERO, 'harmonic')
        s = r.uniform(.1, 1, 5)
        for Y in ((0 * s, -s), (-s, 0 * s)):          # the edges of the re-entrant corner
            close(phi(t, *Y), np.zeros((1, 5)), 'on the edges of the corner', 1e-12, 1e-12, key='corner')
        require(bool(np.all(phi(t, s, s) > 0)), 'sign')
    elif name == 'MHD3_Helicity_Conservation_test1' or 'Conservation0' in name or 'NullPoints' in name:
        u, B = F(o.u_initial_condition), F(o.B_initial_condition)
        for v, n in ((u, 'div u'), (B, 'div B')):
            R(div(v, 3), ZERO, n)
        j = curl(B)
        R(F(o.w_initial_condition), curl(u), 'w', 1e-3)
        R(F(o.j_initial_condition), j, 'j', 1e-3)
        for k in 'gfm':
            R(F(getattr(o, k)), ZERO, k)
        if 'Hall' in name:
            R(F(o.E_initial_condition), lin((1 / P['Rm'], j), (-1, X3(u, B)), (P['eta'], X3(j, B))), 'E', 5e-3)
        if 'NullPoints' in name:
            # pressure in balance with the Lorentz force, up to a gradient of the magnetic pressure: j x B = - grad |B|^2 / 2
            R(X3(j, B), lin((-.5, grad(dot(B, B), 3))), 'j x B')
            R(F(o._f_init_), lin((-P['c'], X3(j, B)), (1, grad(F(o.P_initial_condition), 3))), 'f', 5e-3)
    elif name == 'Manufactured_Solution_PNPNS_2D_PeriodicDomain1':
        u, s, p, psi = F(o.u), F(o.static_pressure), F(o.p), F(o.psi)
        n = lin((1, p), (P['epsilon'], lap(psi, 2)))
        R(div(u, 2), ZERO, 'div u')
        R(F(o.div_u), ZERO, 'div_u', 1e-6)
        R(F(o.n), n, 'n', 1e-4)
        R(F(o.omega), rot(u), 'omega', 1e-4)
        tot = lin((1, s), (.5, dot(u, u)))
        R(F(o.total_pressure), tot, 'total pressure', 1e-6)
        R(F(o.phi), lin((1, tot), (-1, p), (-1, n)), 'phi', 1e-4)
        log = lambda f: (lambda *X: np.log(f(*X)))        # noqa
        mu, nu = lin((1, log(p)), (1, psi)), lin((1, log(n)), (-1, psi))
        for k, v, tol in (('mu', mu, 1e-4), ('nu', nu, 1e-4), ('delta', log(p), 1e-6), ('theta', log(n), 1e-4), ('tau', grad(mu, 2), 1e-3), ('chi', grad(nu, 2), 1e-3),
                          ('pTau', scaled(p, grad(mu, 2)), 1e-3), ('nChi', scaled(n, grad(nu, 2)), 1e-3)):
            R(F(getattr(o, k)), v, k, tol)
        gp = grad(psi, 2)
        conv = lambda *X: np.array([sum(u(*X)[i] * D(comp(u, k), i + 1)(*X) for i in (0, 1)) for k in (0, 1)])       # noqa
        R(F(o.source_f), lin((1, D(u, 0)), (1, conv), (-1, lap(u, 2)), (1, grad(s, 2)), (1, scaled(lin((1, p), (-1, n)), gp))), 'f', 5e-3)
        R(F(o.source_p), lin((1, D(p, 0)), (1, dot(u, grad(p, 2))), (-1, div(lin((1, grad(p, 2)), (1, scaled(p, gp))), 2))), 'source p', LOW)
        R(F(o.source_n), lin((1, D(n, 0)), (1, dot(u, grad(n, 2))), (-1, div(lin((1, grad(n, 2)), (-1, scaled(n, gp))), 2))), 'source n', .2)
    elif 'Discontinuous' in name:
        x, y = X
        one = (x >= .75) & (y >= 11 / 20)
        close(F(o.p)(t, x, y)[0], np.where(one, 1., 1e-6), 'p', 1e-14, key='p')
        one = (x >= .75) & (y <= 9 / 20)
        close(F(o.n)(t, x, y)[0], np.where(one, 1., 1e-6), 'n', 1e-14, key='n')
        R(F(o.u), ZERO, 'u')
        R(F(o.omega), ZERO, 'omega')
    elif name == 'InitialConditionShearLayerRollUp':
        x, y = X[0] * 4, X[1] * 4
        far = np.abs(y - np.pi) > .05
        x, y = x[far], y[far]
        u = F(o.velocity)
        close(u(t, x, y), np.array([np.where(y <= np.pi, np.tanh((y - np.pi / 2) / P['delta']), np.tanh((1.5 * np.pi - y) / P['delta'])), P['epsilon'] * np.sin(x)]), 'u', 1e-12, 1e-12, key='u')
        close(F(o.vorticity)(t, x, y), rot(u)(t, x, y), 'vorticity', 1e-3, 1e-3, key='vorticity')
        require(o.delta == P['delta'] and o.epsilon == P['epsilon'], 'parameters')
    elif name.startswith('InitialConditionOrszagTangVortex'):
        t = R.t = 0.
        pot = F(o.magnetic_potential)
        x, y = X[:2]
        phi = lambda t, *X: np.array([2 * np.sin(X[1]) - 2 * np.cos(X[0])])        # noqa
        psi = lambda t, *X: np.array([np.cos(2 * X[1]) - 2 * np.cos(X[0])])        # noqa
        if d == 2:
            R(pot, psi, 'potential')
            u, B = curl2(phi), curl2(psi)
            w, j = rot(u), rot(B)
            E = lin((1 / P['Rm'], j), (-1, V2(u, B)))
        else:
            up = lambda f: (lambda *X: np.concatenate([np.zeros((2,) + np.shape(X[1])), f(*X)]))      # noqa
            R(pot, up(psi), 'potential')
            u, B = curl(up(phi)), curl(up(psi))
            w, j = curl(u), curl(B)
            E = lin((1 / P['Rm'], j), (-1, X3(u, B)), (P['eta'], X3(j, B)))
        R(F(o.u), u, 'u', 1e-4)
        R(F(o.B), B, 'B', 1e-4)
        R(F(o.H), B, 'H', 1e-4)
        R(F(o.omega), w, 'omega', LOW)
        R(F(o.j), j, 'j', LOW)
        R(F(o.E), E, 'E', LOW)
        R(F(o.f), ZERO, 'f')
    elif name == 'InitialCondition_LoopAdvection':
        x, y = X[0] - .7, X[1] - .7
        rad = np.hypot(x, y)
        far = (np.abs(rad - P['R']) > .02) & (rad > .05)
        x, y, rad = x[far], y[far], rad[far]
        A0 = P['A0']
        close(F(o._potential)(t, x, y)[0], np.where(rad <= P['R'], A0 * (P['R'] - rad), 0.), 'potential', 1e-12, 1e-13, key='potential')
        B = np.where(rad <= P['R'], A0, 0.) * np.array([-y, x]) / rad
        close(F(o.B)(t, x, y), B, 'B', 1e-4, 1e-5, key='B')
        close(F(o.H)(t, x, y), B, 'H', 1e-4, 1e-5, key='B')
        close(F(o.u)(t, x, y), np.array([np.full_like(x, P['Lx']), np.full_like(x, P['Ly'])]), 'u', 1e-12, key='u')
        close(F(o.omega)(t, x, y), np.zeros((1, len(x))), 'omega', 1e-6, 1e-6)
    elif name == 'ConditionsNormalDipoleCollision2':
        x, y = (v - .7 for v in X)
        u, w = F(o.velocity_initial_condition), F(o.vorticity_initial_condition)
        K = 0.
        q, wt = np.polynomial.legendre.leggauss(90)
        Q = u(t, *np.meshgrid(q, q, indexing='ij'))
        K = .5 * np.einsum('kij,kij,i,j->', Q, Q, wt, wt)
        close(float(K), P['K_scale'], 'kinetic energy', 1e-7, key='energy')
        close(w(t, x, y), rot(u)(t, x, y), 'vorticity', 1e-3, 1e-3 * abs(P['we1']), key='vorticity')
        close(div(u, 2)(t, x, y), np.zeros((1, len(x))), 'div u', 1e-6, 1e-6 * abs(P['we1']), key='div u')
        s = [(x - P[f'x{i}']) ** 2 + (y - P[f'y{i}']) ** 2 for i in (1, 2)]
        mono = sum(P[f'we{i}'] * (1 - s[i - 1] / P['r0'] ** 2) * np.exp(-s[i - 1] / P['r0'] ** 2) for i in (1, 2))
        got = rot(u)(t, x, y)[0]
        k = np.argmax(np.abs(mono))
        close(got * mono[k], mono * got[k], 'the vorticity is that of two monopoles, up to a factor', 1e-5, 1e-5 * float(np.max(np.abs(got))) * abs(mono[k]), key='monopoles')
        for q in ('velocity_boundary_condition', 'normal_velocity_boundary_condition', 'tangential_velocity_boundary_condition', 'zero_scalar', 'zero_vector'):
            R(F(getattr(o, q)), ZERO, q)
        for q, v in (('one_scalar', 1.), ('half_scalar', .5), ('minus_one_scalar', -1.)):
            close(F(getattr(o, q))(t, x, y), np.full((1, len(x)), v), q)
    else:          # lid-driven cavities
        y = X[1]
        bc = F(o.velocity_boundary_condition_tangential)(t, *X)
        want = np.zeros((d, len(y)))
        want[0 if d == 2 else 2] = np.where(y > .5, P['lid_speed'], 0.)
        close(bc, want, 'velocity of the lid', 1e-14, key='lid')
        R(F(o.velocity_initial_condition), ZERO, 'u')
        R(F(o.vorticity_initial_condition), ZERO, 'vorticity')
        if 'MHD' in name:
            close(F(o.B_initial_condition)(t, *X), np.array([0 * y, 0 * y + 1]), 'B')
            R(F(o.j_initial_condition), ZERO, 'j')
    return {'nontrivial': True, 'labels': [name, f't={t}', 'default' if case['default'] else 'parameters']}


SUBS = [
    Sub('samples', s_samples, prop_samples, 600, 8000, 'always'),
]
