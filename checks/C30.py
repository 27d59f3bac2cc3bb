"""C30: functions given piece by piece, on lines and as geometry evaluate to what they denote."""
import itertools
import math
from fractions import Fraction

import numpy as np

from lib import boot, fe
from lib.core import Sub, require, close
from checks import C29

ASSUMPTIONS = ['Points of functions on lines are lattice points (on a line exactly or clearly off it).']


# ------------------------------------------------------------------------------------------------ piecewise functions
FUN = [lambda *x: sum((k + 1.5) * a for k, a in enumerate(x)), lambda *x: np.prod([np.cos(a) for a in x], axis=0), lambda *x: x[-1] ** 2 - x[0]]


def s_piecewise():
    S = fe.st()
    return S.fixed_dictionaries({'shape': S.lists(S.integers(1, 5), min_size=0, max_size=3), 'nv': S.integers(1, 3), 'pieces': S.integers(1, 4), 'default': S.booleans(),
                                 'overlap': S.booleans(), 'gap': S.booleans(), 'kinds': S.lists(S.integers(0, 4), min_size=5, max_size=5), 'fill': S.sampled_from([0, 0, -1.5, 7]),
                                 'broad': S.booleans(), 'args': S.booleans(), 'ints': S.sampled_from([False, False, False, True]), 'seed': S.integers(0, 10 ** 6)})


def prop_piecewise(case):
    boot.phyem()
    from phyem.tools.gen_piece_wise import genpiecewise
    r = np.random.default_rng(case['seed'])
    sh = tuple(case['shape'])
    if case['ints']:
        xs = [np.array(r.integers(-5, 6, sh)) for _ in range(case['nv'])]
    else:
        xs = [np.array(np.round(r.uniform(-2, 2, sh), 3)) for _ in range(case['nv'])]
    if case['broad'] and case['nv'] > 1:
        xs[0] = float(np.ravel(xs[0])[0]) if not case['ints'] else int(np.ravel(xs[0])[0])      # like time
    n = case['pieces']
    lab = np.array(r.integers(0, n + (1 if case['default'] or case['gap'] else 0), sh))
    cond = [lab == i for i in range(n)]
    if case['overlap']:
        cond[-1] = np.array(cond[-1] | np.array(r.integers(0, 2, sh), dtype=bool))
    a, kw = ((3,), {'s': 2}) if case['args'] else ((), {})

    def f_of(i):
        k = case['kinds'][i]
        if k == 3:
            return 3 * i - 4
        if k == 4:
            return lambda *x, **y: i - 7          # a number
        g = FUN[k] if not case['ints'] else FUN[[0, 2, 2][k]]
        if case['ints']:
            g = [lambda *x: sum((j + 2) * v for j, v in enumerate(x)), FUN[2], FUN[2]][k]
        if case['args']:
            return lambda *x, s=0: g(*x[:-1]) * s + x[-1]
        return g
    fs = [f_of(i) for i in range(n + int(case['default']))]
    fill = int(case['fill']) if case['ints'] else case['fill']
    arg = xs if case['nv'] > 1 or r.integers(0, 2) else xs[0]
    keep = [np.array(x) for x in xs]
    got = genpiecewise(arg, list(cond), fs, fillvalue=fill, args=a, **kw)
    require(all(np.array_equal(x, y) for x, y in zip(keep, xs)), 'the inputs are changed')
    want = np.zeros(sh)
    full = [np.broadcast_to(x, sh) for x in xs]
    for i in itertools.product(*map(range, sh)):
        v = float(fill)
        hit = False
        for c, f in zip(cond, fs):
            if c[i]:
                v = f(*[x[i] for x in full], *a, **kw) if callable(f) else f
                hit = True
        if not hit and case['default']:
            f = fs[-1]
            v = f(*[x[i] for x in full], *a, **kw) if callable(f) else f
        want[i] = v
    require(np.shape(got) == sh, f'shape {np.shape(got)} for {sh}')
    close(np.array(got, dtype=float), want, 'piecewise function', 1e-13, 1e-13, key='piecewise')
    return {'nontrivial': n > 1 and want.size > 1, 'labels': [f'{len(sh)}D', 'default' if case['default'] else 'no default', f'{case["nv"]} variables']}


# ------------------------------------------------------------------------------------------------ functions on lines
def s_lines():
    S = fe.st()

    @S.composite
    def mk(draw):
        c = C29.s_frame(draw, S)
        c.update(noise=draw(S.sampled_from([0, 0, 1e-15])), segs=draw(S.lists(S.tuples(C29.s_pt(3), C29.s_pt(3)).map(list), min_size=1, max_size=4)), curve=draw(S.sampled_from([None, None, 0, 1])),
                 kinds=draw(S.lists(S.integers(0, 3), min_size=5, max_size=5)), points=draw(S.lists(C29.s_pt(3), min_size=1, max_size=6)), pick=draw(S.lists(S.integers(0, 4), max_size=6)),
                 t=draw(S.sampled_from([0, 0., .5, 2.])), vector=draw(S.booleans()), rows=draw(S.booleans()), ints=draw(S.sampled_from([False, False, True])))
        return c
    return mk()


def pair_of(a, b, c):
    return [lambda t, x, y: a + b * x + c * y * t, lambda t, x, y: a * x * y - b + t]


def prop_lines(case):
    ph = boot.phyem()
    from phyem.tools.miscellaneous.geometries import m2n2 as G
    ph.config.set_embedding_space_dim(2)
    r = np.random.default_rng(case['seed'])
    if case['ints']:
        case = dict(case, scale=1, shift=[0, 0], noise=0, curve=None)
    if case['curve'] is not None:
        case = dict(case, noise=0)         # (its ends)
    vec, t = case['vector'], case['t']
    lines, conds, val = [], [], []
    segs = [s for s in case['segs'] if s[0] != s[1]]
    if not segs:
        return {'nontrivial': False, 'excluded': True}
    for p, q in segs:
        P, Q = C29.place(case, p), C29.place(case, q)
        lines.append(G.StraightSegment2(P, Q))
        conds.append(lambda x, p=p, q=q: C29.on_seg(x, p, q))
    if case['curve'] is not None:          # a parabola through lattice points
        sc, sh = case['scale'], case['shift']
        u = [1, -1][case['curve']]
        k = int(r.integers(0, len(lines) + 1))
        lines.insert(k, G.Curve2(lambda s: sc * s + sh[0], lambda s: sc * u * s ** 2 + sh[1] + 2 * sc, [-2, 2]))
        conds.insert(k, lambda x, u=u: abs(x[0]) <= 2 and x[1] == u * x[0] ** 2 + 2)
    pairs = []
    for i, ln in enumerate(lines):
        a, b, c = [float(v) for v in np.round(r.uniform(-2, 2, 3), 2)]
        f = pair_of(a, b, c)
        kd = case['kinds'][i % 5]
        if kd == 3:          # numbers
            e = (i + 1, -i - 1.5)
            val.append([lambda t, x, y, e=e, j=j: e[j] for j in (0, 1)])
            pairs.append((ln, e if vec else e[0]))
        elif kd == 2:        # fields
            val.append(f)
            pairs.append((ln, ph.vc.vector(*f) if vec else ph.vc.scalar(f[0])))
        else:
            val.append(f)
            pairs.append((ln, tuple(f) if vec else f[0]))
    F = (ph.vc.m2n2_vector_on_lines if vec else ph.vc.m2n2_scalar_on_lines)(*pairs)
    pts = [list(p) for p in case['points']]
    for k in case['pick']:
        p, q = segs[k % len(segs)]
        pts.append([p, q, [(p[0] + q[0]) // 2, (p[1] + q[1]) // 2]][k % 3])
        pts.append([k % 5 - 2, (1 if case['curve'] == 0 else -1) * (k % 5 - 2) ** 2 + 2])
    X = np.array([C29.place(case, p) for p in pts])
    hits = 0
    want = np.zeros((2, len(pts)))
    for i, p in enumerate(pts):
        for c, v in zip(conds, val):
            if c(p):
                want[:, i] = [g(t, *X[i]) for g in v]
                hits += 1
                break
    x, y = X[:, 0].copy(), X[:, 1].copy()
    if case['ints']:
        x, y = x.astype(int), y.astype(int)
    if case['rows']:
        x, y, want = (np.stack([a, a[..., ::-1]], axis=a.ndim - 1) for a in (x, y, want))
    got = np.array(F(t, x, y))
    close(got, want[:2 if vec else 1], f'{"vector" if vec else "scalar"} on lines at {pts}', 1e-11, 1e-11, key='on lines')
    fixed = F[t]
    got = np.array(fixed(x, y))
    close(got, want[:2 if vec else 1], 'on lines, at a time', 1e-11, 1e-11, key='on lines')
    if not case['rows']:
        g = [F(t, *(int(a) if case['ints'] else float(a) for a in (x[i], y[i]))) for i in range(len(pts))]
        g = np.array(g, dtype=float).T
        close(g, want[:2 if vec else 1], 'on lines, point by point', 1e-11, 1e-11, key='on lines')
    return {'nontrivial': 0 < hits, 'labels': ['vector' if vec else 'scalar', f'{len(lines)} lines', 'curve' if case['curve'] is not None else 'segments']}


# ------------------------------------------------------------------------------------------------ geometry functions
def s_geometry():
    S = fe.st()

    @S.composite
    def mk(draw):
        return {'c': draw(S.lists(fe.s_num(-2, 2, 2), min_size=2, max_size=2)), 'r': draw(fe.s_num(.1, 3, 2)), 'th': draw(S.lists(S.integers(0, 15), min_size=2, max_size=2, unique=True)),
                'tilt': draw(S.sampled_from([0, 0, .1, 1.])), 'edges': draw(S.lists(S.sampled_from(['straight line', 'clockwise arc', 'anticlockwise arc', 'sine']), min_size=4, max_size=4)),
                'corner': draw(S.lists(fe.s_num(-.3, .3, 2), min_size=8, max_size=8)), 'bulge': draw(S.lists(fe.s_num(1., 3, 1), min_size=4, max_size=4)),
                'wrong': draw(S.sampled_from([None, None, None, 0, 1, 2, 3])), 'seed': draw(S.integers(0, 10 ** 6)),
                'tri': draw(S.lists(C29.s_pt(5), min_size=3, max_size=3)), 'lines': draw(S.lists(C29.s_pt(4), min_size=4, max_size=4)), 'k': draw(S.lists(fe.s_num(-3, 3, 1), min_size=3, max_size=3))}
    return mk()


def fd(f, x, h=1e-5):
    return [(a - b) / (2 * h) for a, b in zip(f(x + h), f(x - h))]


def prop_geometry(case):
    boot.phyem()
    from phyem.tools.functions.space._2d.geometrical_functions.parser import geo_func2_parser
    from phyem.tools.functions.space._2d.transfinite import TransfiniteMapping
    from phyem.tools.functions.space._2d import angle as A2, angles_of_triangle as AT, line_intersection as LI, constant as C2, scaling as S2, opposite as O2, distance as D2
    from phyem.tools.functions.space._3d import angle as A3, constant as C3, scaling as S3, opposite as O3
    from phyem.tools.functions.space._2d.Cartesian_polar_coordinates_switcher import CartPolSwitcher
    from phyem.tools.functions.space._3d.Cartesian_cylinder_coordinate_switcher import CartCylSwitcher
    from phyem.tools.functions.space._3d.Cartesian_spherical_coordinate_switcher import CartSphSwitcher
    rng = np.random.default_rng(case['seed'])
    o = np.concatenate([[0., 1.], rng.uniform(0, 1, 5)])
    # arcs and lines
    c, R = case['c'], case['r']
    th = [k * math.pi / 8 + case['tilt'] for k in case['th']]
    p, q = [(c[0] + R * math.cos(a), c[1] + R * math.sin(a)) for a in th]
    for name in ('clockwise arc', 'anticlockwise arc', 'straight line'):
        g = geo_func2_parser(name, [p, q] if name == 'straight line' else [tuple(c), p, q])
        X = np.array(g.gamma(o))
        close(X[:, 0], np.array(p), f'start of the {name}', 1e-7, 1e-7, key='ends')
        close(X[:, 1], np.array(q), f'end of the {name}', 1e-7, 1e-7, key='ends')
        close(np.array(g.dgamma(o)), np.array(fd(g.gamma, o)), f'derivative of the {name}', 1e-6, 1e-6, key='dgamma')
        if name == 'straight line':
            close(X, np.array(p)[:, None] + (np.array(q) - p)[:, None] * o, name, 1e-12, 1e-12, key='line')
        else:
            turn = (th[1] - th[0]) % (2 * math.pi)
            if name == 'clockwise arc':
                turn -= 2 * math.pi
            phi = th[0] + turn * o
            close(X, np.array([c[0] + R * np.cos(phi), c[1] + R * np.sin(phi)]), name, 1e-6, 1e-6, key='arc')
            close(np.hypot(X[0] - c[0], X[1] - c[1]), np.full(len(o), R), 'radius', 1e-11, key='arc')
    close(A2.angle(c, p), th[0] % (2 * math.pi) if abs(math.sin(th[0])) > 1e-9 else (0 if math.cos(th[0]) > 0 else math.pi), 'angle', 1e-7, 1e-7, key='angle') \
        if not (abs(math.sin(th[0])) < 1e-9 < math.cos(th[0])) else None
    # transfinite mapping
    k = case['corner']
    V = [(0 + k[0], 0 + k[1]), (1 + k[2], 0 + k[3]), (0 + k[4], 1 + k[5]), (1 + k[6], 1 + k[7])]      # (r, s) = 00, 10, 01, 11
    ends = [(0, 1), (1, 3), (2, 3), (0, 2)]
    gam, dgam = [], []
    for i, (name, (a, b)) in enumerate(zip(case['edges'], ends)):
        P, Q = np.array(V[a]), np.array(V[b])
        if name == 'straight line':
            g = geo_func2_parser(name, [tuple(P), tuple(Q)])
            gam.append(g.gamma), dgam.append(g.dgamma)
        elif name == 'sine':
            n = np.array([Q[1] - P[1], P[0] - Q[0]]) * case['k'][i % 3] / 6
            gam.append(lambda o, P=P, Q=Q, n=n: tuple(P[j] + o * (Q - P)[j] + n[j] * np.sin(np.pi * o) for j in (0, 1)))
            dgam.append(lambda o, P=P, Q=Q, n=n: tuple((Q - P)[j] + n[j] * np.pi * np.cos(np.pi * o) for j in (0, 1)))
        else:
            mid, d = (P + Q) / 2, Q - P
            n = np.array([-d[1], d[0]]) * case['bulge'][i]           # center: left of the edge for anticlockwise arcs
            C = mid + n * (1 if name == 'anticlockwise arc' else -1)
            g = geo_func2_parser(name, [tuple(C), tuple(P), tuple(Q)])
            gam.append(g.gamma), dgam.append(g.dgamma)
    wrong = case['wrong']
    if wrong is not None:
        bad = list(dgam)
        bad[wrong] = lambda o, f=dgam[wrong]: (f(o)[0], f(o)[1] + .25)
        try:
            TransfiniteMapping(gam, bad)
            require(False, f'a wrong derivative of edge {wrong} is accepted', key='wrong derivative')
        except AssertionError:
            pass
    tm = TransfiniteMapping(gam, dgam)
    r, s = rng.uniform(0, 1, (2, 6))
    for i, (rr, ss) in enumerate(((r, 0 * s), (0 * r + 1, s), (r, 0 * s + 1), (0 * r, s))):
        close(np.array(tm.mapping(rr, ss)), np.array(gam[i](rr if i % 2 == 0 else ss)), f'the boundary {i} of the transfinite map', 1e-7, 1e-7, key='transfinite boundary')
    X = tm.mapping(r, s)
    co = [(1 - r) * (1 - s), r * (1 - s), (1 - r) * s, r * s]
    for j in (0, 1):
        want = (1 - s) * gam[0](r)[j] + r * gam[1](s)[j] + s * gam[2](r)[j] + (1 - r) * gam[3](s)[j] - sum(w * v[j] for w, v in zip(co, V))
        close(X[j], want, 'transfinite map', 1e-7, 1e-7, key='transfinite')
    close(np.array([tm.x(r, s), tm.y(r, s)]), np.array(X), 'components of the transfinite map', 1e-13, 1e-13, key='transfinite')
    for d, f in (('r', lambda e: tm.mapping(r + e, s)), ('s', lambda e: tm.mapping(r, s + e))):
        for got, want, n in zip((getattr(tm, f'dx_d{d}')(r, s), getattr(tm, f'dy_d{d}')(r, s)), fd(f, 0.), 'xy'):
            close(np.array(got), want, f'd{n}/d{d} of the transfinite map', 1e-6, 1e-6, key='transfinite derivative')
    # triangles and lines of lattice points
    T = case['tri']
    area = C29.cross(*T)
    if len({tuple(v) for v in T}) == 3:
        got = AT.angles_of_triangle(*T)
        for i, g in enumerate(got):
            u, v = np.array(T[i - 2]) - T[i], np.array(T[i - 1]) - T[i]
            close(float(g), math.degrees(math.atan2(abs(area), float(u @ v))), f'angle {i} of {T}', 1e-6, 1e-5, key='triangle')
    a1, a2, b1, b2 = case['lines']
    if a1 != a2 and b1 != b2:
        d, e = [a2[i] - a1[i] for i in (0, 1)], [b2[i] - b1[i] for i in (0, 1)]
        det = d[0] * e[1] - d[1] * e[0]
        X = LI.find_line_intersection(a1, a2, b1, b2)
        if det == 0:
            require(X is None, f'intersection of parallel lines: {X}', key='line intersection')
        else:
            t = Fraction((b1[0] - a1[0]) * e[1] - (b1[1] - a1[1]) * e[0], det)
            close(np.array(X), np.array([float(a1[i] + t * d[i]) for i in (0, 1)]), 'line intersection', 1e-12, 1e-12, key='line intersection')
        close(float(D2.distance(a1, a2)), math.hypot(*d), 'distance', 1e-14)
        close(float(A3.angle_between_two_vectors(d + [0], e + [1])), math.acos(max(-1., min(1., (d[0] * e[0] + d[1] * e[1]) / math.hypot(*d) / math.hypot(*e, 1)))), 'angle of vectors', 1e-7, 1e-7)
    # coordinates, there and back
    x, y, z = rng.uniform(-2, 2, (3, 5))
    rho, phi = CartPolSwitcher.cart2pol(x, y)
    close(rho, np.hypot(x, y), 'rho', 1e-13)
    close(np.array(CartPolSwitcher.pol2cart(rho, phi)), np.array([x, y]), 'polar coordinates', 1e-12, 1e-12, key='coordinates')
    close(np.array(CartCylSwitcher.cyl2cart(*CartCylSwitcher.cart2cyl(x, y, z))), np.array([x, y, z]), 'cylinder coordinates', 1e-12, 1e-12, key='coordinates')
    az, el, ra = CartSphSwitcher.cart2sph(x, y, z)
    close(ra, np.sqrt(x ** 2 + y ** 2 + z ** 2), 'r', 1e-13)
    close(np.array(CartSphSwitcher.sph2cart(az, el, ra)), np.array([x, y, z]), 'spherical coordinates', 1e-12, 1e-12, key='coordinates')
    # constants, multiples
    k0, k1, k2 = case['k']
    for n, Cn, Sn, On in ((2, C2, S2, O2), (3, C3, S3, O3)):
        X = [x, y, z][:n]
        f, g = Cn.CFG(k0)(), (lambda *v: v[0] * v[1])
        sc = Sn.ScalingFunc(k1)
        F, G = sc(f), sc(g)
        close(f(*X), np.full(5, k0), 'constant')
        close(F(*X), np.full(5, k0 * k1), 'multiple of a constant', 1e-14, 1e-14, key='scaling')
        close(G(*X), k1 * x * y, 'multiple of a function', 1e-14, 1e-14, key='scaling')
        close(On.Opposite(G)()(*X), -k1 * x * y, 'opposite', 1e-14, 1e-14, key='scaling')
    return {'nontrivial': True, 'labels': sorted(set(case['edges'])) + [f'wrong {wrong is not None}']}


# ------------------------------------------------------------------------------------------------ row reduction and pipes
def s_tools():
    S = fe.st()

    @S.composite
    def mk(draw):
        n = draw(S.integers(1, 4))
        m = draw(S.integers(1, 4))
        base = draw(S.lists(S.lists(S.integers(-3, 3), min_size=m, max_size=m), min_size=n, max_size=n))
        return {'A': base, 'comb': draw(S.lists(S.lists(S.integers(-2, 2), min_size=n, max_size=n), max_size=2)), 'rzr': draw(S.booleans()),
                'edges': draw(S.lists(S.tuples(S.integers(0, 3), S.integers(0, 3), S.integers(0, 1)).map(list), min_size=1, max_size=6)), 'd': draw(S.sampled_from([.1, .2, .25]))}
    return mk()


def prop_tools(case):
    boot.phyem()
    from phyem.tools.miscellaneous.rref import rref
    A = [list(map(Fraction, row)) for row in case['A']]
    A += [[sum(c * row[j] for c, row in zip(co, A[:len(case['A'])])) for j in range(len(A[0]))] for co in case['comb']]
    M = np.array([[int(x) for x in row] for row in A])
    keep = M.copy()
    got = rref(M, rzr=case['rzr'])
    require(np.array_equal(M, keep), 'rref changes its input')
    B, k = [row[:] for row in A], 0
    for j in range(len(B[0])):
        piv = next((i for i in range(k, len(B)) if B[i][j] != 0), None)
        if piv is None:
            continue
        B[k], B[piv] = B[piv], B[k]
        B[k] = [x / B[k][j] for x in B[k]]
        for i in range(len(B)):
            if i != k:
                B[i] = [x - B[i][j] * y for x, y in zip(B[i], B[k])]
        k += 1
    want = np.array([[float(x) for x in row] for row in (B[:k] if case['rzr'] else B)]).reshape(-1, len(B[0]))
    require(np.shape(got) == want.shape, f'rref of {M.tolist()} has shape {np.shape(got)}, not {want.shape}', key='rref')
    close(np.array(got, dtype=float), want, f'rref of {M.tolist()}', 1e-12, 1e-12, key='rref')
    return {'nontrivial': k > 1, 'labels': [f'rank {k}']}


SUBS = [
    Sub('piecewise', s_piecewise, prop_piecewise, 1200, 12000, 'several pieces and points'),
    Sub('lines', s_lines, prop_lines, 600, 6000, 'points on lines'),
    Sub('geometry', s_geometry, prop_geometry, 800, 8000, 'always'),
    Sub('tools', s_tools, prop_tools, 300, 3000, 'rank above 1'),
]
