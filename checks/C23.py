"""C23: discrete data sets carry the fields of the forms, and computing with them is computing point by point."""
import os
import shutil
import tempfile

import numpy as np

from lib import boot, fe
from lib import core
from lib.core import Sub

ASSUMPTIONS = ['Interpolations of forms are nearest-sample interpolations (documented as approximate); those of data sets are linear.']


def require(cond, what, **info):
    if not cond:
        core.require(False, what + ''.join(f'; {k}={v}' for k, v in info.items()))


def close(a, b, what, tol=1e-10, scale=None):
    b = np.asarray(b, dtype=float)
    a = np.asarray(a, dtype=float)
    core.require(a.shape == b.shape, f'{what}: shape {a.shape}, expected {b.shape}')
    sc = max(np.max(np.abs(b)) if b.size else 1., scale or 0., 1e-12)
    core.close(a, b, what, rtol=0, atol=tol * sc)


# --------------------------------------------------------------------------------------------- data sets from the forms
TYPES = {('msepy', 2): ['crazy', 'crazy', 'crazy_multi', 'backward_step'],
         ('msehtt', 2): ['crazy', 'trf', 'ts', 'ren', 'crazy_multi', 'backward_step', 'quad', 'rectangle', 'meshpy', 'data', 'data-split'],
         ('msehtt', 3): ['crazy0']}


def s_form():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2, 2, 3), libs=('msepy', 'msehtt', 'msehtt'), maxp=(3, 4, 2), maxn=(3, 3, 2), types=TYPES))
        if spec['lib'] == 'msepy' and spec['dim'] == 3:
            spec = draw(fe.s_spec(dims=(2,), libs=('msepy',), maxp=(3, 4, 2), maxn=(3, 3, 2), types=TYPES))
        return {'spec': spec, 'keys': draw(S.lists(S.integers(0, 5), min_size=1, max_size=3, unique=True)), 'seed': draw(S.integers(0, 9999)),
                'n': draw(S.integers(2, 7)), 'ddf': draw(S.sampled_from([0.02, 0.05, .1, .2])), 't': draw(S.sampled_from([0, .5, 2.])),
                'pts': draw(S.lists(S.tuples(fe.s_num(0, 1, 4), fe.s_num(0, 1, 4), fe.s_num(0, 1, 4)), min_size=2, max_size=5))}
    return mk()


def prop_form(case):
    ph = boot.phyem()
    D = fe.Disc(case['spec'])
    keys = fe.space_keys(D.dim)
    ks = [keys[k % len(keys)] for k in case['keys']]
    t = case['t']
    for i, k in enumerate(ks):
        if D.lib == 'msehtt':
            D.forms[k].cochain.clean('all') if hasattr(D.forms[k].cochain, 'clean') else None
        for tt in (t, t + 1):
            vecs, _ = fe.rng_cochains(D, k, case['seed'] + i + int(10 * tt))
            D.set_cochain(k, tt, vecs)
    (msepy_sets if D.lib == 'msepy' else msehtt_sets)(case, D, ks, t, ph)
    return {'nontrivial': len(D.elements) > 1, 'labels': fe.labels(case['spec']) + [f'k{k[0]}' for k in ks]}


def msepy_sets(case, D, ks, t, ph):
    n = case['n']
    g = np.linspace(-1, 1, n)
    elements = D.mesh.elements
    for k in ks:
        f = D.forms[k]
        ref = D.recon(k, t, g, g)
        dds = f.numeric.dds.rws(t=t, ddf=n)
        require(dds.classification == ('2d vector' if k[0] == 1 else '2d scalar'), 'class of the data set', got=dds.classification)
        arrays = list(dds._coo_dict_list) + list(dds._val_dict_list)
        require(len(arrays) == 2 + fe.n_components(2, k[0]), 'components of the data set', got=len(arrays))
        seen = []
        for r in dds:
            a = [np.asarray(x[r]) for x in arrays]
            nx, ny = a[0].shape
            require(nx % n == 0 and ny % n == 0, 'the arrays of a region are whole elements', shape=(nx, ny), n=n)
            for i in range(nx // n):
                for j in range(ny // n):
                    blk = [x[i * n:(i + 1) * n, j * n:(j + 1) * n] for x in a]
                    # the element with this block
                    c = [e for e in D.elements if np.allclose(ref[e][0][0], blk[0], rtol=0, atol=1e-9) and
                         np.allclose(ref[e][0][1], blk[1], rtol=0, atol=1e-9)]
                    require(len(c) == 1, 'a block of the data set is no element', region=r, block=(i, j))
                    seen.append(c[0])
                    for q, (x, y) in enumerate(zip(blk, ref[c[0]][0] + ref[c[0]][1])):
                        close(x, y, f'{k} data set at t={t}: array {q}, element {c[0]}')
            # a structured grid: the elements of a region meet
            for x in a[:2]:
                for i in range(1, nx // n):
                    close(x[i * n], x[i * n - 1], 'the grid of a region is not structured (axis 0)', scale=np.max(np.abs(x)))
                for j in range(1, ny // n):
                    close(x[:, j * n], x[:, j * n - 1], 'the grid of a region is not structured (axis 1)', scale=np.max(np.abs(x)))
        require(sorted(seen) == list(D.elements), 'elements in the data set', got=sorted(seen))
        require(int(elements._num) == len(seen), 'number of elements')
        # nearest-sample interpolation
        nd = 4
        G = fe.gauss(nd + 1)[0]
        rec = D.recon(k, t, G, G)
        P = np.concatenate([np.stack([x.ravel() for x in rec[e][0]], 1) for e in D.elements])
        V = np.concatenate([np.stack([x.ravel() for x in rec[e][1]], 1) for e in D.elements])
        itp = f.numeric.interp(t=t, density=nd, factor=3)
        itp = itp if isinstance(itp, tuple) else (itp,)
        far = {}
        for e in D.elements:
            far[e] = max(np.linalg.norm(np.stack([x.ravel() for x in ref[e][0]], 1).max(0) - np.stack([x.ravel() for x in ref[e][0]], 1).min(0)), 0)
        R = 1.5 * max(far.values())
        for p in case['pts']:
            e = D.elements[int(p[0] * 997) % len(D.elements)]
            x = [float(c) for c in D.map(e, np.array(2 * p[1] - 1), np.array(2 * p[2] - 1))]
            d = np.linalg.norm(P - np.array(x), axis=1)
            near = d <= np.sort(d)[0] + R
            for c, it in enumerate(itp):
                v = float(np.ravel(it(*x))[0])
                require(np.min(np.abs(V[near, c] - v)) < 1e-9, f'{k} interpolation at {x}: not a value of the form near there', got=v)


def tri(D, e, a):
    """Without the collapsed vertex of triangles."""
    return np.asarray(a)[1:] if D.etype(e) == 'tri' else np.asarray(a)


def samples(D, k, t, density, dim, cells):
    g = np.linspace(-1, 1, density + 1)
    g = (g[1:] + g[:-1]) / 2 if cells else np.linspace(-1, 1, density)
    return D.recon(k, t, *[g] * dim)


def msehtt_sets(case, D, ks, t, ph):
    d = D.dim
    ddf = case['ddf']
    dens = int((30001 * ddf / len(D.elements)) ** (1 / d) + 1)
    dens = min(max(dens, 5), 39)
    tmp = tempfile.mkdtemp(prefix='c23')
    try:
        sets = []
        for k in ks:
            f = D.forms[k]
            ref = samples(D, k, t, dens, d, False)
            dds = f[t].numeric.rws(ddf=ddf)
            comp = f[t].numeric.rws(ddf=ddf, component_wise=True)
            cd = f[t].numeric.rws(ddf=ddf, component_wise=True, data_only=True)
            f[t].export.rws(os.path.join(tmp, 'a'), ddf=ddf)
            back = ph.read(os.path.join(tmp, 'a'))
            nc = fe.n_components(d, k[0])
            require(len(comp) == nc and len(cd[1]) == nc, 'components of the data sets', got=len(comp))
            for what, x in [('data set', dds), ('exported', back)]:
                require(sorted(x, key=str) == sorted(D.elements, key=str), f'{k} {what}: regions are the elements')
                for e in D.elements:
                    for q, (a, b) in enumerate(zip(list(x._coo_dict_list) + list(x._val_dict_list), ref[e][0] + ref[e][1])):
                        close(tri(D, e, a[e]), tri(D, e, b), f'{k} {what} at t={t}: array {q} in element {e}')
            for c in range(nc):
                require(comp[c].dtype == 'scalar' and len(cd[1][c]) == 1, 'a component is a scalar')
                for e in D.elements:
                    close(tri(D, e, comp[c]._val_dict_list[0][e]), tri(D, e, ref[e][1][c]), f'{k} component {c} at t={t} in element {e}')
                    close(tri(D, e, cd[1][c][0][e]), tri(D, e, ref[e][1][c]), f'{k} component data {c} at t={t} in element {e}')
            sets.append(ref)
            # nearest samples
            P0 = samples(D, k, t, dens, d, True)
            P = np.concatenate([np.stack([x.ravel() for x in P0[e][0]], 1) for e in D.elements])
            V = np.concatenate([np.stack([x.ravel() for x in P0[e][1]], 1) for e in D.elements])
            ways = [('rank', f[t].numeric.interpolate(ddf=ddf, component_wise=True)),
                    ('vector', f[t].numeric.interpolate(ddf=ddf))]
            if nc == 1 or d == 3:
                ways.append(('global', f[t].numeric.interpolate(ddf=ddf, component_wise=True, rank_wise=False)))
            X = []
            for p in case['pts']:
                e = D.elements[int(p[0] * 997) % len(D.elements)]
                if D.etype(e) == 'tri':
                    p = (p[0], .1 + .8 * p[1], p[2])
                X.append([float(c) for c in D.map(e, *[np.array(2 * (p[(1 + i) % 3]) - 1) for i in range(d)])])
            for x in X:
                r = np.linalg.norm(P - np.array(x), axis=1)
                near = r <= r.min() * (1 + 1e-9) + 1e-12
                for what, (dt, it) in ways:
                    require(dt == f'{d}d-' + ('scalar' if nc == 1 else 'vector'), 'type of the interpolation', got=dt)
                    v = np.ravel(it(*x)) if what == 'vector' else np.array([np.ravel(i(*x))[0] for i in it])
                    require(len(v) == nc and np.min(np.max(np.abs(V[near] - v), axis=1)) < 1e-9,
                            f'{k} {what} interpolation at {x}: not the nearest sample', got=v, ref=V[near][0])
            if d == 3 and k[0] in (0, 1, 2, 3):
                f[t].export.tsf(os.path.join(tmp, 'tsf'), ddf=ddf)
                fn = ph.read_tsf(os.path.join(tmp, 'tsf'))
                for x in X:
                    v = fn[.3](*[np.array([c]) for c in x])
                    v = np.ravel(v if nc > 1 else v[0] if isinstance(v, (list, tuple)) else v)
                    r = np.linalg.norm(P - np.array(x), axis=1)
                    near = r <= r.min() * (1 + 1e-9) + 1e-12
                    require(np.min(np.max(np.abs(V[near] - v), axis=1)) < 1e-9, f'{k} exported function at {x}', got=v, ref=V[near][0])
        # several forms in one file
        ph.rws(os.path.join(tmp, 'g'), *[D.forms[k][t] for k in ks], ddf=ddf)
        D.mesh.rws(*[D.forms[k][t] for k in ks], saveto=os.path.join(tmp, 'h'), ddf=ddf)
        for what, G in [('ph.rws', ph.read(os.path.join(tmp, 'g'))), ('mesh.rws to file', ph.read(os.path.join(tmp, 'h'))),
                        ('mesh.rws', D.mesh.rws(*[D.forms[k][t] for k in ks], ddf=ddf))]:
            require(len(G) == len(ks), f'{what}: number of variables', got=len(G))
            for i, (k, ref) in enumerate(zip(ks, sets)):
                for x in (G[i], G[str(i)]):
                    for e in D.elements:
                        for q, (a, b) in enumerate(zip(list(x._coo_dict_list) + list(x._val_dict_list), ref[e][0] + ref[e][1])):
                            close(tri(D, e, a[e]), tri(D, e, b), f'{what}: {k}, variable {i}, array {q} in element {e}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------------------- computing with data
def s_data():
    S = fe.st()

    @S.composite
    def mk(draw):
        dim = draw(S.sampled_from([2, 2, 3]))
        op = draw(S.lists(S.one_of(
            S.tuples(S.sampled_from(['+', '-', 'dot', 'x']), S.integers(0, 3), S.integers(0, 3)),
            S.tuples(S.sampled_from(['+c', '-c', 'c*', '**', 'square', 'norm', 'self']), S.integers(0, 3), fe.s_num(-2, 2, 2))),
            min_size=2, max_size=10))
        return {'dim': dim, 'type': draw(S.sampled_from(['scalar', 'vector', 'vector', 'tensor'])), 'ops': op, 'seed': draw(S.integers(0, 9999)),
                'regions': draw(S.lists(S.integers(0, 20), min_size=1, max_size=3, unique=True)), 'copy': draw(S.booleans())}
    return mk()


def prop_data(case):
    from phyem.tools.dds.region_wise_structured import DDSRegionWiseStructured as One
    dim = case['dim']
    r = np.random.default_rng(case['seed'])
    shp = {reg: tuple(r.integers(1, 5, dim)) for reg in case['regions']}
    coo = [{reg: r.uniform(-1, 1, shp[reg]) for reg in case['regions']} for _ in range(dim)]
    nc = {'scalar': 1, 'vector': dim, 'tensor': dim ** 2}[case['type']]

    def fresh():
        v = [{reg: r.uniform(.1, 2, shp[reg]) for reg in case['regions']} for _ in range(nc)]
        c = [{reg: x[reg].copy() for reg in x} for x in coo] if case['copy'] else coo
        return One(c, [dict(x) for x in v]), [{reg: x[reg].copy() for reg in x} for x in v]

    have = [fresh() for _ in range(4)]
    first = list(have)

    def each(v, fn):
        return [{reg: fn(x[reg]) for reg in x} for x in v]

    def check(x, v, what):
        require(len(x._val_dict_list) == len(v), f'{what}: components', got=len(x._val_dict_list), ref=len(v))
        for q, (a, b) in enumerate(zip(list(x._coo_dict_list) + list(x._val_dict_list), coo + v)):
            require(set(a) == set(b), f'{what}: regions')
            for reg in b:
                close(a[reg], b[reg], f'{what}: array {q} in region {reg}', tol=1e-12)

    done = 0
    for op, i, j in case['ops']:
        a, va = have[i % len(have)]
        if op in ('+', '-', 'dot', 'x'):
            b, vb = have[j % len(have)]
            if len(va) != len(vb):
                continue
            if op == '+':
                z, vz = a + b, [{reg: p[reg] + q[reg] for reg in p} for p, q in zip(va, vb)]
            elif op == '-':
                z, vz = a - b, [{reg: p[reg] - q[reg] for reg in p} for p, q in zip(va, vb)]
            elif op == 'dot':
                z, vz = a.dot(b), [{reg: sum(p[reg] * q[reg] for p, q in zip(va, vb)) for reg in va[0]}]
            else:
                if not (dim == 2 and len(va) == 2):
                    continue
                z, vz = a.x(b), [{reg: va[0][reg] * vb[1][reg] - va[1][reg] * vb[0][reg] for reg in va[0]}]
        elif op == '+c':
            z, vz = a + j, each(va, lambda x: x + j)
        elif op == '-c':
            z, vz = a - j, each(va, lambda x: x - j)
        elif op == 'c*':
            z, vz = j * a, each(va, lambda x: j * x)
        elif op == '**':
            n = int(abs(j)) + 1
            z, vz = a ** n, each(va, lambda x: x ** n)
        elif op == 'square':
            z, vz = a.square, each(va, lambda x: x * x)
        elif op == 'norm':
            if not (dim == 2 and len(va) == 2):
                continue
            z, vz = a.norm(), [{reg: np.hypot(va[0][reg], va[1][reg]) for reg in va[0]}]
        else:
            m = a.maximum()
            close(m, [max(np.max(np.abs(x[reg])) for reg in x) for x in va], 'maximum of the components')
            continue
        check(z, vz, f'{op} of data sets')
        if max(np.max(np.abs(x[reg])) for x in vz for reg in x) < 1e6:
            have.append((z, vz))
        done += 1
    # data given on other points do not go together, even if they share arrays of coordinates
    a, va = have[0]
    q = int(r.integers(0, dim))
    other = [{reg: x[reg] + .5 if i == q else x[reg] for reg in x} for i, x in enumerate(coo)]
    if case['copy'] or r.integers(0, 2):
        other = [x if i == q else coo[i] for i, x in enumerate(other)]
    b = One(other, [dict(x) for x in va])
    for what, fn in (('+', lambda: a + b), ('-', lambda: b - a), ('dot', lambda: a.dot(b))):
        try:
            fn()
        except Exception:   # noqa
            continue
        require(False, f'{what} of data sets on other points in direction {q}')
    for a, va in first:
        check(a, va, 'an operand after the operations')
    return {'nontrivial': done > 1, 'labels': [f'{dim}d', case['type']]}


# ---------------------------------------------------------------------------------------- interpolation, stream function
def s_grid():
    S = fe.st()

    @S.composite
    def mk(draw):
        nx, ny = draw(S.integers(1, 3)), draw(S.integers(1, 3))
        bx, by = draw(fe.s_interval(False)), draw(fe.s_interval(False))
        if draw(S.booleans()):               # a symmetric domain: grid lines through the origin
            bx, by = [-1, 1], [-1, 1]
        plain = draw(S.integers(0, 3)) == 0
        if plain:                            # two regions that meet at x = 0
            nx, ny, bx = 2, 1, [-1, 1]
        return {'plain': plain, 'nx': nx, 'ny': ny, 'bx': bx, 'by': by, 'flip': draw(S.lists(S.integers(0, 3), min_size=9, max_size=9)),
                'order': draw(S.permutations(list(range(nx * ny)))), 'rot': draw(fe.s_num(-1, 1, 2)), 'noise': draw(S.sampled_from([0, 0, 1e-15])),
                'n': [draw(S.integers(2, 5)), draw(S.integers(2, 5))], 'c': [draw(fe.s_num(-2, 2, 2)) for _ in range(6)],
                'start': draw(S.one_of(S.none(), S.tuples(S.integers(0, 8), S.integers(0, 3), fe.s_num(-3, 3, 2)))),
                'shift': draw(S.sampled_from([0, 0, 1.5, -2])), 'skew': draw(fe.s_num(-.3, .3, 2)), 'drop': draw(S.integers(0, 4)),
                'pts': draw(S.lists(S.tuples(fe.s_num(0.02, .98, 3), fe.s_num(0.02, .98, 3)), min_size=1, max_size=4)),
                'seed': draw(S.integers(0, 999))}
    return mk()


def prop_grid(case):
    from phyem.tools.dds.region_wise_structured import DDSRegionWiseStructured as One
    nx, ny = case['nx'], case['ny']
    r = np.random.default_rng(case['seed'])
    X0, Y0 = np.linspace(*case['bx'], nx + 1), np.linspace(*case['by'], ny + 1)
    co, si = np.cos(case['rot']), np.sin(case['rot'])

    def place(a, b):
        if case['plain']:
            return a, b
        x, y = a + case['skew'] * b, b
        if case['rot'] > 0:
            x, y = co * x - si * y, si * x + co * y
        return x, y

    X, Y = {}, {}
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    if case['drop'] == 0 and nx > 1 and ny > 1:
        cells = cells[1:]                    # an L-shaped domain
    cells = [cells[q] for q in case['order'] if q < len(cells)]
    for q, (i, j) in enumerate(cells):
        a, b = np.meshgrid(np.linspace(X0[i], X0[i + 1], case['n'][0]), np.linspace(Y0[j], Y0[j + 1], case['n'][1]), indexing='ij')
        f = case['flip'][q]
        if f & 1:
            a, b = a[::-1], b[::-1]
        if f & 2:
            a, b = a[:, ::-1], b[:, ::-1]
        x, y = place(a, b)
        if case['noise']:
            x, y = x + case['noise'] * r.uniform(-1, 1, x.shape), y + case['noise'] * r.uniform(-1, 1, x.shape)
        X[q], Y[q] = x, y
    # psi: quadratic, u = psi_y, v = -psi_x linear, so the trapezoidal rule is exact
    c = case['c']
    psi = lambda x, y: c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y   # noqa
    U = {e: c[2] + c[4] * X[e] + 2 * c[5] * Y[e] for e in X}
    V = {e: -(c[1] + 2 * c[3] * X[e] + c[4] * Y[e]) for e in X}
    vec = One([X, Y], [U, V])
    scale = sum(abs(_) for _ in c) * (1 + max(np.max(np.abs(np.stack([X[e], Y[e]]))) for e in X)) ** 2 + 3
    kw = {}
    if case['shift']:
        kw['shift'] = case['shift']
    e0 = list(X)[0]
    ref0 = psi(X[e0][0, 0], Y[e0][0, 0])
    if case['start'] is not None:
        e = list(X)[case['start'][0] % len(X)]
        ij = [(0, 0), (-1, 0), (0, -1), (-1, -1)][case['start'][1]]
        val = case['start'][2]
        kw['starting_coo_and_sf'] = ([float(X[e][ij]), float(Y[e][ij])], val)
        base = val - psi(X[e][ij], Y[e][ij])
    else:
        base = -ref0
    sf = vec.streamfunction(**kw)
    require(sf.classification == '2d scalar' and set(sf) == set(X), 'regions of the stream function', got=list(sf))
    for e in X:
        close(sf._val_dict_list[0][e], psi(X[e], Y[e]) + base + case['shift'], f'stream function in region {e}', scale=scale)
    # linear interpolation of linear data
    itp = vec.interpolate()
    si_ = One([X, Y], [{e: 1 + .5 * X[e] - .25 * Y[e] for e in X}])
    for q, p in enumerate(case['pts']):
        e = list(X)[q % len(X)]
        i, j = cells[e]
        a = X0[i] + p[0] * (X0[i + 1] - X0[i])
        b = Y0[j] + p[1] * (Y0[j + 1] - Y0[j])
        x, y = place(a, b)
        v = np.ravel(itp(x, y))
        close(v, [c[2] + c[4] * x + 2 * c[5] * y, -(c[1] + 2 * c[3] * x + c[4] * y)], f'interpolation at {(x, y)}', tol=1e-8, scale=scale)
        close(np.ravel(si_.value(x, y)), [1 + .5 * x - .25 * y], f'value at {(x, y)}', tol=1e-8, scale=3)
    return {'nontrivial': len(X) > 1, 'labels': ['rotated' if case['rot'] > 0 else 'straight', 'start' if case['start'] else 'default']}


# ---------------------------------------------------------------------------- the stream function of an msepy vector form
def s_psi():
    S = fe.st()

    @S.composite
    def mk(draw):
        m = {'type': 'crazy', 'c': 0., 'bounds': [draw(fe.s_interval(False)) for _ in range(2)], 'periodic': False,
             'layout': draw(fe.s_layout(2, 4))}
        return {'spec': {'lib': 'msepy', 'dim': 2, 'mesh': m, 'degree': draw(S.integers(2, 4))}, 'n': draw(S.integers(2, 6)),
                'c': [draw(fe.s_num(-2, 2, 2)) for _ in range(6)], 'o': draw(S.sampled_from(['inner', 'outer'])), 't': draw(fe.s_num(-1, 3, 2))}
    return mk()


def prop_psi(case):
    o, c = case['o'], case['c']
    D = fe.Disc(case['spec'], keys=[(1, o)])
    u = [['p', c[2], 0, 0, 0], ['p', c[4], 1, 0, 0], ['p', 2 * c[5], 0, 1, 0]]
    v = [['p', -c[1], 0, 0, 0], ['p', -2 * c[3], 1, 0, 0], ['p', -c[4], 0, 1, 0]]
    F = fe.Field([u, v], 2)
    D.reduce((1, o), F, case['t'])
    f = D.forms[(1, o)]
    psi = lambda x, y: c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y   # noqa
    for sf in (f.numeric.streamfunction.rws(t=case['t'], ddf=case['n']), f.numeric.dds.rws(t=case['t'], ddf=case['n']).streamfunction()):
        x, y = sf._coo_dict_list
        for r in sf:
            ref = psi(x[r], y[r]) - psi(x[r][0, 0], y[r][0, 0])
            close(sf._val_dict_list[0][r], ref, 'stream function of a form', tol=1e-8, scale=sum(map(abs, c)) * (1 + np.max(np.abs(x[r])) + np.max(np.abs(y[r]))) ** 2)
    return {'nontrivial': len(D.elements) > 1, 'labels': [o, f"n{case['n']}"]}


SUBS = [
    Sub('form', s_form, prop_form, 600, 5000, 'a mesh of several elements'),
    Sub('data', s_data, prop_data, 800, 6000, 'several operations'),
    Sub('grid', s_grid, prop_grid, 1000, 6000, 'several regions'),
    Sub('psi', s_psi, prop_psi, 300, 3000, 'several elements'),
]
