"""C34: the files written for VTK hold the sampled field."""
import itertools
import os
import re
import shutil
import tempfile
from collections import Counter

import numpy as np

from lib import boot, core, fe
from lib.core import require
from lib.engine import Sub

ASSUMPTIONS = ['.vtu files are read by our own reader of the format (XML with appended raw blocks).',
               'The field between the elements may take the value of any element at the point.']
TYPES = {('msepy', 2): ['crazy', 'crazy', 'crazy_multi', 'backward_step'], ('msepy', 3): ['crazy', 'crazy', 'backward_step'],
         ('msehtt', 2): ['crazy', 'crazy', 'ren', 'ts', 'crazy_multi', 'backward_step', 'quad', 'rectangle', 'meshpy', 'data-quad', 'data-split'],
         ('msehtt', 3): ['crazy0']}
TIMES = [0, 1, .5]
DT = {'Float64': np.float64, 'Float32': np.float32, 'Int64': np.int64, 'Int32': np.int32, 'UInt8': np.uint8, 'UInt64': np.uint64, 'Int8': np.int8}


def s_case():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2, 2, 2, 3), maxp=(1, 3, 2), maxn=(1, 3, 2), types=TYPES, custom=False))
        d = spec['dim']
        nf = draw(S.integers(1, 3))
        msepy = spec['lib'] == 'msepy'
        write = S.fixed_dictionaries({
            'forms': S.lists(S.integers(0, nf - 1), min_size=1, max_size=nf, unique=True), 't': S.integers(0, len(TIMES) - 1),
            'way': S.sampled_from(['vtk', 'vtk', 'call'] if msepy else ['visualize', 'export', 'ph', 'ph', 'ph.vtu', 'ph.vtk']),
            'factor': S.sampled_from([1, 1, .5, .2, 2, 1.4] if d == 2 else [1, .5]),
            'root': S.lists(S.booleans(), min_size=nf, max_size=nf)})
        return {'spec': spec, 'keys': draw(S.lists(S.integers(0, 2 * d + 1), min_size=nf, max_size=nf, unique=True)),
                'writes': draw(S.lists(write, min_size=1, max_size=3)), 'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def read_vtu(fn):
    """{points, connectivity, offsets, types, data}"""
    b = open(fn, 'rb').read()
    i = b.index(b'<AppendedData')
    j = b.index(b'_', i) + 1
    head = b[:i].decode()
    ht = DT[re.search(r'header_type="(\w+)"', head).group(1)]
    hs = np.dtype(ht).itemsize
    n = {k: int(v) for k, v in re.findall(r'(NumberOf(?:Points|Cells))="(\d+)"', head)}
    out = {'n': n, 'data': {}}
    pd = head.index('<PointData') if '<PointData' in head else len(head)
    for m in re.finditer(r'<DataArray ([^>]*)/?>', head):
        a = dict(re.findall(r'(\w+)="([^"]*)"', m.group(1)))
        o = j + int(a['offset'])
        size = int(np.frombuffer(b[o:o + hs], ht)[0])
        v = np.frombuffer(b[o + hs:o + hs + size], DT[a['type']])
        c = int(a.get('NumberOfComponents', 1))
        v = v.reshape(-1, c) if c > 1 else v
        if m.start() > pd:
            out['data'][a['Name']] = v
        else:
            out[a['Name']] = v
    return out


EDGES = {9: [(0, 1), (1, 2), (2, 3), (3, 0)], 8: [(0, 1), (1, 3), (3, 2), (2, 0)],
         12: [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
         11: [(0, 1), (1, 3), (3, 2), (2, 0), (4, 5), (5, 7), (7, 6), (6, 4), (0, 4), (1, 5), (2, 6), (3, 7)]}


def grid(D, factor):
    """The numbers of samples along the axes of each element."""
    if D.lib == 'msepy':
        f = D.forms[next(iter(D.forms))]
        return [max(int(p * factor * 1.5), 1) + 1 for p in f.space[f.degree].p]
    return [min(max(int(5 * factor), 3), 50)] * D.dim


def expected(D, n):
    """Distinct points of the sampled elements, {element: array of their numbers}, the edges of the cells."""
    X = [np.linspace(-1, 1, k) for k in n]
    G = [g.ravel() for g in np.meshgrid(*X, indexing='ij')]
    P = [np.stack([np.asarray(c, dtype=float).ravel() for c in D.map(e, *G)], axis=-1) for e in D.elements]
    A = np.concatenate(P)
    sc = np.max(np.ptp(A, axis=0))
    Q, num = cluster(A, 1e-8 * sc)
    ids = {e: num[i * len(G[0]):(i + 1) * len(G[0])].reshape(n) for i, e in enumerate(D.elements)}
    cells = Counter()
    for e in D.elements:
        for c in itertools.product(*[range(k - 1) for k in n]):
            E = []
            for a in itertools.product((0, 1), repeat=D.dim):
                for m in range(D.dim):
                    if a[m] == 0:
                        b = list(a)
                        b[m] = 1
                        E.append(frozenset((int(ids[e][tuple(i + j for i, j in zip(c, a))]), int(ids[e][tuple(i + j for i, j in zip(c, b))]))))
            cells[frozenset(E)] += 1
    return Q, ids, cells, sc


def cluster(A, tol):
    from scipy.spatial import cKDTree
    num = -np.ones(len(A), dtype=int)
    Q = []
    for i, nb in enumerate(cKDTree(A).query_ball_point(A, tol)):
        if num[i] < 0:
            num[nb] = len(Q)
            Q.append(A[i])
    return np.array(Q), num


def write(ph, D, w, fk, fn):
    fs = [D.forms[fk[i]] for i in w['forms']]
    t = TIMES[w['t']]
    if D.lib == 'msepy':
        others = [f if w['root'][i] else f[t] for i, f in zip(w['forms'], fs)][1:]
        if w['way'] == 'vtk' or D.dim == 3:
            (fs[0][t].visualize.vtk if w['way'] == 'vtk' else fs[0][t].visualize)(*others, saveto=fn, sampling_factor=w['factor'])
        else:
            fs[0][t].visualize(*others, saveto=fn + '.vtk', sampling_factor=w['factor'])
        return [f.name for f in fs]
    if w['way'] in ('visualize', 'export'):
        f = fs[0]
        if w['way'] == 'visualize':
            f[t].visualize.vtk(fn, ddf=w['factor'])
        else:
            f[t].export.vtk(fn, ddf=w['factor'])
        return [f.abstract._pure_lin_repr]
    ph.vtk(fn + {'ph': '', 'ph.vtu': '.vtu', 'ph.vtk': '.vtk'}[w['way']], *[f[t] for f in fs], ddf=w['factor'])
    return [f.abstract._pure_lin_repr for f in fs]


def prop(case):
    ph = boot.phyem()
    spec = case['spec']
    keys = fe.space_keys(spec['dim'])
    fk = [keys[i] for i in case['keys'] if i < len(keys)]
    if not fk:
        return {'excluded': True, 'nontrivial': False}
    D = fe.Disc(spec, keys=fk)
    for i, k in enumerate(fk):
        for j, t in enumerate(TIMES):
            D.set_cochain(k, t, fe.rng_cochains(D, k, case['seed'] + 10 * i + j)[0])
    folder = tempfile.mkdtemp(prefix='c34_', dir=boot.scratch())
    lab = []
    try:
        for i, w in enumerate(case['writes']):
            w = dict(w, forms=[j for j in w['forms'] if j < len(fk)])
            if not w['forms']:
                continue
            fn = os.path.join(folder, f'x{i}')
            names = write(ph, D, w, fk, fn)
            require(os.listdir(folder) == [f'x{i}.vtu'], f'the files are {os.listdir(folder)}')
            check(D, w, [fk[j] for j in w['forms']][:len(names)], names, read_vtu(fn + '.vtu'))
            os.remove(fn + '.vtu')
            lab += [w['way'], f'{len(names)} forms']
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return {'nontrivial': bool(lab) and len(D.elements) > 1, 'labels': fe.labels(spec) + sorted(set(lab))}


def check(D, w, ks, names, v):
    t = TIMES[w['t']]
    n = grid(D, w['factor'])
    Q, ids, cells, sc = expected(D, n)
    pts = v['points']
    require(len(pts) == v['n']['NumberOfPoints'] and len(v['types']) == v['n']['NumberOfCells'], f'the numbers of points, cells: {v["n"]}')
    full = np.zeros((len(Q), 3))
    full[:, :D.dim] = Q
    from scipy.spatial import cKDTree
    dist, at = cKDTree(full).query(pts)
    require(np.max(dist) < 1e-8 * sc, f'the point {pts[int(np.argmax(dist))].tolist()} of the file is no sample of the mesh ({np.max(dist):.2e} away)')
    require(len(np.unique(at)) == len(Q), f'{len(Q) - len(np.unique(at))} of the {len(Q)} sampled points are missing in the file')
    require(len(at) == len(Q), f'{len(at)} points for {len(Q)} places: points of neighbouring elements are not shared', key='points not shared')
    o = np.concatenate([[0], v['offsets']]).astype(int)
    got = Counter()
    for i, ty in enumerate(v['types']):
        c = at[v['connectivity'][o[i]:o[i + 1]]]
        require(int(ty) in EDGES and len(c) == (4 if int(ty) in (8, 9) else 8), f'cell {i} of type {ty} has the points {c.tolist()}')
        got[frozenset(frozenset((int(c[a]), int(c[b]))) for a, b in EDGES[int(ty)])] += 1
    require(got == cells, f'the cells: {sum(cells.values())} expected, {sum(got.values())} found, {sum((cells - got).values())} of them are missing')
    require(set(v['data']) == set(names), f'the data sets are {sorted(v["data"])}, expected {sorted(names)}')
    for k, nm in zip(ks, names):
        rec = D.recon(k, t, *[np.linspace(-1, 1, m) for m in n])
        val = np.asarray(v['data'][nm], dtype=float)
        nc = fe.n_components(D.dim, k[0])
        require(val.shape == ((len(pts), 3) if nc > 1 else (len(pts),)), f'the shape of the data of {k} is {val.shape}')
        val = val.reshape(len(pts), -1)
        if nc == 2:
            require(np.max(np.abs(val[:, 2])) == 0, f'the third component of a vector in the plane is {np.max(np.abs(val[:, 2]))}')
        best = np.full(len(pts), np.inf)
        inv = np.zeros(len(Q), dtype=int)
        inv[at] = np.arange(len(pts))
        big = 1e-300
        for e in D.elements:
            r = np.stack([np.asarray(c, dtype=float).reshape(n) for c in rec[e][1]], axis=-1).reshape(-1, nc)
            big = max(big, float(np.max(np.abs(r))))
            p = inv[ids[e].ravel()]
            np.minimum.at(best, p, np.max(np.abs(val[p][:, :nc] - r), axis=-1))
        i = int(np.argmax(best))
        require(best[i] <= 1e-9 * big, f'the value of {k} at {pts[i].tolist()}, t={t}, is {val[i].tolist()}: no element has it there '
                                       f'({best[i]:.3e} off, field size {big:.2e})')


SUBS = [Sub('files', s_case, prop, 800, 8000, 'a mesh of several elements')]
