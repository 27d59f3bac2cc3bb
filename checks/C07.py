"""C07: boundary sections consist of exactly the selected faces, and their dofs, geometry and integrals are right."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, HarnessError, require, close
from checks.C05 import wrap

ASSUMPTIONS = ['The mapping of the elements is taken as the geometry (checked by C06).',
               'msehtt: faces are selected by objects they either lie on (to 1e-12) or leave by more than 1e-3 of the domain.']

TYPES = {('msehtt', 2): ['crazy', 'crazy', 'trf', 'ts', 'ren', 'crazy_multi', 'backward_step', 'chaotic', 'quad',
                         'rectangle', 'meshpy', 'data-quad', 'data-split'], ('msehtt', 3): ['crazy', 'crazy0']}


# ------------------------------------------------------------------------------------------ own faces
def sides(D, e):
    return [(a, n) for a in range(D.dim) for n in range(2)
            if not (D.etype(e) == 'tri' and (a, n) == (0, 0))]


def side_points(D, a, n, s):
    """Reference points on a side: s is a list of d-1 arrays for the other axes (ascending)."""
    s = list(s)
    like = s[0]
    return [np.full_like(like, 2. * n - 1) if x == a else s.pop(0) for x in range(D.dim)]


def boundary_sides(D):
    """The set of (element, axis, side) without a neighbour, by the positions of points inside the sides."""
    P, tags = [], []
    for e in D.elements:
        for a, n in sides(D, e):
            X = D.map(e, *side_points(D, a, n, [np.zeros(1)] * (D.dim - 1)))
            P.append([x[0] for x in X])
            tags.append((e, a, n))
    W = wrap(D, np.array(P).T).T
    out = set()
    tol = 1e-6
    order = np.argsort(W[:, 0], kind='stable')
    Ws = W[order]
    for i in range(len(W)):
        lo = np.searchsorted(Ws[:, 0], W[i, 0] - tol)
        hi = np.searchsorted(Ws[:, 0], W[i, 0] + tol)
        if np.sum(np.max(np.abs(Ws[lo:hi] - W[i]), axis=1) < tol) == 1:
            out.add(tags[i])
    return out


def side_dofs(D, key, e, a, n):
    """The local dofs whose geometric object lies on the side."""
    p = D.px()[a]
    out = []
    for i, (comp, cell) in enumerate(D.dof_boxes(key, D.etype(e))):
        if cell[a] == ('n', p if n else 0):
            out.append(i)
        elif D.etype(e) == 'tri' and key[0] == 0 and cell == (('n', 0), ('n', 0)) and a == 1:
            out.append(i)      # the collapsed corner lies on both lateral sides
    return set(out)


def htt_side(D, e, f):
    """(axis, side, direction) of face f of an msehtt element."""
    if D.dim == 3:
        return f // 2, f % 2, 1
    s = np.array([-0.7, 0.1, 0.6])
    got = np.array(D.element(e).faces[f].ct.mapping(s))
    hits = []
    for a, n in sides(D, e):
        for rev in (1, -1):
            X = np.array(D.map(e, *side_points(D, a, n, [rev * s])))
            if np.max(np.abs(X - got)) < 1e-9 * fe.extent(D):
                hits.append((a, n, rev))
    require(len(hits) == 1, f'face {f} of element {e} is not one side of the element: {hits}')
    return hits[0]


def tangent_normal(D, e, a, n, s, h=2e-3):
    """2d: points, d(mapping)/ds and the outward unit normal of a side at reference coordinates s."""
    X = side_points(D, a, n, [s])
    J = D.jac_fd(e, *X)
    tau = J[:, 1 - a]
    out = J[:, a] * (2 * n - 1)
    nv = np.array([tau[1], -tau[0]])
    sg = np.sign(np.sum(nv * out, axis=0))
    nv = nv * sg / np.sqrt(np.sum(tau ** 2, axis=0))
    return np.array(D.map(e, *X)), tau, nv


# ------------------------------------------------------------------------------------------ building
def s_spec(dims=(2, 3), libs=('msepy', 'msehtt'), maxp=(3, 4, 2), maxn=(4, 3, 2), periodic=(False, False, False, True)):
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(libs=libs, dims=dims, maxp=maxp, maxn=maxn, types=TYPES, periodic=periodic, cmax=0.2))
        return spec
    return mk()


def s_section():
    S = fe.st()
    return S.tuples(s_spec(), S.integers(0, 10 ** 6)).map(lambda a: {'spec': a[0], 'seed': a[1]})


class Sections:
    """Two complementary boundary sections of a discretization, and the whole boundary."""

    def __init__(self, spec, seed, keys, make=None):
        self.make = make or (lambda D: {})      # more abstract objects
        self.r = r = np.random.default_rng(seed)
        if spec['lib'] == 'msepy':
            self.msepy(spec, r, keys)
        else:
            self.msehtt(spec, r, keys)

    def msepy(self, spec, r, keys):
        d = spec['dim']
        dec = {}

        def make_abstract(D):
            D.abstract_mesh.boundary_partition(r'\Gamma_a', r'\Gamma_b')
            return self.make(D)

        def between(D):
            man = D.objs['man']
            rm = man.regions.map
            for i in rm:
                dec[i] = [int(r.integers(0, 2)) if mp is None else 0 for mp in rm[i]]
            mf = D.impl.base['manifolds'][(r'\Gamma_a', r'\Gamma_b')[self.which]]
            self.impl = D.impl
            D.impl.config(mf)(man, {i: list(v) for i, v in dec.items()})

        self.which = int(r.integers(0, 2))
        per = spec['mesh'].get('periodic')
        self.D = D = fe.Disc(spec, keys=keys, make_abstract=self.make if per else make_abstract, between=None if per else between)
        self.periodic = bool(per) and spec['mesh']['type'] != 'backward_step'
        if per:
            self.A = self.B = None
            return
        a, b = (D.impl.base['manifolds'][x] for x in (r'\Gamma_a', r'\Gamma_b'))
        A, B = D.impl.find_mesh_of_manifold(a), D.impl.find_mesh_of_manifold(b)
        if self.which:
            A, B = B, A
        self.A, self.B = A, B
        self.full = D.impl.find_mesh_of_manifold(D.impl.base['manifolds'][r'\partial ' + '\\mathcal{M}']) \
            if (r'\partial ' + '\\mathcal{M}') in D.impl.base['manifolds'] else None
        # the sides of the regions selected
        want = set()
        num = D.mesh.elements._numbering
        for i, v in dec.items():
            N = np.array(num[i])
            for j, x in enumerate(v):
                if x:
                    idx = [slice(None)] * d
                    idx[j // 2] = -(j % 2)
                    want |= {(int(e), j // 2, j % 2) for e in N[tuple(idx)].ravel()}
        self.wantA = want

    def msehtt(self, spec, r, keys):
        holder = {}

        def make_abstract(D):
            ph = boot.phyem()
            D.abstract_mesh.boundary_partition(r'\Gamma_a', r'\Gamma_b')
            holder['bm'] = D.abstract_mesh.boundary()
            sub = D.abstract_manifold.boundary().sub_manifolds() if hasattr(
                D.abstract_manifold.boundary(), 'sub_manifolds') else None
            return dict(self.make(D), boundary_mesh=holder['bm'])
        per = bool(spec['mesh'].get('periodic'))
        self.periodic = per
        self.D = D = fe.Disc(spec, keys=keys, make_abstract=self.make if per else make_abstract)
        if per:
            self.A = self.B = None
            return
        base = D.impl.base['meshes']
        ms = {m.abstract.manifold._sym_repr: m for m in base.values()}
        self.ms = ms
        full = [m for m in base.values() if m.abstract is D.abstract_mesh.boundary()][0]
        D.impl.config(full)(D.tgm, including=D.mesh)
        self.full = full
        Ga, Gb = ms[r'\Gamma_a'], ms[r'\Gamma_b']
        self.how, sel, self.hit = selection(D, r)
        D.impl.config(Ga)(D.tgm, including={'type': 'boundary_section', 'partial elements': D.mesh, self.how: sel})
        D.impl.config(Gb)(D.tgm, including={'type': 'boundary_section', 'partial elements': D.mesh,
                                            ('except ' + self.how): sel})
        self.A, self.B = Ga, Gb
        self.wantA = None


def selection(D, r):
    """(kind, the objects, a predicate on points of a face with their normals)."""
    from phyem.tools.miscellaneous.geometries.m2n2 import Point2, StraightLine2, Polygon2, StraightSegment2
    L = fe.extent(D)
    d = D.dim
    g = np.meshgrid(*[np.array([-1., 0., 1.])] * d, indexing='ij')
    P = np.array([np.array(D.map(e, *g)).reshape(d, -1) for e in D.elements])
    lo, hi = P.min(axis=(0, 2)), P.max(axis=(0, 2))
    kind = 'ounv' if d == 3 else ['ounv', 'on straight lines', 'in polygons', 'on straight segments'][r.integers(0, 4)]
    n = int(r.integers(1, 3))
    if kind == 'ounv':
        vs = []
        for _ in range(n):
            if d == 2 and r.integers(0, 3) == 0:      # the normal of a random boundary face
                bd = sorted(boundary_sides(D))
                e, a, nn = bd[r.integers(0, len(bd))]
                _, _, nv = tangent_normal(D, e, a, nn, np.zeros(1))
                vs.append([float(nv[0, 0]), float(nv[1, 0])])
            else:
                v = [0] * d
                v[r.integers(0, d)] = int(r.choice([-1, 1]))
                vs.append(v)

        def pred(x, nv):
            flat = np.max(np.abs(nv - nv[:, :1])) < 1e-9
            return flat and any(np.max(np.abs(nv[:, 0] - np.array(v))) < 5e-6 for v in vs)
        return kind, (vs[0] if n == 1 else tuple(vs)), pred
    if kind in ('on straight lines', 'on straight segments'):
        lines = []
        for _ in range(n):
            if r.integers(0, 2):           # a straight boundary face
                bd = sorted(boundary_sides(D))
                e, a, nn = bd[r.integers(0, len(bd))]
                X = np.array(D.map(e, *side_points(D, a, nn, [np.array([-1., 1.])])))
                p, q = X[:, 0], X[:, 1]
                if kind == 'on straight segments':
                    p, q = p - (q - p) * r.uniform(0, 2), q + (q - p) * r.uniform(0, 2)
            else:                                     # a side of the bounding box
                a, nn = int(r.integers(0, 2)), int(r.integers(0, 2))
                v = (lo, hi)[nn][a]
                p, q = np.zeros(2), np.zeros(2)
                p[a] = q[a] = v
                s = np.array([-0.01, 1.01]) if r.integers(0, 2) else np.array([-0.01, 0.6])
                p[1 - a], q[1 - a] = lo[1 - a] + s * (hi - lo)[1 - a]
            lines.append((p, q))
        out = []
        for p, q in lines:
            c = r.integers(0, 3)
            A, B = (float(p[0]), float(p[1])), (float(q[0]), float(q[1]))
            if c == 0:
                out.append((A, B))
            elif c == 1:
                out.append((Point2(*A), Point2(*B)))
            else:
                out.append((StraightLine2 if kind == 'on straight lines' else StraightSegment2)(Point2(*A), Point2(*B)))

        def pred(x, nv):
            for p, q in lines:
                t = (q - p) / np.linalg.norm(q - p)
                w = x - p[:, None]
                dist = np.abs(w[0] * t[1] - w[1] * t[0])
                s = w[0] * t[0] + w[1] * t[1]
                inside = np.all(s > -1e-9) and np.all(s < np.linalg.norm(q - p) + 1e-9)
                # decided only where the face is clearly on the line or clearly leaves it
                if np.max(dist) < 1e-10 * L:
                    if kind == 'on straight lines' or inside:
                        return True
                elif np.max(dist) < 2e-2 * L:
                    if kind == 'on straight lines' or np.any((s > 0) & (s < np.linalg.norm(q - p))):
                        return None
            return False
        return kind, tuple(out), pred
    polys = []
    for _ in range(n):
        c = lo + (hi - lo) * r.uniform(-0.1, 1.1, 2)
        m = int(r.integers(3, 6))
        ang = np.sort(r.uniform(0, 2 * np.pi, m))
        R = r.uniform(0.2, 0.7) * L
        polys.append(np.array([c + R * np.array([np.cos(t), np.sin(t)]) for t in ang]))

    def pred(x, nv):
        best = False
        for v in polys:
            s, on = [], []
            for i in range(len(v)):
                a, b = v[i], v[(i + 1) % len(v)]
                s.append(((b[0] - a[0]) * (x[1] - a[1]) - (b[1] - a[1]) * (x[0] - a[0])) / max(np.linalg.norm(b - a), 1e-300))
            s = np.array(s)      # > 0: inside (counterclockwise)
            mn = np.min(s, axis=0)
            if np.all(mn > 1e-4 * L):
                return True
            if np.all(mn > -1e-4 * L):
                best = None
        return best
    objs = [Polygon2(*[Point2(float(a), float(b)) for a, b in v]) for v in polys]
    for v in polys:
        for i in range(len(v)):
            if np.linalg.norm(v[i] - v[(i + 1) % len(v)]) < 2e-3 or len(set(map(tuple, v))) < len(v):
                raise Degenerate()
    return kind, (objs[0] if n == 1 and r.integers(0, 2) else tuple(objs)), pred


class Degenerate(Exception):
    pass


def faces(Z, bs):
    """{(e, a, n)} of a boundary section, and {(e,a,n): code face key}."""
    D = Z.D
    out = {}
    if D.lib == 'msepy':
        for i in bs.faces:
            f = bs.faces[i]
            k = (int(f._element), int(f._m), int(f._n))
            require(k not in out, f'face {k} is twice in the boundary section')
            out[k] = i
        require(len(bs.faces) == len(out), 'len(faces) is not the number of faces')
    else:
        comp = bs.composition
        for e, f in comp:
            k = (e,) + htt_side(D, e, f)[:2]
            require(k not in out, f'face {k} is twice in the boundary section')
            out[k] = (e, f)
        require(len(comp) == len(out), 'len(composition) is not the number of faces')
    return out


def prop_section(case):
    spec = case['spec']
    d = spec['dim']
    r = np.random.default_rng(case['seed'] + 1)
    ks = [k for k in fe.space_keys(d)]
    keys = [ks[r.integers(0, len(ks))] for _ in range(2)]
    keys = list(dict.fromkeys(keys))
    try:
        Z = Sections(spec, case['seed'], keys)
    except Degenerate:
        return {'nontrivial': False, 'excluded': True}
    D = Z.D
    bd = boundary_sides(D)
    if Z.A is None:
        require(not Z.periodic or not bd, f'the periodic mesh has sides without a neighbour: {sorted(bd)[:4]}')
        if D.lib == 'msepy':
            neg = {(e, j // 2, j % 2) for e in D.elements for j, x in enumerate(D.mesh.elements.map[e]) if x == -1}
            require(neg == bd, f'the element map has boundary sides {sorted(neg ^ bd)[:4]} more or less than the mesh')
        return {'nontrivial': False, 'labels': ['periodic']}
    A, B = faces(Z, Z.A), faces(Z, Z.B)
    require(not set(A) & set(B), f'faces {sorted(set(A) & set(B))[:3]} are in both sections of the partition')
    require(set(A) | set(B) == bd, f'the partition misses or adds faces: {sorted((set(A) | set(B)) ^ bd)[:4]}')
    if D.lib == 'msepy':
        require(set(A) == Z.wantA, f'the section has not the faces of the selected region sides: '
                                   f'{sorted(set(A) ^ Z.wantA)[:4]}')
        neg = {(e, j // 2, j % 2) for e in D.elements for j, x in enumerate(D.mesh.elements.map[e]) if x == -1}
        require(neg == bd, f'the element map has boundary sides {sorted(neg ^ bd)[:4]} more or less than the mesh')
    else:
        F = faces(Z, Z.full)
        require(set(F) == bd, f'the whole boundary misses or adds faces: {sorted(set(F) ^ bd)[:4]}')
        s = np.linspace(-1, 1, 7)
        for (e, a, n) in bd:
            if d == 2:
                x, _, nv = tangent_normal(D, e, a, n, s)
            else:
                G = np.meshgrid(s, s, indexing='ij')
                X = side_points(D, a, n, [G[0].ravel(), G[1].ravel()])
                x = np.array(D.map(e, *X))
                J = D.jac_fd(e, *X)
                iJ = fe.inv_(J)
                nv = iJ[a] * (2 * n - 1)
                nv = nv / np.sqrt(np.sum(nv ** 2, axis=0))
            w = Z.hit(x, nv)
            if w is not None:
                require(w == ((e, a, n) in A), f'face {(e, a, n)} should {"" if w else "not "}be selected by "{Z.how}"')
    # dofs
    for key in keys:
        k = key[0]
        if k == d or spec['mesh'].get('trf'):      # (not implemented on curvilinear triangles)
            continue
        gm, _ = D.gm(key)
        for S_, bs in ((A, Z.A), (B, Z.B)):
            want = {}
            for (e, a, n) in S_:
                want.setdefault(e, set()).update(side_dofs(D, key, e, a, n))
            glob = {int(gm[e][i]) for e in want for i in want[e]}
            for rep in range(2):
                if D.lib == 'msepy':
                    got = {}
                    for q, i in S_.items():
                        f = bs.faces[i]
                        loc = [int(_) for _ in np.ravel(f.find_corresponding_local_dofs_of(D.forms[key]))]
                        require(set(loc) == side_dofs(D, key, *q) and len(loc) == len(set(loc)),
                                f'local dofs of {key} on face {q}: {sorted(loc)}')
                        got[i] = loc
                    found = bs.find_boundary_objects(D.forms[key], 'gathering_matrix')
                    require({int(_) for _ in found} == glob, f'global dofs of {key} on the section')
                    T = np.arange(len(D.elements) * D.n_local(key)).reshape(len(D.elements), -1) * 3 + 1
                    tg = bs.find_boundary_objects(D.forms[key], T)
                    ref = [T[bs.faces[i]._element, j] for i in bs.faces for j in got[i]]
                    require([int(_) for _ in tg] == [int(_) for _ in ref], 'the objects found on the boundary section')
                else:
                    loc = Z_find(bs, D.forms[key], True)
                    require({e: set(v) for e, v in loc.items() if len(v)} == {e: v for e, v in want.items() if v} and
                            all(list(v) == sorted(set(v)) for v in loc.values()),
                            f'local dofs of {key} on the section')
                    g2 = Z_find(bs, D.forms[key], False)
                    require(sorted(int(_) for _ in g2) == sorted(glob), f'global dofs of {key} on the section')
    # geometry of the faces
    sc = fe.extent(D)
    for S_, bs in ((A, Z.A), (B, Z.B)):
        items = list(S_.items())
        if not items:
            continue
        for rep in range(2):
            if d == 2:
                s = np.sort(r.uniform(-1, 1, 4))
                if D.lib == 'msepy':
                    mp, jm, nn = bs.ct.mapping(s), bs.ct.Jacobian_matrix(s), bs.ct.outward_unit_normal_vector(s)
                for q, i in items:
                    x, tau, nv = tangent_normal(D, *q, s)
                    if D.lib == 'msepy':
                        M, Jm, N = mp[i], jm[i], nn[i]
                    else:
                        ct = bs.composition[i].ct
                        rev = htt_side(D, *i)[2]
                        x, tau, nv = tangent_normal(D, *q, rev * s)
                        tau = tau * rev
                        M, Jm, N = ct.mapping(s), ct.Jacobian_matrix(s), ct.outward_unit_normal_vector(s)
                    full = lambda v: np.array([np.broadcast_to(np.asarray(_, float), s.shape) for _ in v])  # noqa
                    close(full(M), x, f'points of face {q}', atol=1e-10 * sc)
                    close(full(Jm), tau, f'Jacobian of face {q}', rtol=1e-7, atol=1e-9 * sc)
                    close(full(N), nv, f'outward unit normal of face {q}', rtol=1e-7)
            elif D.lib == 'msepy':
                s = [r.uniform(-1, 1, 5) for _ in range(2)]
                mp, nn = bs.ct.mapping(*s), bs.ct.outward_unit_normal_vector(*s)
                jm = bs.ct.Jacobian_matrix(*s)
                for q, i in items[:12]:
                    e, a, n = q
                    # the cyclic order of the other axes
                    P = [None] * 3
                    P[a], P[(a + 1) % 3], P[(a + 2) % 3] = np.full(5, 2. * n - 1), s[0], s[1]
                    J = D.jac_fd(e, *P)
                    nv = fe.inv_(J)[a] * (2 * n - 1)
                    nv = nv / np.sqrt(np.sum(nv ** 2, axis=0))
                    full = lambda v: np.array([np.broadcast_to(np.asarray(_, float), s[0].shape) for _ in v])  # noqa
                    close(full(mp[i]), np.array(D.map(e, *P)), f'points of face {q}', atol=1e-10 * sc)
                    close(full(nn[i]), nv, f'outward unit normal of face {q}', rtol=1e-6)
                    close(np.array([full(_) for _ in jm[i]]), J[:, [(a + 1) % 3, (a + 2) % 3]],
                          f'Jacobian of face {q}', rtol=1e-7, atol=1e-9 * sc)
    if D.lib == 'msepy' and d == 2:
        q_, w_ = fe.gauss(30)
        for q, i in A.items():
            _, tau, _ = tangent_normal(D, *q, q_)
            ln = float(np.sum(np.sqrt(np.sum(tau ** 2, axis=0)) * w_))
            got = float(Z.A.faces[i].length)
            require(abs(got - ln) < 1e-4 * ln, f'length of face {q}: {got}, {ln}')
            tl = np.sqrt(np.sum(tau ** 2, axis=0))
            if np.ptp(tau[0]) + np.ptp(tau[1]) < 1e-9 * sc:
                require(abs(got - ln) < 1e-9 * ln, f'length of the straight face {q}: {got}, {ln}')
    lab = fe.labels(spec) + ([Z.how] if D.lib == 'msehtt' else []) + (['proper'] if A and B else [])
    return {'nontrivial': bool(A) and bool(B), 'labels': lab}


def Z_find(bs, f, local):
    return bs.composition.find_dofs(f, local=local)


# ------------------------------------------------------------------------ integrals over boundary sections
def s_bi():
    S = fe.st()

    @S.composite
    def mk(draw):
        if draw(S.integers(0, 3)) == 0:
            spec = draw(fe.s_spec(dims=(3,), libs=('msehtt',), maxp=(1, 1, 3), maxn=(1, 1, 2), types={('msehtt', 3): ['crazy0']},
                                  periodic=(False,)))
            key = [draw(S.integers(0, 2)), fe.O]
            n = 1 if key[0] == 2 else 3
        else:
            ty = {'msepy': ['crazy', 'crazy', 'crazy_multi', 'backward_step'],
                  'msehtt': ['crazy', 'crazy', 'crazy_multi', 'ren', 'chaotic', 'rectangle', 'backward_step']}
            spec = draw(fe.s_spec(dims=(2,), maxp=(3, 5, 2), maxn=(1, 3, 1), periodic=(False,), types=ty, cmax=0.2))
            key = draw(S.sampled_from([[1, fe.O], [1, fe.I], [0, fe.I], [0, fe.O]]))
            n = 1 if key[0] == 1 else 2
        d = spec['dim']
        return {'spec': spec, 'key': key, 'seed': draw(S.integers(0, 10 ** 6)),
                'fields': [draw(fe.s_field(d, n)) for _ in range(2)],
                'calls': draw(S.lists(S.tuples(S.integers(0, 1), S.integers(0, 1), fe.s_time()).map(list),
                                      min_size=1, max_size=4))}
    return mk()


def side_integrals(D, key, q, F, t, nodes, w):
    """{local dof: the integral of the traces of the field and of the basis form} over a side."""
    e, a, n = q
    k, o = key
    d = D.dim
    G = np.meshgrid(*[nodes] * (d - 1), indexing='ij')
    W = w
    for _ in range(d - 2):
        W = np.multiply.outer(W, w)
    P = side_points(D, a, n, [g.ravel() for g in G])
    x = D.map(e, *P)
    J = D.jac_fd(e, *P)
    # the area vector, outward
    av = fe.det_(J) * fe.inv_(J)[a] * (2 * n - 1)
    v = [F.ev(i, t, *x) for i in range(len(F.comps))]
    rb = fe.ref_basis(D, key, [np.array([2. * n - 1]) if i == a else nodes for i in range(d)])
    out = {}
    for i in side_dofs(D, key, e, a, n):
        comp, val = rb[i]
        val = val.reshape(-1)
        if k == 0:
            u = [val]
        else:
            rr = [np.zeros_like(val)] * d
            rr[comp] = val
            u = fe.pushforward(d, key, J, rr)
        if k == d - 1:
            if d == 2 and o == fe.I:
                g = v[0] * (u[0] * av[1] - u[1] * av[0])
            else:
                g = v[0] * sum(u[j] * av[j] for j in range(d))
        elif k == 0:
            g = u[0] * ((v[0] * av[1] - v[1] * av[0]) if d == 2 and o == fe.O else sum(v[j] * av[j] for j in range(d)))
        else:      # 3d 1-forms: (v x n) . u
            c = (v[1] * av[2] - v[2] * av[1], v[2] * av[0] - v[0] * av[2], v[0] * av[1] - v[1] * av[0])
            g = sum(u[j] * c[j] for j in range(3))
        out[i] = np.sum(g * W.ravel())
    return out


def prop_bi(case):
    spec, key = case['spec'], tuple(case['key'])
    try:
        Z = Sections(spec, case['seed'], [key])
    except Degenerate:
        return {'nontrivial': False, 'excluded': True}
    D = Z.D
    d = D.dim
    f = D.forms[key]
    S_ = [faces(Z, Z.A), faces(Z, Z.B)]
    F = [fe.Field(fe.tame(D, x), d) for x in case['fields']]
    vcs = [x.vc(d, (0, fe.O) if len(x.comps) == 1 else (1, fe.O)) for x in F]
    sg = fe.dof_signs(D, key, D.elements)
    some = False
    nl = D.n_local(key)
    for which, fi, t in case['calls']:
        bs = (Z.A, Z.B)[which]
        r = f.bi.with_vc_over_boundary_section(t, vcs[fi], bs)
        got = np.zeros((len(D.elements), nl))
        if D.lib == 'msepy':
            require(np.shape(r) == got.shape, f'shape {np.shape(r)}')
            got[:] = r
        else:
            require(set(r) == {q[0] for q in S_[which]}, 'elements of the section')
            for e in r:
                got[D.elements.index(e)] = r[e]
        p = max(D.px()) + 1
        res = []
        rules = [fe.lobatto_quad(p), fe.gauss(min(D.px()) + 1), fe.gauss(p + 20), fe.gauss(p + 24)]
        for nodes, w in rules:
            out = np.zeros_like(got)
            for q in S_[which]:
                some = True
                i_ = D.elements.index(q[0])
                for i, val in side_integrals(D, key, q, F[fi], t, nodes, w).items():
                    out[i_, i] += val * sg[q[0]][i]
            res.append(out)
        rule = res[0] if D.lib == 'msepy' else res[1]
        q1, q2 = res[2:]
        mx = lambda x: np.max(np.abs(x), initial=0)  # noqa
        scale = mx(q2)
        tol = 1e-8 * scale + 1e-10 + 30 * mx(rule - q2) + mx(q1 - q2)
        dev = mx(got - q2)
        # the documented rule is right to round-off; so is any rule that is as good as it
        require(dev <= tol, f'boundary integrals of {key} at t={t} over section {"AB"[which]}: deviation {dev:.3e} '
                            f'(tolerance {tol:.3e}, size {scale:.3e})')
    return {'nontrivial': some, 'labels': fe.labels(spec) + [f'{key}']}


# ------------------------------------------------------------------------------------ fluxes, msehtt
def s_flux():
    S = fe.st()

    @S.composite
    def mk(draw):
        ty = {('msehtt', 2): ['crazy', 'crazy', 'crazy_multi', 'ren', 'chaotic', 'rectangle', 'meshpy', 'trf', 'ts', 'backward_step']}
        spec = draw(fe.s_spec(libs=('msehtt',), dims=(2,), maxp=(1, 4, 1), maxn=(1, 3, 1), types=ty, periodic=(False,), cmax=0.2))
        return {'spec': spec, 'seed': draw(S.integers(0, 10 ** 6)), 'nq': draw(S.integers(3, 9)),
                'field': draw(fe.s_field(2, 2)), 't': draw(fe.s_time())}
    return mk()


def prop_flux(case):
    spec = case['spec']
    key = (1, fe.O)
    try:
        Z = Sections(spec, case['seed'], [key, (2, fe.O)])
    except Degenerate:
        return {'nontrivial': False, 'excluded': True}
    D = Z.D
    S_ = [faces(Z, Z.A), faces(Z, Z.B), faces(Z, Z.full)]
    t = case['t']
    r = np.random.default_rng(case['seed'] + 5)
    v, _ = fe.rng_cochains(D, key, case['seed'])
    D.set_cochain(key, t, v)
    f = D.forms[key]
    p = D.px()[0]
    sg = fe.dof_signs(D, key, D.elements) if fe.flippable(D) else {e: np.ones(D.n_local(key, e)) for e in D.elements}
    D.set_cochain(key, t, v)
    nq = max(D.px()) + case['nq']
    got = []
    for bs, faces_ in zip((Z.A, Z.B, Z.full), S_):
        try:
            g = f[t].flux_over_boundary_section(bs, quad_degree=nq)
        except NotImplementedError:
            return {'nontrivial': False, 'excluded': True, 'labels': ['not-implemented']}
        g2 = f[t].flux_over_boundary_section(bs.composition, quad_degree=nq)
        require(g == g2, 'the flux depends on how the section is given')
        got.append(float(g))
        # the flux over a side is the sum of its edge dofs
        want, size = 0., 1e-300
        for (e, a, n) in faces_:
            for i in side_dofs(D, key, e, a, n):
                s = (2 * n - 1) * v[e][i] * sg[e][i]
                want += s
                size += abs(s)
        require(abs(got[-1] - want) < 1e-7 * size + 1e-10,
                f'flux over a section: {got[-1]}, the sum of the dofs on it: {want}')
    require(abs(got[0] + got[1] - got[2]) < 1e-8 * (1 + sum(map(abs, got))), 'fluxes of complementary sections do not add up')
    # Gauss: the flux through the whole boundary is the sum of the divergence cochain
    E = {e: D.E(key, e) for e in D.elements}
    tot = sum(float(np.sum(E[e] @ v[e])) for e in D.elements)
    require(abs(got[2] - tot) < 1e-7 * (1 + sum(np.sum(np.abs(x)) for x in v.values())), f'flux through the whole boundary {got[2]}, sum of the divergence {tot}')
    return {'nontrivial': bool(S_[0]) and bool(S_[1]), 'labels': fe.labels(spec) + [Z.how]}


SUBS = [
    Sub('section', s_section, prop_section, 1200, 12000, 'a partition of a mesh boundary into two nonempty sections'),
    Sub('integral', s_bi, prop_bi, 800, 8000, 'an integral over a nonempty section'),
    Sub('flux', s_flux, prop_flux, 500, 6000, 'fluxes over two nonempty complementary sections'),
]
