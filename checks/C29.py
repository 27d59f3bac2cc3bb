"""C29: geometric predicates agree with exact geometry."""
import math
from fractions import Fraction

import numpy as np

from lib import boot, fe
from lib.core import Sub, require, close

ASSUMPTIONS = ['Coordinates are lattice points under a similarity map, up to round-off (1e-12; none for polygons): objects coincide, or differ by clearly more than the tolerances of the predicates.',
               'Polygons are convex where containment and unions are asked for.']

SCALES = [1., .1, 1 / 3, 2.5]
SHIFTS = [0., 0., .3, -1.7]


def place(case, p):
    """A lattice point (integers) in space, up to round-off."""
    case['_'] = case.get('_', 0) + 1
    e = np.random.default_rng(case['_']).uniform(-1, 1, len(p)) * case['noise'] if case['noise'] else [0] * len(p)
    return tuple(float(case['scale'] * x + s + d) for x, s, d in zip(p, case['shift'], e))


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on_seg(p, a, b):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def s_pt(n=6, d=2):
    S = fe.st()
    return S.lists(S.integers(-n, n), min_size=d, max_size=d)


def s_frame(draw, S, d=2):
    return {'scale': draw(S.sampled_from(SCALES)), 'shift': draw(S.lists(S.sampled_from(SHIFTS), min_size=d, max_size=d)), 'noise': draw(S.sampled_from([0, 0, 1e-15, 1e-12])), 'seed': draw(S.integers(0, 10 ** 6))}


# ------------------------------------------------------------------------------------------------ segments in the plane
def s_segments():
    S = fe.st()

    @S.composite
    def mk(draw):
        a = draw(s_pt(3))
        v = draw(S.sampled_from([[1, 0], [0, 1], [1, 1], [1, -1], [2, 1], [-1, 3]]))
        n = draw(S.integers(1, 6))
        cuts = sorted(draw(S.sets(S.integers(1, n - 1), max_size=3))) if n > 1 else []
        c = s_frame(draw, S)
        c.update(a=a, v=v, n=n, cuts=cuts, drop=draw(S.lists(S.integers(0, 3), max_size=1)), stretch=draw(S.sampled_from([0, 0, 0, 1, 2])),
                 extra=draw(S.lists(S.tuples(s_pt(4), s_pt(4)).map(list), max_size=3)), points=draw(S.lists(s_pt(5), min_size=1, max_size=5)),
                 other=draw(S.lists(S.integers(-4, 8), min_size=2, max_size=2, unique=True)), offset=draw(S.sampled_from([0, 0, 0, 1])))
        return c
    return mk()


def prop_segments(case):
    boot.phyem()
    from phyem.tools.miscellaneous.geometries import m2n2 as G
    r = np.random.default_rng(case['seed'])
    a, v, n = case['a'], case['v'], case['n']
    at = lambda k: (a[0] + k * v[0], a[1] + k * v[1])  # noqa

    def seg(p, q):
        if r.integers(0, 2):
            p, q = q, p
        P, Q = place(case, p), place(case, q)
        return G.StraightSegment2(G.Point2(*P), G.Point2(*Q)) if r.integers(0, 2) else G.StraightSegment2(P, Q)

    def line(p, q):
        return G.StraightLine2(G.Point2(*place(case, p)), G.Point2(*place(case, q)))
    p0, p1 = at(0), at(n)
    s = seg(p0, p1)
    # points
    pts = case['points'] + [at(k) for k in range(-1, n + 2)]
    for p in pts:
        P = place(case, p)
        want = on_seg(p, p0, p1)
        got = G.whether_point_on_straight_segment(G.Point2(*P) if r.integers(0, 2) else P, s)
        require(got == want, f'point {P} on segment {s}: {got}', key='point on segment')
        got = G.whether_point_on_straight_line(G.Point2(*P), line(p0, p1))
        require(got == (cross(p0, p1, p) == 0), f'point {P} on the line of {s}: {got}', key='point on line')
        for q in pts[:3]:
            require((G.Point2(*P) == G.Point2(*place(case, q))) == (tuple(p) == tuple(q)), f'equality of points {P} and {place(case, q)}', key='points equal')
    # another segment of the same line (or a parallel one)
    i, j = sorted(case['other'])
    w = (0, case['offset']) if v[0] else (case['offset'], 0)
    o0, o1 = (at(i)[0] + w[0], at(i)[1] + w[1]), (at(j)[0] + w[0], at(j)[1] + w[1])
    o = seg(o0, o1)
    same = case['offset'] == 0
    require(G.whether_two_lines_or_segments_parallel(s, o) and G.whether_two_lines_or_segments_parallel(line(o0, o1), s), 'parallel segments', key='parallel')
    inside = same and 0 <= i and j <= n
    require(s.whether_contain__input__as_a_part_of_same_type(o) == inside, f'{s} contains {o}: not {inside}', key='contains')
    require((s == o) == (same and (i, j) == (0, n)), f'{s} == {o}', key='segments equal')
    if inside:
        require(s.___possible_subset_group_key___() == o.___possible_subset_group_key___(), f'a part of a segment has another group key: {s.___possible_subset_group_key___()}, '
                                                                                          f'{o.___possible_subset_group_key___()}', key='group key')
    X = G.find_intersection_of_two_parallel_straight_segments(s, o)
    lo, hi = max(i, 0), min(j, n)
    if not same or lo > hi:
        require(X is None, f'intersection of {s} and {o}: {X}', key='intersection')
    elif lo == hi:
        require(isinstance(X, G.Point2) and X == G.Point2(*place(case, at(lo))), f'intersection of {s} and {o}: {X}', key='intersection')
    else:
        require(isinstance(X, G.StraightSegment2) and X == seg(at(lo), at(hi)), f'intersection of {s} and {o}: {X}', key='intersection')
    # a union of parts
    ends = [0] + case['cuts'] + [n]
    parts = [[x, y] for x, y in zip(ends, ends[1:])]
    complete = True
    for k in case['drop']:
        if k < len(parts):
            parts.pop(k)
            complete = False
    if case['stretch'] and parts and parts[-1][1] == n:
        parts[-1][1] += case['stretch']
        complete = False
    geo = [seg(at(x), at(y)) for x, y in parts]
    for p, q in case['extra']:
        if (q[0] - p[0]) * v[1] - (q[1] - p[1]) * v[0] != 0:
            geo.append(seg(p, q))
            require(not G.whether_two_lines_or_segments_parallel(s, geo[-1]), f'{s} and {geo[-1]} are not parallel', key='parallel')
            try:
                G.find_intersection_of_two_parallel_straight_segments(s, geo[-1])
                require(False, 'intersection of segments that are not parallel', key='parallel')
            except G.NotParallel2dLinesError:
                pass
            # the point of intersection of the lines
            d = [p1[0] - p0[0], p1[1] - p0[1]]
            e = [q[0] - p[0], q[1] - p[1]]
            t = Fraction((p[0] - p0[0]) * e[1] - (p[1] - p0[1]) * e[0], d[0] * e[1] - d[1] * e[0])
            want = place(case, (p0[0] + float(t * d[0]), p0[1] + float(t * d[1])))
            got = G.line2_line2_intersection(line(p0, p1), line(p, q))
            close(np.array(got.coo), np.array(want), 'intersection of lines', 1e-9, 1e-9, key='line intersection')
    order = list(r.permutation(len(geo)))
    got = s.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type([geo[x] for x in order])
    require(got == complete, f'{s} is{"" if complete else " not"} the union of {geo}', key='union')
    if same:
        try:
            G.line2_line2_intersection(line(p0, p1), line(o0, o1))
            require(False, 'intersection of parallel lines', key='parallel')
        except G.Parallel2dLinesError:
            pass
    close(G.distance2(s.A, s.B), case['scale'] * n * math.hypot(*v), 'distance', 1e-10)
    pool = [G.Point2(*place(case, p)) for p in sorted({tuple(p) for p in case['points']})]
    q = G.Point2(*place(case, case['points'][0]))
    require(q.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(pool) and q.whether_contain__input__as_a_part_of_same_type(q), 'a point among points')
    require(not G.Point2(*place(case, (99, 0))).is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(pool), 'a point among other points')
    return {'nontrivial': len(geo) > 0, 'labels': ['union' if complete else 'no union', 'inside' if inside else 'not inside', f'v={v}']}


# ------------------------------------------------------------------------------------------------ polygons
def hull(pts):
    """Counterclockwise convex hull, without collinear vertices."""
    P = sorted(set(map(tuple, pts)))

    def half(P):
        out = []
        for p in P:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    lo, up = half(P), half(P[::-1])
    return lo[:-1] + up[:-1]


def area2(P):
    return sum(P[i - 1][0] * P[i][1] - P[i][0] * P[i - 1][1] for i in range(len(P)))


def where(p, P):
    """1 inside, 0 on the boundary, -1 outside (any simple polygon)."""
    n = len(P)
    if any(on_seg(p, P[i - 1], P[i]) for i in range(n)):
        return 0
    inside = False
    for i in range(n):
        a, b = P[i - 1], P[i]
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + Fraction((p[1] - a[1]) * (b[0] - a[0]), b[1] - a[1])
            if p[0] < x:
                inside = not inside
    return 1 if inside else -1


def clip(P, a, b):
    """Part of the convex polygon left of the line a-b (fractions)."""
    out = []
    for i in range(len(P)):
        p, q = P[i - 1], P[i]
        cp, cq = cross(a, b, p), cross(a, b, q)
        if cp * cq < 0:
            t = Fraction(cp) / (cp - cq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        if cq >= 0:
            out.append(q)
    return out


def meet(P, Q):
    for i in range(len(Q)):
        P = clip(P, Q[i - 1], Q[i])
        if not P:
            return []
    return P


def s_polygons():
    S = fe.st()

    @S.composite
    def mk(draw):
        c = s_frame(draw, S)
        c['noise'] = 0     # (slivers of noise are polygons of their own)
        c.update(A=draw(S.lists(s_pt(6), min_size=3, max_size=6)), B=draw(S.lists(s_pt(6), min_size=3, max_size=5)), near=draw(S.integers(0, 3)),
                 points=draw(S.lists(s_pt(7), min_size=3, max_size=8)), cuts=draw(S.lists(S.tuples(s_pt(6), s_pt(6)).map(list), max_size=2)),
                 drop=draw(S.sampled_from([None, None, 0, 1])), ell=draw(S.lists(S.integers(1, 3), min_size=4, max_size=4)))
        return c
    return mk()


def prop_polygons(case):
    boot.phyem()
    from phyem.tools.miscellaneous.geometries import m2n2 as G
    r = np.random.default_rng(case['seed'])
    sc = case['scale']

    def poly(P):
        k = int(r.integers(0, len(P)))
        Q = list(P[k:]) + list(P[:k])
        if r.integers(0, 2):
            Q = Q[::-1]
        return G.Polygon2(*[G.Point2(*place(case, [float(x) for x in p])) for p in Q])
    A = hull(case['A'])
    if len(A) < 3 or area2(A) == 0:
        return {'nontrivial': False, 'excluded': True}
    a = poly(A)
    # an L-shape for points in general polygons
    w = case['ell']
    L = [(0, 0), (w[0] + w[1], 0), (w[0] + w[1], w[2]), (w[0], w[2]), (w[0], w[2] + w[3]), (0, w[2] + w[3])]
    for P, g in ((A, a), (L, poly(L))):
        require(len(g) == len(P) and len(list(g)) == len(P), 'number of vertices')
        close(g.area, sc ** 2 * abs(area2(P)) / 2, 'area', 1e-12)
        for p in case['points'] + list(P) + [(P[0][0] + P[1][0], P[0][1] + P[1][1])]:
            want = where(p, P) >= 0
            x = place(case, p)
            got = G.whether_point_in_polygon([x, G.Point2(*x), np.array(x)][r.integers(0, 3)], g)
            require(bool(got) == want, f'point {x} in polygon {P}: {got}', key='point in polygon')
        E = [g.edges(i) for i in range(len(g))]
        require(all(E[i] == G.StraightSegment2(g[i], g[(i + 1) % len(g)]) for i in range(len(g))), 'edges', key='edges')
    # another polygon
    B = hull(case['B'])
    labels = []
    if len(B) >= 3 and area2(B) > 0:
        b = poly(B)
        inside = all(where(p, A) >= 0 for p in B)
        got = a.whether_contain__input__as_a_part_of_same_type(b)
        require(got == inside, f'{A} contains {B}: {got}', key='contains')
        X = meet(A, B)
        ar = abs(area2(X)) if X else 0
        if ar > 0:
            got = a.intersection(b)
            require(isinstance(got, G.Polygon2), f'the intersection of {A} and {B} is {got}', key='intersection')
            close(got.area, sc ** 2 * float(ar) / 2, 'area of the intersection', 1e-9, 1e-12, key='intersection')
            got = a.union(b)
            require(isinstance(got, G.Polygon2), f'the union of {A} and {B} is {got}', key='union of two')
            close(got.area, sc ** 2 * float(abs(area2(A)) + abs(area2(B)) - ar) / 2, 'area of the union', 1e-9, 1e-12, key='union of two')
            labels.append('overlap')
        if inside:
            labels.append('inside')
    # unions of parts
    parts = [A]
    for p, q in case['cuts']:
        new = []
        for P in parts:
            if p == q:
                new.append(P)
                continue
            for s, t in ((p, q), (q, p)):
                X = clip(P, s, t)
                X = [x for i, x in enumerate(X) if x != X[i - 1]]
                if len(X) > 2 and abs(area2(X)) > 0:
                    new.append(X)
        parts = new
    short = min(abs(area2(P)) for P in parts) < Fraction(1, 50) or any(math.hypot(float(P[i][0] - P[i - 1][0]), float(P[i][1] - P[i - 1][1])) < .05 for P in parts for i in range(len(P)))
    if not short:
        complete = True
        if case['drop'] is not None and case['drop'] < len(parts):
            parts.pop(case['drop'])
            complete = False
        # (parts outside, touching or not, do not matter)
        top = max(x[1] for x in A)
        parts = parts + [[(-20, top), (20, top), (20, top + 3), (-20, top + 3)]] * int(r.integers(0, 2))
        g = [poly(parts[i]) for i in r.permutation(len(parts))]
        touching = sum(1 for x in A if x[1] == top) > 0
        areas = [float(abs(area2(X))) if X else 0. for X in (meet(A, P if area2(P) > 0 else P[::-1]) for P in parts)]
        real = sorted(a.shapely_Polygon.intersection(x.shapely_Polygon).area / sc ** 2 * 2 for x in g)
        if np.max(np.abs(np.array(real) - sorted(areas)), initial=0.) > 1e-6:      # an overlay that the geometry library (GEOS) gets wrong
            return {'nontrivial': False, 'excluded': True}
        got = a.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(g)
        require(bool(got) == complete, f'{A} is{"" if complete else " not"} the union of {parts}', key='union')
        labels.append('union' if complete else 'no union')
    return {'nontrivial': True, 'labels': labels}


# ------------------------------------------------------------------------------------------------ boxes in space
def s_boxes():
    S = fe.st()

    @S.composite
    def mk(draw):
        c = s_frame(draw, S, 3)
        c.update(d=draw(S.integers(0, 3)), axis=draw(S.integers(0, 2)), lo=draw(s_pt(2, 3)), size=draw(S.lists(S.integers(1, 4), min_size=3, max_size=3)),
                 cuts=draw(S.lists(S.lists(S.integers(1, 3), max_size=2), min_size=3, max_size=3)), drop=draw(S.sampled_from([None, None, None, 0, 1])),
                 olo=draw(s_pt(2, 3)), osize=draw(S.lists(S.integers(1, 3), min_size=3, max_size=3)), near=draw(S.booleans()), away=draw(S.booleans()),
                 points=draw(S.lists(s_pt(3, 3), min_size=2, max_size=6)))
        return c
    return mk()


def prop_boxes(case):
    boot.phyem()
    from phyem.tools.miscellaneous.geometries import m3n3 as G
    r = np.random.default_rng(case['seed'])
    d, ax, sc = case['d'], case['axis'], case['scale']
    ext = {0: [], 1: [ax], 2: [i for i in range(3) if i != ax], 3: [0, 1, 2]}[d]       # axes of the object
    name = 'xyz'[ax]

    def make(lo, hi):
        lo, hi = list(lo), list(hi)
        for i in ext:
            if r.integers(0, 2):
                lo[i], hi[i] = hi[i], lo[i]
        o, e = place(case, lo), place(case, hi)
        delta = tuple(float(e[i] - o[i]) if i in ext else 0 for i in range(3))
        if d == 0:
            return G.Point3(*o)
        if d == 1:
            return G.OrthogonalSegment3(name, G.Point3(*o), delta[ax])
        if d == 2:
            return G.PerpRectangle(name, o, delta)
        return G.OrthogonalHexahedron(o, delta)
    lo = case['lo']
    hi = [lo[i] + (case['size'][i] if i in ext else 0) for i in range(3)]
    a = make(lo, hi)
    vol = np.prod([sc * (hi[i] - lo[i]) for i in ext]) if ext else None
    for attr, dim in (('length', 1), ('area', 2), ('volume', 3)):
        if dim == d:
            close(getattr(a, attr), vol, attr, 1e-9, key=attr)
    olo = [lo[i] + abs(case['olo'][i]) % 2 for i in range(3)] if case['near'] else case['olo']
    if d < 3 and case['near']:
        olo = [olo[i] if i in ext else lo[i] for i in range(3)]
    ohi = [olo[i] + (case['osize'][i] if i in ext else 0) for i in range(3)]
    b = make(olo, ohi)
    inside = all(lo[i] <= olo[i] and ohi[i] <= hi[i] for i in range(3))
    same = lo == olo and hi == ohi
    got = a.whether_contain__input__as_a_part_of_same_type(b)
    require(got == inside, f'd={d} axis={name}: {lo, hi} contains {olo, ohi}: {got}', key=f'contains {d}')
    require((a == b) == same, f'd={d} axis={name}: {lo, hi} == {olo, ohi}', key=f'equal {d}')
    require(a == make(lo, hi), f'd={d}: equal objects differ', key=f'equal {d}')
    if inside and hasattr(a, '___possible_subset_group_key___'):
        require(a.___possible_subset_group_key___() == b.___possible_subset_group_key___(), f'd={d}: a part has another group key: {a.___possible_subset_group_key___()} '
                                                                                          f'{b.___possible_subset_group_key___()}', key=f'group key {d}')
    # tilings
    ends = [sorted({lo[i], hi[i]} | {lo[i] + x for x in case['cuts'][i] if lo[i] + x < hi[i]}) if i in ext else [lo[i], lo[i]] for i in range(3)]
    cells = [([x[0], y[0], z[0]], [x[1], y[1], z[1]]) for x in zip(ends[0], ends[0][1:]) for y in zip(ends[1], ends[1][1:]) for z in zip(ends[2], ends[2][1:])]
    complete = True
    if case['drop'] is not None and case['drop'] < len(cells):
        cells.pop(case['drop'])
        complete = False
    if case['away']:
        cells.append(([x + 9 for x in lo], [x + 9 for x in hi]))
        if d:
            cells.append(([lo[i] + (hi[i] - lo[i] if i == ext[0] else 0) for i in range(3)], [hi[i] + (hi[i] - lo[i] if i == ext[0] else 0) for i in range(3)]))
    g = [make(*cells[i]) for i in r.permutation(len(cells))]
    if g:
        got = a.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(g)
        require(bool(got) == complete, f'd={d} axis={name}: {lo, hi} is{"" if complete else " not"} the union of {cells}', key=f'union {d}')
    # segments in any direction
    P = [G.Point3(*[float(x) for x in place(case, p)]) for p in case['points']]
    for k, p in enumerate(case['points']):
        q = case['points'][k - 1]
        if p != q:
            s = G.StraightSegment3(P[k], P[k - 1])
            for m, x in enumerate(case['points'] + [[2 * q[i] - p[i] for i in range(3)]]):
                u, v = np.array(q) - p, np.array(x) - p
                want = not np.any(np.cross(u, v)) and 0 <= u @ v <= u @ u
                X = G.Point3(*[float(y) for y in place(case, x)])
                require(G.whether_point_on_straight_segment(X, s) == want, f'point {x} on the segment {p}, {q}', key='point on segment')
            close(s.length, sc * np.linalg.norm(np.array(p) - q), 'length', 1e-10)
            require(s.whether_contain__input__as_a_part_of_same_type(G.StraightSegment3(P[k - 1], P[k])), 'a segment contains itself')
    return {'nontrivial': len(cells) > 1 or inside, 'labels': [f'd={d}', 'union' if complete else 'no union', 'inside' if inside else 'not inside']}


# ------------------------------------------------------------------------------------------------ intervals and curves
def s_curves():
    S = fe.st()
    return S.fixed_dictionaries({'lo': fe.s_num(-3, 2, 2), 'len': fe.s_num(.1, 3, 2), 'kind': S.sampled_from(['open', 'closed']), 'x': S.integers(0, 4), 'y': S.integers(0, 4),
                                 'a': S.sampled_from([1., -1., .5, 3.]), 'ts': S.lists(S.integers(0, 20), min_size=2, max_size=6), 'out': fe.s_num(.01, 2, 2)})


def prop_curves(case):
    boot.phyem()
    from phyem.tools.miscellaneous.geometries import m1n1, m2n2
    lo, hi = case['lo'], round(case['lo'] + case['len'], 2)
    opened = case['kind'] == 'open'
    iv = m1n1.Interval((lo, hi)) if opened else m1n1.Interval([lo, hi])
    for x, want in ((lo, not opened), (hi, not opened), ((lo + hi) / 2, True), (lo - case['out'], False), (hi + case['out'], False)):
        require((x in iv) == want and (np.array(x) in iv) == want, f'{x} in {case["kind"]} interval {lo, hi}', key='interval')
        require((np.array([(lo + hi) / 2, x]) in iv) == want, f'array with {x} in {case["kind"]} interval {lo, hi}', key='interval')
    a = case['a']
    X = [lambda t: a * t, lambda t: a * t + .25, lambda t: a * (t + t ** 3), lambda t: a * np.exp(t), lambda t: a * (2 * t + np.sin(t))][case['x']]
    Y = [lambda t: 0 * t + .5, lambda t: t ** 2, lambda t: np.sin(3 * t), lambda t: 2 * t - 1, lambda t: np.cos(t) * t][case['y']]
    C = m2n2.Curve2(X, Y, (lo, hi) if opened else [lo, hi])
    t = np.array([lo + (hi - lo) * k / 20 for k in case['ts'] if 0 < k < 20])
    for s in t:
        close(C.x_from_t(s), X(s), 'x(t)', 1e-14)
        close(C.y_from_t(s), Y(s), 'y(t)', 1e-14)
        close(float(C.t_from_x(float(X(s)))), s, 't(x)', 1e-5, 1e-5, key='t from x')
        P = (float(X(s)), float(Y(s)))
        if abs(P[1]) > .1:         # (t from x is known up to about 1e-8 and the comparison of y is relative)
            require(bool(m2n2.whether_point_on_curve(P, C)), f'the point {P} of the curve is not on it', key='on curve')
        for q in ((P[0], P[1] + case['out']), (P[0], P[1] - case['out'])):
            require(not m2n2.whether_point_on_curve(q, C), f'the point {q} off the curve is on it', key='off curve')
    for s, i in ((lo, 0), (hi, -1)):
        if abs(float(Y(s))) < .1 and float(Y(s)):
            continue
        P = (float(X(np.linspace(lo, hi, 33))[i]), float(Y(s)))      # (as an array: the last bit may depend on it)
        got = m2n2.whether_point_on_curve(P, C)
        require(bool(got) == (not opened), f'the end {P} of the {case["kind"]} curve: {got}', key='end of curve')
        far = (float(X(s)) + (-1 if (s == lo) == (a > 0) else 1) * case['out'], float(Y(s)))
        require(not m2n2.whether_point_on_curve(far, C), f'the point {far} beyond the end of the curve is on it', key='off curve')
    return {'nontrivial': len(t) > 0, 'labels': [case['kind'], f'x{case["x"]}']}


SUBS = [
    Sub('segments', s_segments, prop_segments, 1500, 15000, 'parts of a segment'),
    Sub('polygons', s_polygons, prop_polygons, 1500, 15000, 'a proper polygon'),
    Sub('boxes', s_boxes, prop_boxes, 1500, 15000, 'several parts, or containment'),
    Sub('curves', s_curves, prop_curves, 600, 6000, 'points on a curve'),
]
