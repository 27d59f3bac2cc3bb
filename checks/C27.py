"""C27: adaptive msehtt: every generation is a correct discretization of its own and cochains follow the mesh.

A session starts from a coarse mesh of straight quadrilaterals, and refines and coarsens it again and again (`renew`). The
oracles: a static mesh configured with the same refinement; the exact reduction of the field the cochains came from.
"""
import contextlib
import io

import numpy as np

from lib import boot, fe
from lib.core import Sub
from lib import core

I, O = 'inner', 'outer'
ASSUMPTIONS = ['The static counterparts (meshes, operators, systems) are themselves checked by C02-C10.',
               'A transfer interpolates: a new dof may differ from that of the exact field by (the error of the old form + the variation of the field '
               'between samples) times the size of the geometric object, and by nothing when the field is constant.']


def require(cond, what, **info):
    if not cond:
        core.require(False, what + ('' if not info else '; ' + ', '.join(f'{k}: {v}' for k, v in info.items())))


class Adaptive(fe.Disc):
    """An adaptive session; `view` shows its current generation as a static discretization."""

    def __init__(self, spec, keys, make_abstract=None):
        ph = boot.phyem()
        self.spec, self.lib, self.dim = spec, 'msehtt', 2
        ph.config.set_embedding_space_dim(2)
        self.abstract_manifold = man = ph.manifold(2)
        self.abstract_mesh = mesh = ph.mesh(man)
        ph.space.set_mesh(mesh)
        self.abs_forms = {}
        for k, o in keys:
            sp = ph.space.new('Lambda', k, orientation=o)
            self.abs_forms[(k, o)] = sp.make_form(f'f{k}{o}', f'lin-f{k}{o}')
        extra = {} if make_abstract is None else make_abstract(self)
        ph.space.finite(spec['degree'])
        self.impl, self.objs = ph.fem.apply('msehtt-a', dict(man=man, mesh=mesh, **extra))
        self.tgm0 = self.impl.tgm()
        m = dict(spec['mesh'])
        t, lay = m.pop('type'), m.pop('layout')
        self.impl.config(self.tgm0)(t, element_layout=lay, **m)
        self.impl.config(self.objs['mesh'])(self.tgm0, including='all')
        self.top = {key: self.impl.base['forms'][f'lin-f{key[0]}{key[1]}'] for key in keys}

    def view(self):
        self.mesh = self.objs['mesh'].current
        self.tgm = self.mesh.tgm
        self.forms = {k: f.current for k, f in self.top.items()}
        return self

    def snap(self, keys=None):
        """The cochains of the current generation."""
        self.view()
        return {k: {t: self.get_cochain(k, t) for t in list(self.forms[k].cochain.times)} for k in (keys or self.top)}


def static(spec, keys, trf, ts, make_abstract=None, sections=None):
    m = dict(spec['mesh'])
    t, lay = m.pop('type'), m.pop('layout')
    trf = dict(trf) if isinstance(trf, dict) else trf
    if isinstance(trf, dict):
        trf.setdefault('rcm', 'middle')       # (the default of a renewed mesh)
    s = dict(spec, lib='msehtt', dim=2)
    return fe.Disc(s, keys=keys, make_abstract=make_abstract,
                   great=lambda D: D.impl.config(D.tgm)(t, element_layout=lay, trf=trf, ts=ts, **m))


class Indicator:
    """A refinement indicator (it has to be one that can be pickled)."""

    def __init__(self, f):
        self.f = f

    def __call__(self, x, y):
        a, b, c, kind = self.f
        if kind == 'lin':
            return a + b * x + c * y
        if kind == 'peak':
            return 1. / (1. + 8. * ((x - b) ** 2 + (y - c) ** 2))
        return np.sin(3 * a + 4 * b * x + 4 * c * y)


def rff_of(op):
    return Indicator(tuple(op['f']))


def trf_of(op):
    if 'f' not in op:
        return op['trf']
    out = {'rff': rff_of(op), 'rft': list(op['rft'])}
    if op['rcm']:
        out['rcm'] = op['rcm']
    return out


# --------------------------------------------------------------------------------------------- comparisons
def bijection(ga, gb, els, what):
    (a, na), (b, nb) = ga, gb
    require(na == nb, f'{what}: number of dofs', adaptive=na, static=nb)
    to, back = {}, {}
    for e in els:
        require(len(a[e]) == len(b[e]), f'{what}: local dofs of {e}')
        for i, j in zip(a[e], b[e]):
            require(to.setdefault(int(i), int(j)) == j and back.setdefault(int(j), int(i)) == i, f'{what}: the numbering identifies the same dofs', element=str(e))
    return np.array([to[i] for i in range(na)])


def near(a, b, what, tol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, f'{what}: shape', adaptive=a.shape, static=b.shape)
    s = max(1e-12, float(np.max(np.abs(b), initial=0)))
    d = float(np.max(np.abs(a - b), initial=0))
    require(d <= tol * s, f'{what}: deviation {d:.3e} of size {s:.3e}', deviation=d)


def conforming(D, what):
    """The elements tile the domain without hanging nodes."""
    from scipy.spatial import cKDTree
    area, rings = 0., []
    for e in D.elements:
        n = D.element(e)
        c = np.array(D.map(e, np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.]))).T
        pts = [c[0], c[1], c[2], c[3]]
        ring = []
        for p in pts:
            if not any(np.allclose(p, q, atol=1e-11) for q in ring):
                ring.append(p)
        x = np.array(ring)
        area += abs(np.sum(x[:, 0] * np.roll(x[:, 1], -1) - np.roll(x[:, 0], -1) * x[:, 1])) / 2
        rings.append((e, ring))
    P = np.array([p for _, ring in rings for p in ring])
    near_ = cKDTree(P).query_ball_point(P, 1e-8)
    name = [min(x) for x in near_]
    edges, i = {}, 0
    for e, ring in rings:
        ids = name[i:i + len(ring)]
        i += len(ring)
        for a, b in zip(ids, ids[1:] + ids[:1]):
            edges.setdefault((min(a, b), max(a, b)), []).append(e)
    m = D.spec['mesh']
    c = corners(m)
    want = abs(np.sum(c[:, 0] * np.roll(c[:, 1], -1) - np.roll(c[:, 0], -1) * c[:, 1])) / 2
    require(abs(area - want) <= 1e-9 * want, f'{what}: the elements fill the domain', area=area, domain=want)
    for (i, j), es in edges.items():
        p, q = [float(x) for x in P[i]], [float(x) for x in P[j]]
        require(len(es) <= 2, f'{what}: an edge of {len(es)} elements', edge=[p, q])
        if len(es) == 1:
            on = False
            for a, b in zip(c, np.roll(c, -1, axis=0)):
                n = np.array([-(b - a)[1], (b - a)[0]]) / np.linalg.norm(b - a)
                on = on or (abs(n @ (np.array(p) - a)) < 1e-7 and abs(n @ (np.array(q) - a)) < 1e-7)
            require(on, f'{what}: the edge of one element only is on the boundary of the domain (no hanging nodes)', edge=[p, q], element=str(es[0]))


def corners(m):
    if m['type'] == 'quad':
        return np.array([m[x] for x in 'ABCD'], dtype=float)
    x, y = m.get('initial_position', (0, 0))
    a, b = m.get('dimensions', (1, 1))
    return np.array([(x, y), (x + a, y), (x + a, y + b), (x, y + b)], dtype=float)


def base_of(e):
    e = str(e)
    return int(e[1:].split(',')[0] if e[0] == '(' else e.split(':')[0])


def first_level(D, B, op, what):
    """A quadrilateral of the coarse mesh is refined if and only if the indicator reaches the (first) threshold in it."""
    leaves = {}
    for e in D.elements:
        leaves.setdefault(base_of(e), []).append(str(e))
    for e in B:
        tri = any(x[0] == '(' for x in leaves[e])
        require(tri == all(x[0] == '(' for x in leaves[e]), f'{what}: a coarse element is refined or not', element=e)
        if 'f' not in op:
            require(tri == (op['trf'] > 0), f'{what}: uniform refinement', element=e)
            continue
        f = rff_of(op)
        g = np.meshgrid([-1., 0., 1.], [-1., 0., 1.], indexing='ij')
        v = f(B[e](*g)[0], B[e](*g)[1])
        val = v[1, 1] if op['rcm'] == 'center' else np.max(v)
        if abs(val - op['rft'][0]) > 1e-9:
            require(tri == (val >= op['rft'][0]), f'{what}: element {e} is refined if and only if the indicator reaches the threshold', value=float(val), threshold=op['rft'][0])


# ----------------------------------------------------------------------------------------------- transfers
def spans(D, key, e):
    """The size of the geometric object of every local dof of an element."""
    out = []
    N = D.nodes()
    for comp, cell in D.dof_boxes(key, D.etype(e)):
        if key[0] == 0:
            out.append(1.)
            continue
        ax = [np.linspace(N[i][c[1]], N[i][c[1] + 1], 9) if c[0] == 'e' else np.array([N[i][c[1]]]) for i, c in enumerate(cell)]
        P = np.array(D.map(e, *np.meshgrid(*ax, indexing='ij')))
        if key[0] == 1:
            P = P.reshape(2, -1)
            out.append(float(np.sum(np.linalg.norm(np.diff(P, axis=1), axis=0))))
        else:
            x, y = P
            a, b = np.array([x[1:, 1:] - x[:-1, :-1], y[1:, 1:] - y[:-1, :-1]]), np.array([x[:-1, 1:] - x[1:, :-1], y[:-1, 1:] - y[1:, :-1]])
            out.append(float(np.sum(np.abs(a[0] * b[1] - a[1] * b[0])) / 2))
    return np.array(out)


GRID = np.sort(np.concatenate([np.linspace(-.999, .999, 13), np.array([-.97, .97])]))
SAMPLES = {1: 61, 2: 34, 3: 104}


def deviation(D, key, t, F):
    """The largest error of the form (sampled)."""
    out = 0.
    for e, (x, v) in D.recon(key, t, GRID, GRID).items():
        for i, w in enumerate(v):
            d = np.abs(w - F.ev(i, t, *x))
            out = max(out, float(np.max(d[np.isfinite(d)], initial=0)))
    return out


def slope(F, t, box):
    """A bound of the variation of a field per length."""
    g = np.meshgrid(*[np.linspace(a, b, 21) for a, b in box], indexing='ij')
    h, out = 1e-4, 0.
    for i in range(len(F.comps)):
        d = [(F.ev(i, t, *(x + h * (j == a) for j, x in enumerate(g))) - F.ev(i, t, *(x - h * (j == a) for j, x in enumerate(g)))) / (2 * h) for a in range(2)]
        out = max(out, float(np.max(np.sqrt(d[0] ** 2 + d[1] ** 2))))
    return out * 1.3


def diameter(D, els):
    g = np.meshgrid([-1., 1.], [-1., 1.], indexing='ij')
    out = 0.
    for e in els:
        P = np.array(D.map(e, *g)).reshape(2, -1)
        out = max(out, float(np.max(np.linalg.norm(P[:, :, None] - P[:, None, :], axis=0))))
    return out


def bounds(gm, vecs):
    lo, hi = {}, {}
    for e, g in gm.items():
        for i, v in zip(g, vecs[e]):
            lo[i] = min(lo.get(i, v), v)
            hi[i] = max(hi.get(i, v), v)
    return lo, hi


# ------------------------------------------------------------------------------------------------- histories
def s_case(maxops=4, restart=False):
    S = fe.st()

    @S.composite
    def op(draw):
        r = draw(S.integers(0, 9))
        out = {'ts': draw(S.sampled_from([1, 1, 1, 1, 2])), 'method': draw(S.sampled_from([3, 3, 3, 1])), 'clean': draw(S.booleans()),
               'forms': draw(S.sampled_from([None, None, None, 0])), 'refresh': draw(S.integers(0, 2)) == 0}
        if r < 3:
            out['trf'] = draw(S.sampled_from([0, 0, 1, 1, 2]))
        else:
            kind = draw(S.sampled_from(['lin', 'peak', 'sin']))
            out['f'] = [draw(fe.s_num(-1, 1, 2)) if kind != 'peak' else 0., draw(fe.s_num(-1, 1.5, 2)), draw(fe.s_num(-1, 1.5, 2)), kind]
            first = draw(fe.s_num(-.5, 1., 2))
            out['rft'] = sorted({first, *[round(first + .1 + x, 3) for x in draw(S.lists(fe.s_num(0, .8, 2), max_size=2))]})
            out['rcm'] = draw(S.sampled_from([None, None, 'middle', 'center']))
        return out

    @S.composite
    def mk(draw):
        if draw(S.integers(0, 3)):
            j = lambda x, y: [round(x + draw(fe.s_num(-.2, .2, 2)), 3), round(y + draw(fe.s_num(-.2, .2, 2)), 3)]  # noqa
            m = {'type': 'quad', 'layout': draw(S.sampled_from([1, 2, 2])), 'A': j(0, 0), 'B': j(1, 0), 'C': j(1, 1), 'D': j(0, 1)}
        else:
            m = {'type': 'rectangle', 'layout': draw(S.sampled_from([1, 2, 2]))}
        pool = [draw(op()) for _ in range(draw(S.integers(1, 3)))]
        seq = [pool[i] for i in draw(S.lists(S.integers(0, len(pool) - 1), min_size=1, max_size=maxops))]
        return {'spec': {'lib': 'msehtt', 'dim': 2, 'mesh': m, 'degree': draw(S.integers(1, 3))},
                'keys': draw(S.lists(S.integers(0, 5), min_size=1, max_size=draw(S.sampled_from([1, 1, 2])), unique=True)), 'ts0': draw(S.sampled_from([1, 1, 2])),
                'ops': seq, 't': draw(S.sampled_from([0, .5, 2])), 'times': draw(S.sampled_from([1, 1, 1, 2])), 'constant': draw(S.integers(0, 3)) == 0,
                'scalar': draw(fe.s_field(2, 1)), 'vector': draw(fe.s_field(2, 2))}
    return mk()


def fields_of(case, keys):
    out = {}
    for k in keys:
        comps = case['vector'] if k[0] == 1 else case['scalar']
        if case['constant']:
            comps = [[['p', 1. + .5 * i, 0, 0, 0]] for i in range(len(comps))]
        out[k] = fe.Field(comps, 2)
    return out


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def start(case, keys):
    D = Adaptive(case['spec'], keys)
    B = {int(e): D.tgm0.elements[e].ct.mapping for e in D.tgm0.elements}
    D.impl.initialize(ts=case['ts0'])
    return D.view(), B


def prop_history(case):
    spaces = fe.space_keys(2)
    keys = [spaces[i] for i in case['keys']]
    F = fields_of(case, keys)
    D, B = start(case, keys)
    times = [case['t'] + i for i in range(case['times'])]
    c = corners(case['spec']['mesh'])
    box = list(zip(c.min(0), c.max(0)))
    lip = {k: max(slope(F[k], t, box) for t in times) for k in keys}
    size = {k: max(float(np.max(np.abs(F[k].ev(i, t, *np.meshgrid(*[np.linspace(a, b, 9) for a, b in box])))))
                   for t in times for i in range(len(F[k].comps))) for k in keys}

    def refresh():
        for k in keys:
            D.forms[k].cf = F[k].vc(2, k)
            for t in times:
                D.forms[k][t].reduce()
    refresh()
    labels, changed, partly = set(), 0, 0
    for n, op in enumerate(case['ops']):
        if op['refresh']:
            refresh()
        what = f'renewal {n}'
        els, old = list(D.elements), D.snap()
        err = {k: {t: deviation(D, k, t, F[k]) for t in old[k]} for k in keys}
        diam = diameter(D, els)
        maps = {e: np.array(D.map(e, *np.meshgrid([-1., 0., 1.], [-1., .3, 1.], indexing='ij'))) for e in els}
        olds = dict(D.forms)
        some = None if op['forms'] is None else [D.top[keys[0]]]
        gen = D.top[keys[0]].ith_generation
        trf = trf_of(op)
        try:
            info = quiet(D.impl.renew, trf, ts=op['ts'], use_method=op['method'], clean=op['clean'], forms=some)
        except NameError as e:
            raise core.Violation(f'{what}: transfer method {op["method"]}: NameError: {e}', f'method {op["method"]}: {e}')
        D.view()
        require(all(D.top[k].ith_generation == gen + 1 for k in keys), f'{what}: one more generation')
        new = D.snap()
        conforming(D, what)
        first_level(D, B, op, what)
        same = sorted(map(str, els)) == sorted(map(str, D.elements))
        labels.add(f"method {op['method']}")
        labels.add('same mesh' if same else ('coarser' if len(D.elements) < len(els) else 'finer'))
        done = [k for k in keys if (some is None or k == keys[0]) and old[k]]
        if done:
            require(bool(info['all same']) == same, f'{what}: the flag "all same" says whether the mesh is unchanged', flag=info['all same'], unchanged=same)
        known = set(map(str, els))
        touched = {base_of(e) for e in D.elements if str(e) not in known}
        if touched and len(touched) < len(B):
            partly += 1
        g = np.meshgrid([-1., 0., 1.], [-1., .3, 1.], indexing='ij')
        for e in D.elements:
            if e in maps:
                require(np.allclose(np.array(D.map(e, *g)), maps[e], rtol=0, atol=1e-12), f'{what}: element {e} keeps its geometry')
        for k in keys:
            w = f'{what}, method {op["method"]}: {k[0]}-form ({k[1]})'
            require(D.forms[k].cf._field is not None, f'{w}: the continuous form is carried over')
            if k not in done:
                require(not new[k], f'{w}: only the selected forms are transferred', times=list(new[k]))
                continue
            require(sorted(new[k]) == sorted(old[k]), f'{w}: all cochains are transferred', old=list(old[k]), new=list(new[k]))
            left = list(olds[k].cochain.times)
            require((left == []) if op['clean'] else (sorted(left) == sorted(old[k])), f'{w}: the old cochains are {"dropped" if op["clean"] else "kept"}', left=left)
            span = {e: spans(D, k, e) for e in D.elements}
            for t in old[k]:
                a, b = old[k][t], new[k][t]
                for e in D.elements:
                    require(np.all(np.isfinite(b[e])), f'{w}: finite cochain of {e}', time=t)
                if same and op['method'] != 1:
                    for e in D.elements:
                        require(np.array_equal(a[e], b[e]), f'{w}: an unchanged mesh keeps the cochain', element=str(e))
                    continue
                changed += not same
                exact = exact_dofs(D, k, F[k], t)
                r = (3.5 if op['method'] == 2 else 2.2) * diam / SAMPLES[op['method']]
                tol = 1.5 * err[k][t] + lip[k] * r + 1e-9 * (1 + size[k])
                for e in D.elements:
                    d = np.abs(b[e] - exact[e])
                    lim = tol * span[e] * (1.45 if k[0] == 1 else 1.) + 1e-12
                    bad = d > lim
                    require(not np.any(bad), f'{w}: the cochain of {e} follows the field', time=t, dof=int(np.argmax(d - lim)), deviation=float(d[np.argmax(d - lim)]),
                            bound=float(lim[np.argmax(d - lim)]), error_of_the_old_form=err[k][t])
                # an element of an untouched coarse element keeps its cochain
                keep = [e for e in D.elements if base_of(e) not in touched]
                if op['method'] in (2, 3) and keep:
                    gm = D.gm(k)[0]
                    local = {}
                    for e in D.elements:
                        for i in gm[e]:
                            local.setdefault(int(i), []).append(e)
                    lo, hi = bounds({e: gm[e] for e in keep}, a)
                    for e in keep:
                        inner = np.array([all(base_of(x) not in touched for x in local[int(i)]) for i in gm[e]])
                        want = a[e]
                        if op['method'] == 2:
                            inner[:] = True
                            d = np.abs(b[e] - want)
                        else:       # a dof the old cochain gave two values (method 1) takes one of them
                            d = np.maximum(np.array([lo[i] for i in gm[e]]) - b[e], b[e] - np.array([hi[i] for i in gm[e]]))
                        d = d[inner]
                        require(np.max(d, initial=0) <= 1e-13 * (1 + float(np.max(np.abs(want)))), f'{w}: the elements away from the change keep their cochains',
                                element=str(e), time=t, deviation=float(np.max(d, initial=0)))
                if op['method'] == 3:      # shared dofs agree
                    gm = D.gm(k)[0]
                    seen = {}
                    for e in D.elements:
                        for i, v in zip(gm[e], b[e]):
                            require(abs(seen.setdefault(int(i), v) - v) <= 1e-13 * (1 + abs(v)), f'{w}: shared dofs have one value', element=str(e))
        for k in keys:
            if k not in done:
                D.forms[k].cf = F[k].vc(2, k)
                for t in times:
                    D.forms[k][t].reduce()
    return {'nontrivial': changed > 0 and len(case['ops']) > 1, 'labels': sorted(labels) + (['partial change'] if partly else [])}


def exact_dofs(D, key, F, t):
    """The dofs of the field, through the reduction of a fresh copy of the form (checked by C03)."""
    f = D.forms[key]
    keep = D.get_cochain(key, t)
    f.cf = F.vc(2, key)
    f[t].reduce()
    out = D.get_cochain(key, t)
    D.set_cochain(key, t, keep)
    return out


def prop_generations(case):
    spaces = fe.space_keys(2)
    keys = [spaces[i] for i in case['keys']]
    F = fields_of(case, keys)
    D, B = start(case, keys)
    data = []
    ops = [{'trf': 0, 'ts': case['ts0']}] + case['ops']
    labels = set()
    for n, op in enumerate(ops):
        if n:
            quiet(D.impl.renew, trf_of(op), ts=op['ts'], use_method=3, clean=False, forms=None)
            D.view()
        what = f'generation {n}'
        conforming(D, what)
        first_level(D, B, op, what)
        labels.add('uniform' if 'f' not in op else f"{len(op['rft'])} levels")
        data.append(snapshot(D, keys, F, case['t']))
    for n, op in enumerate(ops):
        S = static(case['spec'], keys, trf_of(op), op['ts'])
        compare(data[n], snapshot(S, keys, F, case['t']), keys, f'generation {n}')
    return {'nontrivial': len(ops) > 1 and any('f' in op or op['trf'] for op in ops), 'labels': sorted(labels)}


def snapshot(D, keys, F, t):
    g = np.meshgrid(np.array([-1., -.4, .3, 1.]), np.array([-1., .2, 1.]), indexing='ij')
    out = {'elements': list(D.elements), 'map': {e: np.array(D.map(e, *g)) for e in D.elements}}
    x = np.array([-.6, .1, .8])
    for k in keys:
        D.set_cf(k, F[k])
        D.forms[k][t].reduce()
        out[k] = {'gm': D.gm(k), 'c': D.get_cochain(k, t), 'M': {e: D.M(k, e) for e in D.elements},
                  'E': {e: D.E(k, e) for e in D.elements} if k[0] < 2 else None, 'err': float(D.forms[k][t].error()),
                  'recon': {e: np.array(v) for e, (_, v) in D.recon(k, t, x, x).items()}}
    return out


def compare(a, b, keys, what):
    require(sorted(map(str, a['elements'])) == sorted(map(str, b['elements'])), f'{what}: the elements are those of the static mesh',
            adaptive=len(a['elements']), static=len(b['elements']))
    for e in a['elements']:
        near(a['map'][e], b['map'][e], f'{what}: the mapping of {e}', 1e-12)
    for k in keys:
        w = f'{what}: {k[0]}-form ({k[1]})'
        x, y = a[k], b[k]
        bijection(x['gm'], y['gm'], a['elements'], w)
        for e in a['elements']:
            near(x['c'][e], y['c'][e], f'{w}: the reduction in {e}')
            near(x['M'][e], y['M'][e], f'{w}: the mass matrix of {e}')
            near(x['recon'][e], y['recon'][e], f'{w}: the reconstruction in {e}')
            if x['E'] is not None:
                near(x['E'][e], y['E'][e], f'{w}: the incidence matrix of {e}')
        require(abs(x['err'] - y['err']) <= 1e-9 * max(1., y['err']), f'{w}: the error', adaptive=x['err'], static=y['err'])


def prop_restart(case):
    """Data saved in one generation are restored in a later one."""
    spaces = fe.space_keys(2)
    keys = [spaces[i] for i in case['keys']]
    F = fields_of(case, keys)
    D, B = start(case, keys)
    saved = []
    for n, op in enumerate([None] + case['ops']):
        if op is not None:
            quiet(D.impl.renew, trf_of(op), ts=op['ts'], use_method=3, clean=False, forms=None)
            D.view()
        for k in keys:
            D.forms[k].cf = F[k].vc(2, k)
            D.forms[k][case['t'] + n].reduce()
        if n == 0:
            continue       # (the first generation belongs to no renewal)
        saved.append((list(D.elements), D.snap(), {k: D.top[k]._make_cache_data() for k in keys}, snapshot(D, keys, F, case['t'] + n), case['t'] + n))
    for i in case['back']:
        els, cochains, data, snap, t = saved[i % len(saved)]
        for k in keys:
            quiet(D.top[k]._read_cache_data, data[k])
        D.view()
        what = f'restored generation {i % len(saved) + 1}'
        require(sorted(map(str, D.elements)) == sorted(map(str, els)), f'{what}: the elements', restored=len(D.elements), saved=len(els))
        now = D.snap()
        for k in keys:
            require(t in now[k], f'{what}: the newest cochain', saved=list(cochains[k]), restored=list(now[k]))
            for tt in [t]:
                for e in els:
                    require(np.array_equal(now[k][tt][e], cochains[k][tt][e]), f'{what}: the cochain of {k} at {tt} in {e}')
        compare(snapshot(D, keys, F, t), snap, keys, what)
    return {'nontrivial': len(case['ops']) > 1 and len(case['back']) > 1, 'labels': []}


def s_restart():
    S = fe.st()
    return S.tuples(s_case(3), S.lists(S.integers(0, 3), min_size=1, max_size=3)).map(lambda x: dict(x[0], back=x[1]))


# ------------------------------------------------------------------------------------------------- systems
def mixed(spec, o, op):
    """The abstract mixed Poisson problem with natural and essential boundary conditions (as an `make_abstract`)."""
    ph = boot.phyem()
    k0, k1 = (1, 2) if o == O else (1, 0)

    def make(D):
        D.abstract_mesh.boundary_partition(r'\Gamma_a', r'\Gamma_b')
        bm = D.abstract_mesh.boundary()
        spu, spp = D.abs_forms[(k0, o)].space, D.abs_forms[(k1, o)].space
        u, p, s = spu.make_form('u', 'lin-u'), spp.make_form('p', 'lin-p'), spp.make_form('s', 'lin-s')
        dp, du = (p.codifferential(), u.exterior_derivative()) if o == O else (p.exterior_derivative(), u.codifferential())
        expr = ['u - dp = 0', ('du' if op == 0 else 'du + p') + ' = s']
        names = {'u': u, 'dp': dp, 'du': du, 's': s, 'p': p}
        pde = ph.pde(expr, {k: v for k, v in names.items() if any(k in e.split() for e in expr)})
        pde._indi_dict = None
        pde.unknowns = [u, p]
        nat, ess = (p, u) if o == O else (u, p)
        pde.bc.define_bc({r'\Gamma_a': ph.trace(ph.Hodge(nat)), r'\Gamma_b': ph.trace(ess)})
        wf = pde.test_with([spu, spp], sym_repr=['v', 'q']).derive.integration_by_parts('0-1' if o == O else '1-0')
        if o == O:
            arr = {0: '0, 1 = 2', 1: '0 = 1' if op == 0 else '0, 1 = 2'}
        else:
            arr = {0: '0, 1 = ', 1: ', '.join(['0'] + (['2'] if op else [])) + ' = ' + ', '.join(['1', str(2 + (1 if op else 0))])}
        wf = wf.derive.rearrange(arr)
        ph.space.finite(spec['degree'])
        return {'u': u, 'p': p, 's': s, 'ls': wf.mp().ls(), 'boundary_mesh': bm}
    return make


def places(D, case, mesh, tgm):
    ms = {m.abstract.manifold._sym_repr: m for m in D.impl.base['meshes'].values()}
    full = [m for m in D.impl.base['meshes'].values() if m.abstract is D.abstract_mesh.boundary()][0]
    D.impl.config(full)(tgm, including=mesh)
    A, B = ms[r'\Gamma_a'], ms[r'\Gamma_b']
    D.impl.config(A)(tgm, including={'type': 'boundary_section', 'partial elements': mesh, 'ounv': case['ounv'][0] if len(case['ounv']) == 1 else tuple(case['ounv'])})
    D.impl.config(B)(tgm, including={'type': 'boundary_section', 'partial elements': mesh, 'except ounv': case['ounv'][0] if len(case['ounv']) == 1 else tuple(case['ounv'])})
    return A, B, full


def bcs(ls, D, case, A, B):
    base = D.impl.base['forms']
    u, p = base['lin-u'], base['lin-p']
    Fs, Fv = fe.Field(case['scalar'], 2), fe.Field(case['vector'], 2)
    o = case['o']
    kp, ku = (2 if o == O else 0, o), (1, o)
    if o == O:
        ls.config(['natural bc', 1], A, Fs.vc(2, (0, o)), root_form=p)
        ls.config(['essential bc', 1], B, Fv.vc(2, ku), root_form=u)
    else:
        ls.config(['natural bc', 1], A, Fv.vc(2, (1, o)), root_form=u)
        ls.config(['essential bc', 1], B, Fs.vc(2, kp), root_form=p)


def assembled(D, ls, s, case, A, B, full):
    """Assemble and solve; everything as plain data."""
    Fs = fe.Field(case['scalar'], 2)
    o, t = case['o'], case['t']
    s.cf = Fs.vc(2, (2 if o == O else 0, o))
    s[t].reduce()
    L = ls(t)
    als = L.assemble()
    gm = als.A._gm_row
    out = {'gm': ({e: np.array(gm[e]) for e in D.elements}, int(gm.num_global_dofs)), 'A': np.asarray(als.A.gather().todense()), 'b': np.array(als.b.gather())}
    for n, m in (('a', A), ('b', B), ('full', full)):
        out['faces ' + n] = sorted((str(f), ) if not isinstance(f, tuple) else tuple(map(str, f)) for f in m.composition)
    return out


def prop_systems(case):
    case = dict(case, ounv=[tuple(v) for v in case['ounv']])
    o = case['o']
    keys = [(1, o), (2 if o == O else 0, o)]
    spec = case['spec']
    D = Adaptive(spec, keys, mixed(spec, o, case['op']))
    A, B, full = places(D, case, D.objs['mesh'], D.tgm0)
    D.impl.initialize(ts=case['ts0'])
    ls = D.objs['ls']
    data = []
    ops = [{'trf': 0, 'ts': case['ts0']}] + case['ops']
    for n, op in enumerate(ops):
        if n:
            quiet(D.impl.renew, trf_of(op), ts=op['ts'], use_method=3, clean=False, forms=None)
        if n == case['late'] % len(ops):
            bcs(ls, D, case, A, B)       # (configured once, at any time, for all generations from then on)
        D.view()
        if n < case['late'] % len(ops):
            continue
        L = ls.apply()
        require(ls.apply() is L, f'generation {n}: the system of a generation is made once')
        data.append((n, assembled(D, L, D.impl.base['forms']['lin-s'].current, case, A.current, B.current, full.current)))
    for n, a in data:
        op = ops[n]
        S = static(spec, keys, trf_of(op), op['ts'], mixed(spec, o, case['op']))
        A, B, full = places(S, case, S.mesh, S.tgm)
        L = S.objs['ls'].apply()
        bcs(L, S, case, A, B)
        b = assembled(S, L, S.impl.base['forms']['lin-s'], case, A, B, full)
        what = f'generation {n}'
        for x in ('a', 'b', 'full'):
            require(a['faces ' + x] == b['faces ' + x], f'{what}: the faces of the boundary section {x}', adaptive=len(a['faces ' + x]), static=len(b['faces ' + x]))
        to = bijection(a['gm'], b['gm'], list(a['gm'][0]), f'{what}: the system')
        near(a['A'], b['A'][np.ix_(to, to)], f'{what}: the matrix of the system')
        near(a['b'], b['b'][to], f'{what}: the right hand side of the system')
    return {'nontrivial': len(data) > 1, 'labels': [o]}


def s_systems():
    S = fe.st()
    vec = [(0., -1.), (1., 0.), (0., 1.), (-1., 0.)]

    @S.composite
    def mk(draw):
        c = draw(s_case(3))
        c['spec']['mesh'] = {'type': 'rectangle', 'layout': draw(S.sampled_from([1, 2, 2]))}
        c['spec']['degree'] = min(2, c['spec']['degree'])
        return dict(c, o=draw(S.sampled_from([O, I])), op=draw(S.integers(0, 1)), late=draw(S.sampled_from([0, 0, 0, 1, 2])),
                    ounv=[vec[i] for i in draw(S.lists(S.integers(0, 3), min_size=1, max_size=3, unique=True))])
    return mk()


SUBS = [
    Sub('history', lambda: s_case(7), prop_history, 100, 1000, 'more than one renewal, and at least one cochain went to another mesh'),
    Sub('generations', lambda: s_case(3), prop_generations, 100, 1000, 'at least one refined generation'),
    Sub('restart', s_restart, prop_restart, 60, 600, 'several saved generations and several restorations'),
    Sub('systems', s_systems, prop_systems, 60, 600, 'the system of at least two generations'),
    Sub('method_2', lambda: s_case(2).map(lambda c: dict(c, ops=[dict(o, method=2) for o in c['ops']])), prop_history, 8, 40, 'a cochain went to another mesh'),
]
