"""C28: multigrid msehtt: every level is the static discretization of its mesh, and passing data between levels is exact.

A session holds a coarse mesh and its uniform refinements. The oracles: a static session on each of the refined meshes; the nesting of
polynomial spaces (a coarse form is a fine form too; the dofs of a fine form add up to the dofs of the coarse one).
"""
import numpy as np

from checks.C27 import bijection, bcs, compare, deviation, diameter, mixed, near, places, quiet, require, slope, snapshot
from lib import boot, fe
from lib import core
from lib.core import Sub

I, O = 'inner', 'outer'
ASSUMPTIONS = ['The static counterparts (meshes, operators, systems) are themselves checked by C02-C10.',
               'A coarse form is a fine form: each refinement divides the reference square of an element into four squares.']


class MG(fe.Disc):
    """A multigrid session; `view` shows a level as a static discretization."""

    def __init__(self, spec, keys, mgc, degree=None, make_abstract=None):
        ph = boot.phyem()
        self.spec, self.lib, self.dim = spec, 'msehtt', 2
        ph.config.set_embedding_space_dim(2)
        self.abstract_manifold = man = ph.manifold(2)
        self.abstract_mesh = mesh = ph.mesh(man)
        ph.space.set_mesh(mesh)
        self.abs_forms = {}
        for k, o in keys:
            sp = ph.space.new('Lambda', k, orientation=o)
            self.abs_forms[(k, o)] = sp.make_form(f'f{k}{o}', f'lin-f{k}{o}')
        extra = {} if make_abstract is None else make_abstract(self)
        ph.space.finite(spec['degree'] if degree is None else degree)
        self.impl, self.objs = ph.fem.apply('msehtt-smg', dict(man=man, mesh=mesh, **extra))
        self.top_tgm = self.impl.tgm()
        m = dict(spec['mesh'])
        t, lay = m.pop('type'), m.pop('layout')
        self.impl.config(self.top_tgm)(t, element_layout=lay, mgc=mgc, **m)
        self.impl.config(self.objs['mesh'])(self.top_tgm, including='all')
        self.top = {key: self.impl.base['forms'][f'lin-f{key[0]}{key[1]}'] for key in keys}
        self.top_mesh = self.objs['mesh']

    def view(self, level):
        self.mesh = self.top_mesh.get_level(level)
        self.tgm = self.mesh.tgm
        self.forms = {k: f.get_level(level) for k, f in self.top.items()}
        return self


def static(spec, keys, level, make_abstract=None):
    m = dict(spec['mesh'])
    t, lay = m.pop('type'), m.pop('layout')
    if level:
        m.update(ts=level, renumbering=True)
    return fe.Disc(dict(spec, lib='msehtt', dim=2), keys=keys, make_abstract=make_abstract, great=lambda D: D.impl.config(D.tgm)(t, element_layout=lay, **m))


def s_mesh(systems=False):
    S = fe.st()

    @S.composite
    def mk(draw):
        kind = draw(S.sampled_from(['quad', 'quad', 'rectangle', 'crazy', 'periodic', 'step'])) if not systems else draw(S.sampled_from(['rectangle', 'crazy']))
        if kind == 'quad':
            # (no nodes at rounding boundaries: those are in `rounding`)
            j = lambda x, y: [round(x + draw(fe.s_num(-.2, .2, 2)), 3) + 1.2345678912e-4, round(y + draw(fe.s_num(-.2, .2, 2)), 3) + 2.3456789123e-4]  # noqa
            return {'type': 'quad', 'layout': draw(S.sampled_from([1, 2, 2])), 'A': j(0, 0), 'B': j(1, 0), 'C': j(1, 1), 'D': j(0, 1)}
        if kind == 'rectangle':
            return {'type': 'rectangle', 'layout': draw(S.sampled_from([1, 2, 3]))}
        if kind == 'step':
            return {'type': 'backward_step', 'layout': 1}
        if kind == 'periodic':
            return {'type': 'crazy', 'layout': 3, 'c': 0., 'periodic': True}
        a, b = draw(fe.s_num(-1, 0, 1)), draw(fe.s_num(.5, 1.5, 1))
        return {'type': 'crazy', 'layout': draw(S.sampled_from([1, 2, [2, 3], [3, 1]])), 'c': 0., 'bounds': [[a, b], [draw(fe.s_num(-1, 0, 1)), draw(fe.s_num(.5, 1.5, 1))]]}
    return mk()


def s_case(systems=False):
    S = fe.st()

    @S.composite
    def mk(draw):
        c = {'spec': {'lib': 'msehtt', 'dim': 2, 'mesh': draw(s_mesh(systems)), 'degree': draw(S.integers(1, 2 if systems else 3))},
             'levels': draw(S.sampled_from([2, 2, 3])), 't': draw(S.sampled_from([0, .5, 2])),
             'keys': draw(S.lists(S.integers(0, 5), min_size=1, max_size=2, unique=True)),
             'scalar': draw(fe.s_field(2, 1)), 'vector': draw(fe.s_field(2, 2)), 'order': draw(S.permutations([0, 1, 2]))}
        return c
    return mk()


def fields_of(case, keys):
    return {k: fe.Field(case['vector'] if k[0] == 1 else case['scalar'], 2) for k in keys}


def keys_of(case):
    spaces = fe.space_keys(2)
    return [spaces[i] for i in case['keys']]


# --------------------------------------------------------------------------------------------------- levels
def ring(D, e):
    return np.array(D.map(e, np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.])))


def area(P):
    x, y = P
    return abs(float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))) / 2


def inside(P, Q):
    """All points of Q lie in the convex polygon P."""
    s = np.sign(np.sum(P[0] * np.roll(P[1], -1) - np.roll(P[0], -1) * P[1]))
    for i in range(4):
        a, b = P[:, i], P[:, (i + 1) % 4]
        c = (b[0] - a[0]) * (Q[1] - a[1]) - (b[1] - a[1]) * (Q[0] - a[0])
        if np.min(s * c) < -1e-9:
            return False
    return True


def prop_levels(case):
    keys = keys_of(case)
    F = fields_of(case, keys)
    t, n = case['t'], case['levels']
    D = MG(case['spec'], keys, n)
    tgm = D.top_tgm
    require(list(tgm.level_range) == list(range(n)) and tgm.max_level == n - 1, 'the levels', levels=list(tgm.level_range))
    order = [x for x in case['order'] if x < n]
    for k in keys:
        D.top[k].cf = F[k].vc(2, k)
        D.top[k][t].reduce()
    data = {}
    for lv in order:
        D.view(lv)
        for k in keys:
            require(tgm.find_level(D.forms[k]) == lv, 'the level of a form', found=tgm.find_level(D.forms[k]), level=lv)
            require(D.forms[k].cf._field is not None, 'the continuous form is set on every level', level=lv)
        first = {k: D.get_cochain(k, t) for k in keys}
        data[lv] = snapshot(D, keys, F, t)
        for k in keys:
            for e in D.elements:
                near(first[k][e], data[lv][k]['c'][e], f'level {lv}: the reduction on all levels is the reduction of the level, {k}')
    rings = {lv: {e: ring(D.view(lv), e) for e in D.view(lv).elements} for lv in range(n)}
    errs = {k: (float(D.top[k][t].error()), float(D.top[k][t].norm())) for k in keys}
    gms = {(k, lv): D.view(lv).gm(k) for k in keys for lv in range(n)}
    per = case['spec']['mesh'].get('periodic')       # (the field is not)
    got = {} if per else {k: (D.top[k][t].cochain.of_dof(0), D.top[k][t].cochain.of_local_dof(0, 0)) for k in keys}
    hier = quiet(tgm.hierarchy)
    require(sorted(hier) == list(range(n - 1)), 'the hierarchy has all levels but the last', levels=sorted(hier))
    for lv in range(n - 1):
        seen = {}
        require(sorted(map(str, hier[lv])) == sorted(map(str, rings[lv])), f'the hierarchy of level {lv} has the elements of the level')
        for e, (kind, sub) in hier[lv].items():
            require(kind == 'nested' and len(sub) == 4, f'level {lv}: an element is divided into four', element=str(e), kind=kind, parts=len(sub))
            P = rings[lv][e]
            for x in sub:
                require(seen.setdefault(x, e) == e, f'level {lv}: an element of level {lv + 1} has one parent', element=str(x))
                require(inside(P, rings[lv + 1][x]), f'level {lv}: the parts of an element lie in it', element=str(e), part=str(x))
            s = sum(area(rings[lv + 1][x]) for x in sub)
            require(abs(s - area(P)) <= 1e-9 * area(P), f'level {lv}: the parts fill the element', element=str(e))
        require(len(seen) == len(rings[lv + 1]), f'level {lv}: every element of level {lv + 1} has a parent')
    for lv in range(n):
        S = static(case['spec'], keys, lv)
        want = snapshot(S, keys, F, t)
        compare(data[lv], want, keys, f'level {lv}')
        for k in got:
            (gm, _), c = gms[(k, lv)], data[lv][k]['c']
            v = next(c[e][i] for e in gm for i, d in enumerate(gm[e]) if d == 0)
            require(abs(got[k][0][lv] - v) <= 1e-12 * (1 + abs(v)), f'level {lv}: the cochain of a dof', got=got[k][0][lv], want=v)
            if 0 in c:
                require(abs(got[k][1][lv] - c[0][0]) <= 1e-12 * (1 + abs(v)), f'level {lv}: the cochain of a local dof', got=got[k][1][lv], want=c[0][0])
        if lv == n - 1:
            for k in keys:
                require(abs(errs[k][0] - want[k]['err']) <= 1e-9 * max(1., want[k]['err']), 'the error is that of the finest level', multigrid=errs[k][0], static=want[k]['err'])
                nm = float(S.forms[k][t].norm())
                require(abs(errs[k][1] - nm) <= 1e-9 * max(1., nm), 'the norm is that of the finest level', multigrid=errs[k][1], static=nm)
    return {'nontrivial': True, 'labels': [f'{n} levels', case['spec']['mesh']['type']]}


# --------------------------------------------------------------------------------------------------- passing
def s_pass():
    S = fe.st()
    return S.tuples(s_case(), S.lists(S.tuples(S.integers(0, 2), S.integers(0, 2), S.booleans()), min_size=1, max_size=4),
                    S.sampled_from([None, None, 'MG-N3', 'MG-N4', 'MG-N5']), S.integers(0, 10 ** 6), S.sampled_from(['constant', 'linear', 'smooth'])).map(
        lambda x: dict(x[0], hops=[list(h) for h in x[1]], mg=x[2], seed=x[3], field=x[4]))


def prop_pass(case):
    """Cochains go from level to level."""
    k = keys_of(case)[0]
    n = case['levels']
    spec = case['spec']
    if case['mg']:
        spec = dict(spec, degree=int(case['mg'][-1]))
    D = MG(spec, [k], n, case['mg'])
    tgm, labels = D.top_tgm, set()
    rng = np.random.default_rng(case['seed'])
    form = {lv: D.top[k].get_level(lv) for lv in range(n)}
    name = f'{k[0]}-form ({k[1]})'
    # the correspondence of dofs
    nest = case['mg'] is not None or spec['degree'] <= 2 or k[0] == 2 and False
    for lv in range(n - 1):
        for up in range(lv + 1, n):
            ind, cor = tgm.dof_correspondence.global_correspondence(form[lv], form[up])
            back = tgm.dof_correspondence.global_correspondence(form[up], form[lv])
            require(back == ('empty', None), 'a coarse level has no dofs in those of a finer one', got=back[0])
            if nest:
                require(ind == 'complete', f'the dofs of level {up} fill those of level {lv}', got=ind, form=name)
                used = sorted(x for v in cor.values() for x in v)
                require(len(used) == len(set(used)), f'a dof of level {up} is in one dof of level {lv}')
                require(len(cor) == D.view(lv).gm(k)[1], f'every dof of level {lv} has dofs of level {up}')
    # a field, reduced on all levels
    nc = 2 if k[0] == 1 else 1
    per = spec['mesh'].get('periodic')
    kind = 'constant' if per and case['field'] == 'linear' else case['field']
    co = np.round(rng.uniform(-2, 2, (nc, 3)), 2)
    if kind == 'smooth' and not per:
        F = fields_of(case, [k])[k]
    elif kind == 'linear':
        F = fe.Field([[['p', c[0], 0, 0, 0], ['p', c[1], 1, 0, 0], ['p', c[2], 0, 1, 0]] for c in co], 2)
    else:
        kind = 'constant'
        F = fe.Field([[['p', c[0] + 3., 0, 0, 0]] for c in co], 2)
    D.top[k].cf = F.vc(2, k)
    for t in (3., 7.):
        D.top[k][t].reduce()
    c = {lv: D.view(lv).get_cochain(k, 7.) for lv in range(n)}
    err = {lv: deviation(D.view(lv), k, 7., F) for lv in range(n)}
    rings = np.concatenate([ring(D, e) for e in D.view(0).elements], axis=1)
    lip = slope(F, 7., list(zip(rings.min(1), rings.max(1)))) if kind != 'constant' else 0.
    diam = {lv: diameter(D.view(lv), D.elements) for lv in range(n)}
    size = {lv: max(float(np.max(np.abs(w))) for w in c[lv].values()) + 1e-12 for lv in range(n)}
    value = max(float(np.max(np.abs(F.ev(i, 7., *rings)))) for i in range(nc)) + lip * diam[0] + 1e-9
    for h, (a, b, vector) in enumerate(case['hops']):
        a, b = a % n, b % n
        if a == b:
            continue
        D.view(a)
        D.set_cochain(k, 3., c[a])
        count = len(D.elements)
        what = f'hop {h} from level {a} to level {b} as {"vector" if vector else "cochain"}: {name}'
        labels.add(('up' if b > a else 'down') + (' vector' if vector else ''))
        exact = nest and b < a
        if vector:
            vec = form[a][3.].cochain.gathered_global_vector
            times = [list(form[x].cochain.times) for x in (a, b)]
            out = quiet(tgm.pass_vector, vec, form[a], form[b], complete_only=exact)
            for x, old in zip((a, b), times):       # (making room for a temporary cochain may drop the oldest)
                now = list(form[x].cochain.times)
                require(set(now) <= set(old) and now[-2:] == old[-2:], f'{what}: no cochains are left behind', before=old, now=now)
            D.view(b)
            g, m = D.gm(k)
            require(out.V.shape == (m, ), f'{what}: size')
            got = {e: out.V[g[e]] for e in g}
        else:
            quiet(tgm.pass_cochain, form[a], 3., form[b], 4., complete_only=exact)
            D.view(b)
            got = D.get_cochain(k, 4.)
        samples = min(39, max(5, int((30001 / count) ** .5 + 1)))
        for e in c[b]:
            d = np.abs(got[e] - c[b][e])
            if exact:
                lim = np.full(d.shape, (1e-9 if kind != 'smooth' else 2e-3) * size[b])
            elif kind == 'constant':
                lim = np.full(d.shape, 1e-9 * size[b])
            else:
                span = spans_of(D, k, e)
                lim = np.full(d.shape, (1.5 * err[a] + lip * 2.2 * diam[a] / samples) * span * (1.45 if k[0] == 1 else 1.) + 1e-9 * size[b])
            i = int(np.argmax(d - lim))
            require(d[i] <= lim[i], f'{what}: the form follows the {kind} field', element=str(e), deviation=float(d[i]), bound=float(lim[i]), size=size[b])
    # any fine form: its dofs add up
    if nest:
        up = n - 1
        D.view(up)
        g, m = D.gm(k)
        v = rng.normal(size=m)
        D.set_cochain(k, 5., {e: v[g[e]] for e in g})
        for lv in range(up):
            quiet(tgm.pass_cochain, form[up], 5., form[lv], 5., complete_only=True)
            low = D.view(lv).get_cochain(k, 5.)
            path = v
            for z in range(up, lv, -1):        # (through all levels in between)
                ff, tf = form[z], form[z - 1]
                D.view(z)
                gz = D.gm(k)[0]
                D.set_cochain(k, 6., {e: path[gz[e]] for e in gz})
                quiet(tgm.pass_cochain, ff, 6., tf, 6., complete_only=True)
                D.view(z - 1)
                g1, m1 = D.gm(k)
                w = D.get_cochain(k, 6.)
                path = np.zeros(m1)
                for e in g1:
                    path[g1[e]] = w[e]
            g1, m1 = D.view(lv).gm(k)
            for e in g1:
                near(low[e], path[g1[e]], f'from level {up} to level {lv}: in one step or in several, {name}', 1e-9)
            if k[0] == 2:
                near(sum(sum(low[e]) for e in low), sum(v), f'from level {up} to level {lv}: the integral', 1e-9)
            if k[0] == 0:
                require(set(np.round(np.concatenate([low[e] for e in low]), 9)) <= set(np.round(v, 9)), f'from level {up} to level {lv}: the values at the nodes')
    return {'nontrivial': len(labels) > 0, 'labels': sorted(labels) + [case['mg'] or 'int degree', kind] + (['nested dofs'] if nest else [])}


def spans_of(D, k, e):
    """A bound of the sizes of the objects of the dofs (of the element, if the nodes are no Lobatto nodes)."""
    P = ring(D, e)
    if k[0] == 0:
        return 1.
    if k[0] == 2:
        return area(P)
    return max(float(np.linalg.norm(P[:, i] - P[:, j])) for i in range(4) for j in range(i))


# -------------------------------------------------------------------------------------------------- systems
def matrices(D, L, what):
    als = L.assemble()
    gm = als.A._gm_row
    return {'gm': ({e: np.array(gm[e]) for e in D.elements}, int(gm.num_global_dofs)), 'A': np.asarray(als.A.gather().todense()), 'b': np.array(als.b.gather())}


def customize(L, case, level=None):
    for kind, dof, value in case['custom']:
        if level is None:
            v = {lv: value + lv for lv in range(case['levels'])} if kind.endswith('dict') else value
        else:
            v = value + (level if kind.endswith('dict') else 0)
        if kind.startswith('global'):
            L.customize.set_dof(dof, v)
        else:
            L.customize.set_local_dof(0, 0, dof, v)


def prop_systems(case):
    case = dict(case, ounv=[tuple(v) for v in case['ounv']])
    o, n, spec = case['o'], case['levels'], case['spec']
    keys = [(1, o), (2 if o == O else 0, o)]
    D = MG(spec, keys, n, None, mixed(spec, o, case['op']))
    A, B, full = places(D, case, D.top_mesh, D.top_tgm)
    ls = D.objs['ls']
    ls.apply()
    bcs(ls, D, case, A, B)
    s = D.impl.base['forms']['lin-s']
    Fs = fe.Field(case['scalar'], 2)
    s.cf = Fs.vc(2, (2 if o == O else 0, o))
    forms = D.impl.base['forms']
    data = []
    for t in case['times']:
        s[t].reduce()
        L = ls(t)
        customize(L, case)
        G = L.assemble()
        order = [x for x in case['order'] if x < n]
        mats = {}
        for lv in order:
            D.view(lv)
            als = G.get_level(lv)
            gm = als.A._gm_row
            mats[lv] = {'gm': ({e: np.array(gm[e]) for e in D.elements}, int(gm.num_global_dofs)), 'A': np.asarray(als.A.gather().todense()), 'b': np.array(als.b.gather())}
        M = mats[n - 1]['A']
        regular = all(np.linalg.cond(mats[lv]['A']) < 1e6 for lv in mats)
        sol = None
        if case['scheme'] is not None and regular:
            scheme = case['scheme']
            if scheme != 'direct':
                from phyem.tools.miscellaneous.multigrid_scheme import MultiGridSchemeConfig
                scheme = MultiGridSchemeConfig(scheme, n)
            x, _, info = quiet(G.solve, scheme, inner_m=600, outer_k=5, maxiter=20) if scheme == 'direct' else quiet(G.solve, scheme, x0=0, inner_m=600, outer_k=5, maxiter=20)
            x = np.array(x.V if hasattr(x, 'V') else x)
            sol = x, info
            want = np.linalg.solve(M, mats[n - 1]['b'])
            sc = max(1e-8, float(np.max(np.abs(want))))
            require(float(np.max(np.abs(x - want))) <= 1e-4 * sc, f'time {t}: scheme {case["scheme"]} solves the system of the finest level', deviation=float(np.max(np.abs(x - want))), size=sc, info=info)
            D.view(n - 1)
            u = forms['lin-u'].get_level(n - 1)
            g = mats[n - 1]['gm'][0]
            for e in D.elements:
                c = np.array(u.cochain[t][e])
                near(c, x[g[e][:len(c)]], f'time {t}: the solution is in the forms of the finest level', 1e-8) if np.max(np.abs(c)) > 1e-8 else None
            nest = spec['degree'] <= 2
            if nest:
                vec = u[t].cochain.gathered_global_vector
                for lv in range(n - 1):
                    ul = forms['lin-u'].get_level(lv)
                    low = quiet(D.top_tgm.pass_vector, vec, u, ul, complete_only=True).V
                    D.view(lv)
                    gl = ul.cochain.gathering_matrix
                    for e in D.elements:
                        a, b = np.array(ul.cochain[t][e]), low[gl[e]]
                        require(np.max(np.abs(a - b)) <= 1e-8 * sc, f'time {t}: the coarse levels hold the solution of the finest level', level=lv, deviation=float(np.max(np.abs(a - b))))
        data.append((t, mats))
    for lv in range(n):
        S = static(spec, keys, lv, mixed(spec, o, case['op']))
        A, B, full = places(S, case, S.mesh, S.tgm)
        L = S.objs['ls'].apply()
        bcs(L, S, case, A, B)
        f = S.impl.base['forms']['lin-s']
        f.cf = Fs.vc(2, (2 if o == O else 0, o))
        for t, mats in data:
            f[t].reduce()
            X = L(t)
            customize(X, case, lv)
            als = X.assemble()
            gm = als.A._gm_row
            b = {'gm': ({e: np.array(gm[e]) for e in S.elements}, int(gm.num_global_dofs)), 'A': np.asarray(als.A.gather().todense()), 'b': np.array(als.b.gather())}
            what = f'level {lv}, time {t}'
            to = bijection(mats[lv]['gm'], b['gm'], list(b['gm'][0]), f'{what}: the system')
            near(mats[lv]['A'], b['A'][np.ix_(to, to)], f'{what}: the matrix of the system')
            near(mats[lv]['b'], b['b'][to], f'{what}: the right hand side of the system')
    return {'nontrivial': True, 'labels': [o, f"{len(case['times'])} times", str(case['scheme'])] + [x[0] for x in case['custom']]}


def s_systems():
    S = fe.st()
    vec = [(0., -1.), (1., 0.), (0., 1.), (-1., 0.)]

    @S.composite
    def mk(draw):
        c = draw(s_case(True))
        return dict(c, o=draw(S.sampled_from([O, I])), op=draw(S.integers(0, 1)), times=draw(S.sampled_from([[0.], [.5], [0., .5], [1., 0.]])),
                    custom=draw(S.lists(S.tuples(S.sampled_from(['global', 'local', 'global dict', 'local dict']), S.integers(0, 3), fe.s_num(-2, 2, 1)).map(list), max_size=2)),
                    scheme=draw(S.sampled_from([None, 'direct', 'direct', 'V', 'N'])),
                    ounv=[vec[i] for i in draw(S.lists(S.integers(0, 3), min_size=1, max_size=3, unique=True))])
    return mk()


# -------------------------------------------------------------------------------------------------- schemes
def prop_schemes(case):
    """A scheme is a walk over the layers, in which every restriction has its interpolation."""
    from phyem.tools.miscellaneous.multigrid_scheme import InterpolationStep, MultiGridSchemeConfig, RestrictionStep
    n, kind = case['layers'], case['kind']
    kw, layer, want = {}, 0, []
    if kind in ('V', 'N'):
        runs = ([('I', n - 1)] if kind == 'N' else []) + [('R', n - 1), ('I', n - 1)]
    else:
        runs, at, down = [], (n - 1 if kind == 'W' else 0), kind == 'W'
        for x in case['runs']:
            room = at if down else n - 1 - at
            if room == 0:
                down = not down
                room = at if down else n - 1 - at
            k = 1 + x % room
            if runs and (runs[-1][0] == 'R') == down:
                runs[-1] = (runs[-1][0], runs[-1][1] + k)
            else:
                runs.append(('R' if down else 'I', k))
            at += -k if down else k
            down = not down
        if at != n - 1:
            if runs and runs[-1][0] == 'I':
                runs[-1] = ('I', runs[-1][1] + n - 1 - at)
            else:
                runs.append(('I', n - 1 - at))
        kw = {'sequences': '-'.join(str(k) for _, k in runs)}
    layer = 0 if runs[0][0] == 'I' else n - 1
    for d, k in runs:
        for _ in range(k):
            want.append((d, layer))
            layer += 1 if d == 'I' else -1
    s = MultiGridSchemeConfig(kind, n, **kw)
    got = [('R' if isinstance(s[i], RestrictionStep) else 'I', s[i]._layer) for i in s]
    require(all(isinstance(s[i], (RestrictionStep, InterpolationStep)) for i in s), 'the steps')
    require(got == want and len(s) == len(want), f'the steps of {kind} {kw}', got=got, want=want)
    require(s.num_layers() == n, 'the number of layers')
    pairs = s.pairs
    stack, match = [], {}
    for i, (d, lay) in enumerate(want):
        if d == 'R':
            stack.append((i, lay))
        else:
            while stack and stack[-1][1] <= lay:
                stack.pop()
            match[i] = stack.pop()[0] if stack and stack[-1][1] == lay + 1 else None
    require(pairs == match, f'the pairs of {kind} {kw}', got=pairs, want=match)
    return {'nontrivial': len(want) > 2, 'labels': [kind]}


def s_schemes():
    S = fe.st()
    return S.fixed_dictionaries({'layers': S.integers(2, 6), 'kind': S.sampled_from(['V', 'N', 'W', 'FMG']), 'runs': S.lists(S.integers(0, 9), min_size=2, max_size=8)})


def prop_rounding(case):
    """Dofs whose coordinates have a 5 in the seventh digit."""
    k = (0, case['o'])
    D = MG(case['spec'], [k], case['levels'], case['mg'])
    form = {lv: D.top[k].get_level(lv) for lv in range(case['levels'])}
    for lv in range(case['levels'] - 1):
        ind, cor = D.top_tgm.dof_correspondence.global_correspondence(form[lv], form[lv + 1])
        if ind != 'complete':
            raise core.Violation(f'the dofs of level {lv + 1} fill those of level {lv}: {ind}', 'dofs at a rounding boundary')
    return {'nontrivial': True, 'labels': []}


def s_rounding():
    S = fe.st()
    m = {'type': 'quad', 'layout': 2, 'A': [0.2, -0.2], 'B': [1.12, 0.06], 'C': [1.01, 1.05], 'D': [0.18, 0.86]}
    return S.fixed_dictionaries({'spec': S.just({'lib': 'msehtt', 'dim': 2, 'mesh': m, 'degree': 4}), 'levels': S.just(3), 'mg': S.just('MG-N4'), 'o': S.sampled_from([I, O])})


SUBS = [
    Sub('levels', lambda: s_case(), prop_levels, 60, 600, 'every case has several levels'),
    Sub('pass', s_pass, prop_pass, 60, 600, 'at least one hop between different levels'),
    Sub('systems', s_systems, prop_systems, 60, 600, 'every case has several levels'),
    Sub('rounding', s_rounding, prop_rounding, 2, 2, 'every case'),
    Sub('schemes', s_schemes, prop_schemes, 300, 5000, 'more than two steps'),
]
