"""C22: what is saved is what is read: forms, meshes and data sets survive files, across sessions and numberings."""
import os
import pickle
import shutil
import tempfile

import numpy as np

from lib import boot, fe, iso
from lib import core
from lib.core import Sub

ASSUMPTIONS = ['Files are read into the same geometry (elements with the same corners); every session is a fresh process.']


def require(cond, what, **info):
    if not cond:
        core.require(False, what + ''.join(f'; {k}={v}' for k, v in info.items()))


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    core.require(a.shape == b.shape and np.array_equal(a, b), what + (
        f': shapes {a.shape} and {b.shape}' if a.shape != b.shape else f': {a.ravel()[:6]} != {b.ravel()[:6]}'))


def near(a, b, what, scale=None):
    b = np.asarray(b)
    core.close(a, b, what, rtol=1e-9, atol=1e-9 * (scale or (np.max(np.abs(b)) if b.size else 1.)) + 1e-300)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c22')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------- msehtt forms, meshes
TYPES = {('msehtt', 2): ['crazy', 'crazy', 'ts', 'ren', 'crazy_multi', 'backward_step', 'quad', 'rectangle', 'meshpy', 'data-quad', 'data-split'],
         ('msehtt', 3): ['crazy', 'crazy0']}
TIMES = [0, 0.5, 1, 0.25, 2, 1.33333333]


def s_msehtt():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(libs=('msehtt',), dims=(2, 2, 3), maxp=(3, 3, 2), maxn=(3, 3, 2), types=TYPES))
        m = spec['mesh']
        if 'bounds' in m and draw(S.integers(0, 2)) == 0:         # a small (or large) domain
            f = draw(S.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e2]))
            m['bounds'] = [[a * f, b * f] for a, b in m['bounds']]
        form = S.fixed_dictionaries({'key': S.integers(0, 5), 'sp': S.booleans(),
                                     'times': S.lists(S.integers(0, 5), min_size=1, max_size=4, unique=True),
                                     'what': S.sampled_from([None, None, 1, 2, 3]), 'ab': S.booleans(),
                                     'before': S.lists(S.integers(0, 5), max_size=2, unique=True)})
        return {'spec': spec, 'forms': draw(S.lists(form, min_size=1, max_size=3)), 'seed': draw(S.integers(0, 9999)),
                'via': draw(S.sampled_from(['same', 'phm', 'phm', 'dict', 'dict', 'dict'])),
                'keep': draw(S.sampled_from([1., 1., .6, .3])), 'name': draw(S.sampled_from(['int', 'str', 'shift'])),
                'dump': draw(S.booleans())}
    return mk()


def build(case, great=None):
    """One session: the mesh and the forms (in one order), each a base form with derived ones at abstract time instants."""
    ph = boot.phyem()
    keys = fe.space_keys(case['spec']['dim'])
    fk = [keys[f['key'] % len(keys)] for f in case['forms']]
    hold = {}

    def abstract(D):
        ts = ph.time_sequence()
        hold['ts'] = ts
        hold['f'] = []
        for i, k in enumerate(fk):
            f = D.abs_forms[k].space.make_form(f'h_{i}', f'lin-h{i}')
            hold['f'].append([f, f @ ts['1/2']])
        return {}

    D = fe.Disc(case['spec'], keys=sorted(set(fk)), make_abstract=abstract, great=great)
    hold['ts'].specify('constant', [0, 2, 8], 2)
    ph.config.set_auto_cleaning(False)        # (this process lives for one session)
    b = D.impl.base['forms']
    return D, fk, [[b[a._pure_lin_repr] for a in row] for row in hold['f']]


def random_cochain(D, key, form, r):
    gm = form.cochain.gathering_matrix
    v = r.uniform(-1, 1, int(gm.num_global_dofs))
    return {e: v[np.array(gm[e])] for e in D.elements}


def snapshot(D, key, form, t):
    """(cochains, reconstructed values) of all elements"""
    c = D.get_cochain(key, t, form=form)
    rec = None
    d, k = D.dim, key[0]
    if d == 2 or not D.spec['mesh'].get('c'):
        rec = D.recon(key, t, *[np.array([-.8, .1, .9])] * d, form=form)
    return c, rec


def unique(D):
    return any('unique' in str(D.element(e).etype) for e in D.elements)


def write(case, d):
    D, fk, F = build(case)
    r = np.random.default_rng(case['seed'])
    out = []
    for i, (f, k) in enumerate(zip(case['forms'], fk)):
        h = {}
        for j in f['times']:
            t = TIMES[j]
            c = random_cochain(D, k, F[i][0], r)
            D.set_cochain(k, t, c, form=F[i][0])
        ts = sorted(TIMES[j] for j in f['times'])
        (F[i][1] if f['ab'] else F[i][0]).saveto(os.path.join(d, f'form{i}'), what=f['what'])
        for t in (ts if f['what'] is None else ts[-f['what']:]):
            h[t] = snapshot(D, k, F[i][0], t)
        out.append(h)
        with open(os.path.join(d, f'cache{i}'), 'wb') as fi:        # what iterators write down to resume
            pickle.dump((ts[-1], F[i][0]._make_cache_data()), fi)
        # what happens to the form afterwards changes no file
        D.set_cochain(k, ts[0], random_cochain(D, k, F[i][0], r), form=F[i][0])
    pts = [np.array([-.9, -.2, .7, 1.])[:4], np.array([-.5, .3, -1., 1.])[:4], np.array([.1, -.6, .8, 1.])[:4]][:D.dim]
    mesh = {e: (str(D.element(e).etype), D.map(e, *pts), reverse_info(D, e)) for e in D.elements}
    gms = [[{e: np.array(g[e]) for e in D.elements}, int(g.num_global_dofs)] for g in (f[0].cochain.gathering_matrix for f in F)]
    un = unique(D)
    ed = None
    if not un:
        D.tgm.saveto(os.path.join(d, 'mesh.phm') if case['dump'] else os.path.join(d, 'mesh'))
        ed = (D.tgm._global_element_type_dict, {e: D.tgm.elements[e].parameters for e in D.tgm.elements}, D.tgm._global_element_map_dict)
    return out, mesh, gms, un, ed


def reverse_info(D, e):
    """The dofs of the element whose direction is reversed to agree with a neighbour's."""
    x = getattr(D.element(e), 'dof_reverse_info', None) if D.dim == 2 else None
    return {k: sorted(v) for k, v in x.items() if v} if x else {}


def renumbered(case, ed):
    """The same elements under other names, in another order, maybe only some of them: {new: old}, element dicts."""
    r = np.random.default_rng(case['seed'] + 1)
    old = list(ed[0])
    n = max(1, int(np.ceil(case['keep'] * len(old))))
    pick = [old[i] for i in r.permutation(len(old))[:n]]
    name = {'int': lambda i: i, 'str': lambda i: f'e{i}', 'shift': lambda i: 2 * i + 5}[case['name']]
    new = {name(i): o for i, o in enumerate(pick)}
    return new, [{n_: x[o] for n_, o in new.items()} for x in ed]


def read(case, d, ref, mesh, gms, un, ed):
    via = case['via'] if not un and case['spec']['dim'] == 2 else 'same'     # (3d .phm files: NotImplementedError)
    new = None
    if via == 'same':
        great = None
    elif via == 'phm':
        def great(D):
            D.impl.config(D.tgm)(os.path.join(d, 'mesh.phm'))
    else:
        new, dd = renumbered(case, ed)
        fn = os.path.join(d, 'renumbered.phm')
        with open(os.path.join(d, 'mesh.phm'), 'rb') as fi:
            x = pickle.load(fi)
        if set(x) != {'etype_dict', 'map_dict', 'parameter_dict'}:
            raise core.HarnessError(f'the format of .phm files changed: {list(x)}')
        with open(fn, 'wb') as fi:
            pickle.dump({'etype_dict': dd[0], 'parameter_dict': dd[1], 'map_dict': dd[2]}, fi)

        def great(D):
            D.impl.config(D.tgm)(fn)
    D, fk, F = build(case, great)
    if new is None:
        new = {e: e for e in mesh}
    require(set(D.elements) == set(new), f'the mesh {via}: elements', got=D.elements[:6], ref=list(new)[:6])
    pts = [np.array([-.9, -.2, .7, 1.])[:4], np.array([-.5, .3, -1., 1.])[:4], np.array([.1, -.6, .8, 1.])[:4]][:D.dim]
    for e, o in new.items():
        require(str(D.element(e).etype) == mesh[o][0], f'the mesh {via}: type of element {e}', got=D.element(e).etype, ref=mesh[o][0])
        for x, y in zip(D.map(e, *pts), mesh[o][1]):
            same(x, y, f'the mesh {via}: mapping of element {e} ({o})')
    if via != 'dict':
        for i, row in enumerate(F):
            g = row[0].cochain.gathering_matrix
            require(int(g.num_global_dofs) == gms[i][1], f'the mesh {via}: dofs', got=int(g.num_global_dofs), ref=gms[i][1])
            for e in mesh:
                same(np.array(g[e]), gms[i][0][e], f'the mesh {via}: numbering in element {e}')
    r = np.random.default_rng(case['seed'] + 2)
    moved = False
    for i, (f, k) in enumerate(zip(case['forms'], fk)):
        with open(os.path.join(d, f'cache{i}'), 'rb') as fi:
            t, data = pickle.load(fi)
        F[i][0]._read_cache_data(data)
        got = D.get_cochain(k, t, form=F[i][0])
        for e, o in new.items():
            same(got[e], ref[i][t][0][o], f'{via}: {k} cochain of the cache data at t={t} for element {e} (saved as element {o})')
        F[i][0].cochain._tcd.clear()
    for i, (f, k) in enumerate(zip(case['forms'], fk)):
        own = {}
        for j in f['before']:
            c = random_cochain(D, k, F[i][0], r)
            D.set_cochain(k, TIMES[j], c, form=F[i][0])
            own[TIMES[j]] = c
        F[i][0].read(os.path.join(d, f'form{i}'))
        for t in ref[i]:
            own.pop(t, None)
        times = set(F[i][0].cochain._tcd)
        require(times == set(own) | set(ref[i]), f'form {i} has the cochains', got=sorted(times), ref=sorted(set(own) | set(ref[i])))
        require(F[i][0].cochain.newest == max(times), f'form {i}: newest time after reading', got=F[i][0].cochain.newest, ref=max(times))
        for t, c in own.items():
            got = D.get_cochain(k, t, form=F[i][0])
            for e in new:
                same(got[e], c[e], f'reading changed the cochain at t={t} that is not in the file, element {e}')
        for t, (c, rec) in ref[i].items():
            gc, gr = snapshot(D, k, F[i][0], t)
            for e, o in new.items():
                same(gc[e], c[o], f'{via}: {k} cochain read at t={t} for element {e} (saved as element {o})')
                moved = moved or e != o
                if rec is not None:
                    for a, b in zip(gr[e][0] + gr[e][1], rec[o][0] + rec[o][1]):
                        try:
                            near(a, b, f'{via}: {k} field read at t={t} in element {e} (saved as {o})')
                        except core.Violation as v:
                            if via == 'dict' and k[0] == 1 and reverse_info(D, e) != mesh[o][2]:
                                v.key = 'the mesh read into reverses other dofs'
                            raise
    return via, moved


def prop_msehtt(case):
    with Scratch() as d:
        ref = iso.isolated(write, case, d)
        via, moved = iso.isolated(read, case, d, *ref)
    return {'nontrivial': len(ref[1]) > 1, 'labels': fe.labels(case['spec']) + [via] + (['renumbered'] if moved else [])}


# --------------------------------------------------------------------------------------------------------- msepy forms
def s_msepy():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(libs=('msepy',), dims=(1, 2, 2, 3), maxp=(4, 3, 2), maxn=(4, 3, 2)))
        form = S.fixed_dictionaries({'key': S.integers(0, 5), 'times': S.lists(S.integers(0, 5), min_size=1, max_size=4, unique=True)})
        return {'spec': spec, 'forms': draw(S.lists(form, min_size=1, max_size=3)), 'seed': draw(S.integers(0, 9999)),
                'used': draw(S.booleans())}
    return mk()


def build2(case):
    ph = boot.phyem()
    keys = fe.space_keys(case['spec']['dim'])
    fk = [keys[f['key'] % len(keys)] for f in case['forms']]
    hold = {'f': []}

    def abstract(D):
        for i, k in enumerate(fk):
            hold['f'].append(D.abs_forms[k].space.make_form(f'h_{i}', f'lin-h{i}'))
        return {}

    D = fe.Disc(case['spec'], keys=sorted(set(fk)), make_abstract=abstract)
    b = D.impl.base['forms']
    return ph, D, fk, [b[a._pure_lin_repr] for a in hold['f']]


def facts(f, k, d, t, n):
    g = np.array([-.7, .2, 1.])
    xyz, v = f[t].reconstruct(*[g] * d)
    M = f.space.mass_matrix(f.degree)
    out = [np.array(f[t].cochain.local)] + [np.array(x) for x in xyz] + [np.array(x) for x in v]
    out += [np.array(f.cochain.gathering_matrix._gm), float(f.norm(t))]
    out += [(M(e) if callable(M) and not hasattr(M, 'toarray') else M[e]).toarray() for e in range(n)]
    if k[0] < d:
        out.append(f.space.incidence_matrix(f.degree).toarray())
    return out


def write2(case, d):
    ph, D, fk, F = build2(case)
    r = np.random.default_rng(case['seed'])
    ref = {}
    for i, (f, k) in enumerate(zip(case['forms'], fk)):
        for j in f['times']:
            gm, n = D.gm(k)
            v = r.uniform(-1, 1, n)
            D.set_cochain(k, TIMES[j], {e: v[gm[e]] for e in D.elements}, form=F[i])
    if case['used']:
        for i, (f, k) in enumerate(zip(case['forms'], fk)):
            facts(F[i], k, D.dim, TIMES[f['times'][0]], len(D.elements))
    ph.save(*F, filename=os.path.join(d, 'forms'))
    for i, (f, k) in enumerate(zip(case['forms'], fk)):
        ref[f'lin-h{i}'] = (k, {TIMES[j]: facts(F[i], k, D.dim, TIMES[j], len(D.elements)) for j in f['times']}, str(F[i].degree))
    return ref, len(D.elements)


def read2(case, d, ref, n):
    ph = boot.phyem()
    ph.config.set_embedding_space_dim(case['spec']['dim'])
    got = ph.read(os.path.join(d, 'forms'))
    require(set(got) == set(ref), 'ph.read returns the forms', got=sorted(got), ref=sorted(ref))
    for name, (k, h, deg) in ref.items():
        f = got[name]
        require(str(f.degree) == deg, f'degree of {name} read', got=f.degree, ref=deg)
        times = {t for t in TIMES if t in f.cochain}
        require(times == set(h), f'cochain times of {name} read', got=sorted(times), ref=sorted(h))
        for t, want in h.items():
            have = facts(f, k, case['spec']['dim'], t, n)
            same(have[0], want[0], f'{name}: cochain read at t={t}')
            for j, (a, b) in enumerate(zip(have, want)):
                near(a, b, f'{name}: fact {j} of the form read at t={t}')
    return True


def prop_msepy(case):
    with Scratch() as d:
        ref, n = iso.isolated(write2, case, d)
        iso.isolated(read2, case, d, ref, n)
    return {'nontrivial': n > 1 or len(case['forms']) > 1, 'labels': fe.labels(case['spec']) + [f"forms{len(case['forms'])}"]}


# ------------------------------------------------------------------------------------------------------------ data sets
def s_dds():
    S = fe.st()
    return S.fixed_dictionaries({
        'dim': S.sampled_from([2, 2, 3]), 'regions': S.lists(S.one_of(S.integers(0, 9), S.sampled_from(['R:a', 'R:b', 'x'])),
                                                            min_size=1, max_size=4, unique=True),
        'vars': S.lists(S.sampled_from(['scalar', 'vector', 'tensor']), min_size=1, max_size=5),
        'names': S.one_of(S.none(), S.permutations(['u', 'p', '1', 'omega', '0', 'B x'])), 'seed': S.integers(0, 9999),
        'order': S.permutations(list(range(5)))})


def make(case):
    r = np.random.default_rng(case['seed'])
    dim = case['dim']
    shp = {reg: tuple(r.integers(1, 5, dim)) for reg in case['regions']}
    coo = [{reg: r.uniform(-1, 1, shp[reg]) for reg in case['regions']} for _ in range(dim)]
    nc = {'scalar': 1, 'vector': dim, 'tensor': dim ** 2}
    val = [[{reg: r.uniform(-1, 1, shp[reg]) for reg in case['regions']} for _ in range(nc[v])] for v in case['vars']]
    return coo, val


def prop_dds(case):
    ph = boot.phyem()
    from phyem.tools.dds.region_wise_structured import DDSRegionWiseStructured as One
    from phyem.tools.dds.region_wise_structured_group import DDS_RegionWiseStructured_Group as Group
    coo, val = make(case)
    dim = case['dim']
    names = None if case['names'] is None else list(case['names'])[:len(val)]

    def check(x, i, what):
        require(x.dtype == case['vars'][i], f'{what}: dtype', got=x.dtype, ref=case['vars'][i])
        require(x.ndim == dim and list(x) == list(coo[0]), f'{what}: dimension and regions', got=list(x), ref=list(coo[0]))
        require(len(x._val_dict_list) == len(val[i]), f'{what}: components')
        for a, b in zip(list(x._coo_dict_list) + list(x._val_dict_list), coo + val[i]):
            for reg in b:
                same(a[reg], b[reg], f'{what}: data in region {reg}')

    with Scratch() as d:
        for i in range(len(val)):
            One(coo, val[i]).saveto(os.path.join(d, f'one{i}'))
        g = Group(coo, val if names is None else dict(zip(names, val)))
        g.saveto(os.path.join(d, 'group'))
        for i in range(len(val)):
            for x in (One.read(os.path.join(d, f'one{i}')), ph.read(os.path.join(d, f'one{i}'))):
                check(x, i, f'variable {i} read')
        key = [str(i) for i in range(len(val))] if names is None else names
        for what, x in (('group', g), ('group read', Group.read(os.path.join(d, 'group'))), ('group ph.read', ph.read(os.path.join(d, 'group')))):
            require(len(x) == len(val), f'{what}: length', got=len(x), ref=len(val))
            require(list(x.dtype) == case['vars'], f'{what}: dtypes', got=x.dtype, ref=case['vars'])
            for i in case['order']:
                if i < len(val):
                    check(x[i], i, f'{what}[{i}]')
                    try:
                        v = x[key[i]]
                    except AssertionError as e:
                        require(False, f'{what}[{key[i]!r}] of the variables {key}', error=str(e))
                    check(v, i, f'{what}[{key[i]!r}]')
            for i, v in enumerate(x):
                check(v, i, f'{what}: variable {i} of the iteration')
        # any picklable object
        obj = {'a': val[0][0], 'b': [case['seed'], None, 'x'], 'c': 1.5}
        ph.pk.ms(os.path.join(d, 'obj'), obj)
        for x in (ph.pk.mr(os.path.join(d, 'obj')), ph.pk.r(os.path.join(d, 'obj'))):
            require(list(x) == list(obj) and x['b'] == obj['b'] and x['c'] == obj['c'], 'a pickled object', got=str(x)[:100])
            for reg in obj['a']:
                same(x['a'][reg], obj['a'][reg], 'a pickled array')
    return {'nontrivial': len(val) > 1, 'labels': [f'{dim}d', 'named' if names else 'listed'] + sorted(set(case['vars']))}


SUBS = [
    Sub('msehtt', s_msehtt, prop_msehtt, 600, 5000, 'a mesh of several elements'),
    Sub('msepy', s_msepy, prop_msepy, 240, 2500, 'several elements or forms'),
    Sub('dds', s_dds, prop_dds, 500, 5000, 'several variables'),
]
