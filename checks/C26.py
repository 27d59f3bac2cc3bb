"""C26: a program gives the same results on one process and on several (every rank count is one more configuration of the same run)."""
import os

import numpy as np

from lib import boot, core, fe, mpi_server
from lib.core import Sub, HarnessError

ASSUMPTIONS = ['Meshes have at least as many elements as there are ranks (fewer are rejected by the library).',
               'Global dofs and the order of the elements may differ between rank counts; everything is compared up to that renumbering.']
I, O = 'inner', 'outer'


def require(cond, what, **info):
    if not cond:
        core.require(False, what + ''.join(f'; {k}={v}' for k, v in info.items()))


def near(a, b, what, tol=1e-9, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    core.require(a.shape == b.shape, f'{what}: shape {a.shape}, with one process {b.shape}')
    s = max(np.max(np.abs(b)) if b.size else 0., scale or 0., 1e-9)
    core.close(a, b, what, rtol=0, atol=tol * s)


# ------------------------------------------------------------------------------------------------ what is run, on every rank
def work(case):
    tame, fe.tame = fe.tame, lambda D, x, size=3.: x      # (nothing below may depend on the elements of one rank)
    try:
        return {'fields': work_fields, 'system': work_system}[case['kind']](fit(case))
    finally:
        fe.tame = tame


def sections(D, case):
    base = D.impl.base['meshes']
    ms = {m.abstract.manifold._sym_repr: m for m in base.values()}
    full = [m for m in base.values() if m.abstract is D.abstract_mesh.boundary()][0]
    D.impl.config(full)(D.tgm, including=D.mesh)
    vs = [tuple(v) for v in case['ounv']]
    sel = vs[0] if len(vs) == 1 else tuple(vs)
    A, B = ms[r'\Gamma_a'], ms[r'\Gamma_b']
    D.impl.config(A)(D.tgm, including={'type': 'boundary_section', 'partial elements': D.mesh, 'ounv': sel})
    D.impl.config(B)(D.tgm, including={'type': 'boundary_section', 'partial elements': D.mesh, 'except ounv': sel})
    return A, B, full


def partition(make):
    def f(D):
        D.abstract_mesh.boundary_partition(r'\Gamma_a', r'\Gamma_b')
        bm = D.abstract_mesh.boundary()
        return dict(make(D) if make else {}, boundary_mesh=bm)
    return f


def periodic(spec):
    return bool(spec['mesh'].get('periodic')) and spec['mesh']['type'] != 'backward_step'


def geometry(D, out):
    g = np.meshgrid(*[np.array([-.7, .1, 1.])] * D.dim, indexing='ij')
    out['elements'] = {e: np.array(D.map(e, *g)) for e in D.elements}
    out['etypes'] = {e: str(D.element(e).etype) for e in D.elements}
    out['signatures'] = {e: D.element(e).signature for e in D.elements}
    if D.dim == 2:
        out['pairing'] = {tuple(sorted(map(str, f))): sorted((str(e), int(i)) for e, i in p) for f, p in D.tgm.elements.periodic_face_pairing.items()}
    S = out['ranks'] = {}
    S['number of elements'] = D.mesh.composition.num_global_elements
    rng = D.mesh.composition.global_element_range         # (None in the ranks but the first)
    from phyem.src.config import COMM
    S['elements of the great mesh'] = COMM.bcast(None if rng is None else sorted(rng), root=0)


def fields(D, case, keys, out):
    out['gm'], out['reduced'], out['E'], out['signs'] = {}, {}, {}, {}
    t = case['t']
    for k in keys:
        F = fe.Field(case['fields'][str(k[0] in (0, D.dim))], D.dim)
        D.set_cf(k, F)
        for tt in (t, t + 1.):
            D.forms[k][tt].reduce()
        out['gm'][k] = D.gm(k)
        out['signs'][k] = fe.dof_signs(D, k, D.elements)
        out['reduced'][k] = D.get_cochain(k, t)
        if k[0] < D.dim:
            sr = fe.dof_signs(D, (k[0] + 1, k[1]), D.elements)
            out['E'][k] = {e: sr[e][:, None] * D.E(k, e) * out['signs'][k][e][None, :] for e in D.elements}


def fit(case):
    """A periodic mesh gets periodic fields."""
    m = case['spec']['mesh']
    if not periodic(case['spec']):
        return case
    d = case['spec']['dim']
    L = [b[1] - b[0] for b in m['bounds']]
    out = {}
    for k, comps in case['fields'].items():
        out[k] = [[[t[0], t[1]] + ([float(2 * np.pi * round(x) / l) for x, l in zip(t[2:2 + d], L)] if t[0] == 'c' else [0] * d) + list(t[2 + d:])
                   for t in c] for c in comps]
    return dict(case, fields=out)


def work_fields(case):
    ph = boot.phyem()
    spec = case['spec']
    per = periodic(spec)
    keys = [k for i, k in enumerate(fe.space_keys(spec['dim'])) if i in case['keys']]
    more = sorted(set(keys) | {(k + 1, o) for k, o in keys if k < spec['dim']}, key=str)
    D = fe.Disc(spec, keys=more, make_abstract=None if per else partition(None))
    out = {}
    geometry(D, out)
    fields(D, case, keys, out)
    S = out['ranks']
    t, d = case['t'], D.dim
    et = {D.etype(e) for e in D.elements}
    trf = bool(spec['mesh'].get('trf'))
    straight3 = spec['mesh'].get('c', 1.) == 0. or D.dim == 2
    out['master'], out['faces'] = {}, {}
    if not per:
        A, B, full = sections(D, case)
        for n, Z in (('A', A), ('B', B), ('full', full)):
            out['faces'][n] = sorted((str(e), int(f)) for e, f in Z.composition)
    g = np.linspace(-.9, .9, 3)
    out['recon'] = {}
    for k in keys:
        f = D.forms[k]
        n = f'{k}'
        if straight3 and not trf:
            x, v = f[t].reconstruct(*[g] * d)
            out['recon'][k] = {e: np.array([np.asarray(c[e]) for c in v]) for e in D.elements}
        if straight3 and not trf:
            S[f'{n} error'] = f[t].error('L2')
            if k[0] < d:
                S[f'{n} error of d'] = f[t].error('d_L2')
                S[f'{n} H1'] = f[t].error('H1')
            S[f'{n} norm'] = f[t].norm()
            if k[0] in range(1, d):
                try:
                    S[f'{n} norms of components'] = f[t].norm(component_wise=True)
                except NotImplementedError:
                    pass
            if k[0] in (0, d):
                S[f'{n} mass'] = f[t].mass()
            if d == 2 and k[0] == 1 and isinstance(spec['degree'], int):
                g1 = D.forms[k]
                S[f'{n} inner product'] = f[t].inner_product(g1[t + 1.])
            if d == 2 or k[0] in (0, 3):
                r = f.numeric.rws(t=t, ddf=.1)
                if r is not None:
                    out['master'][f'{n} rws'] = {q: np.array([np.asarray(a[q]) for a in list(r._coo_dict_list) + list(r._val_dict_list)]) for q in r}
                else:
                    out['master'][f'{n} rws'] = None
        if not per and d == 2 and k == (1, O) and not trf:
            for nn, Z in (('A', A), ('B', B), ('full', full)):
                S[f'{n} flux over {nn}'] = f[t].flux_over_boundary_section(Z)
        c = f[t].cochain
        gmo = f.cochain.gathering_matrix
        N = gmo.num_global_dofs
        r = np.random.default_rng(case['seed'])
        picks = [int(_) for _ in r.integers(0, N, 4)]
        out.setdefault('dofs', {})[k] = {i: (c.of_dof(i), gmo.num_global_locations(i), gmo.find_representative_place(i)) for i in picks}
        E = S['elements of the great mesh']
        for i in r.integers(0, len(E), 3):
            if k[0] not in (0, d) and fe.flippable(D):            # (the direction of the edge may differ)
                break
            e = E[i]
            S[f'{n} value of a local dof of element {e}'] = c.of_local_dof(e, 0)
        if not per:
            for nn, Z in (('A', A), ('full', full)):
                if trf or k[0] == d:
                    continue
                loc = Z.find_dofs(f, local=True)
                out.setdefault('section dofs local', {})[(k, nn)] = loc if isinstance(loc, dict) else dict(loc)
                out.setdefault('section dofs', {})[(k, nn)] = [int(_) for _ in Z.find_dofs(f, local=False)]
        if k[0] < d:
            cb = f[t].coboundary()
            sr = fe.dof_signs(D, (k[0] + 1, k[1]), D.elements)
            out.setdefault('coboundary', {})[k] = {e: sr[e] * np.array(cb[e]) for e in D.elements}
        vec = c.gathered_global_vector() if callable(getattr(c, 'gathered_global_vector', None)) else getattr(c, 'gathered_global_vector', None)
        out.setdefault('global', {})[k] = np.array(gmo.assemble({e: c[e] for e in D.elements}, mode='replace'))
        out['master'][f'{n} cache'] = unpack(f._make_cache_data(t=None))
        # ---- to a file and back
        path = os.path.join(case['dir'], f'{k[0]}{k[1]}.phf')
        ref = D.get_cochain(k, t)
        f.saveto(path)
        f[t].cochain = {e: 0 * ref[e] for e in D.elements}
        f.read(path)
        out.setdefault('read', {})[k] = D.get_cochain(k, t)
        for e in ref:
            require(np.array_equal(ref[e], out['read'][k][e]), f'{k}: a cochain read back from a file', element=e)
    if d == 2 and (0, I) in keys and (1, I) in keys and straight3 and not trf and isinstance(spec['degree'], int):
        a, b = D.forms[(0, I)], D.forms[(1, I)]
        S['trilinear integral'] = D.mesh.composition.compute.a(a[t], b[t], b[t + 1.])
    return out


def unpack(data):
    if data is None:
        return None
    return {str(k): ({e: np.array(v[e]) for e in v} if k != 'global_element_signature_dict' else dict(v)) for k, v in data.items()}


# ------------------------------------------------------------------------------------------------ systems
def work_system(case):
    ph = boot.phyem()
    spec, o = case['spec'], case['o']
    d = spec['dim']
    ks = (d - 1, d) if o == O else (1, 0)
    per = periodic(spec)
    hold = {}

    def abstract(D):
        spu, spp = (D.abs_forms[(k, o)].space for k in ks)
        u = spu.make_form('u', 'lin-u')
        p = spp.make_form('p', 'lin-p')
        s = spp.make_form('s', 'lin-s')
        if o == O:
            names = {'u': u, 'dp': p.codifferential(), 'du': u.exterior_derivative(), 's': s, 'p': p}
            expr = ['u - dp = 0', ('du' if case['op'] == 0 else 'du + p') + ' = s']
        else:
            names = {'u': u, 'dp': p.exterior_derivative(), 'du': u.codifferential(), 's': s, 'p': p}
            expr = ['u - dp = 0', ('du' if case['op'] == 0 else 'du + p') + ' = s']
        pde = ph.pde(expr, {k: v for k, v in names.items() if any(k in e.split() for e in expr)})
        pde._indi_dict = None
        pde.unknowns = [u, p]
        if not per:
            nat, ess = (p, u) if o == O else (u, p)
            pde.bc.define_bc({r'\Gamma_a': ph.trace(ph.Hodge(nat)), r'\Gamma_b': ph.trace(ess)})
        wf = pde.test_with([spu, spp], sym_repr=['v', 'q'])
        idx = '0-1' if o == O else '1-0'
        wf = wf.derive.integration_by_parts(idx, **({'drop_bi_term': True} if per else {}))
        if o == O:      # u - <p|dv> + bd = 0
            arr = {0: '0, 1 = ' + ('2' if not per else ''), 1: '0 = 1' if case['op'] == 0 else '0, 1 = 2'}
        else:
            n = 1 if per else 2
            left = ['0'] + ([str(n)] if case['op'] else [])
            right = (['1'] if not per else []) + [str(n + (1 if case['op'] else 0))]
            arr = {0: '0, 1 = ', 1: ', '.join(left) + ' = ' + ', '.join(right)}
        wf = wf.derive.rearrange(arr)
        hold['wf'] = wf
        ph.space.finite(fe.parse_degree(spec['degree']))
        return {'u': u, 'p': p, 's': s, 'ls': wf.mp().ls()}
    keys = [(k, o) for k in ks]
    D = fe.Disc(spec, keys=keys, make_abstract=abstract if per else partition(abstract))
    out = {}
    geometry(D, out)
    S = out['ranks']
    u, p, s = (D.impl.base['forms'][f'lin-{x}'] for x in 'ups')
    ls = D.objs['ls'].apply()
    t = case['t']
    Fs, Fv = (fe.Field(case['fields'][x], d) for x in ('True', 'False'))
    s.cf = Fs.vc(d, keys[1])
    s[t].reduce()
    if not per:
        A, B, full = sections(D, case)
        if o == O:
            ls.config(['natural bc', 1], A, Fs.vc(d, (0, o)), root_form=p)
            ls.config(['essential bc', 1], B, Fv.vc(d, keys[0]), root_form=u)
        else:
            ls.config(['natural bc', 1], A, Fv.vc(d, (1, o)), root_form=u)
            ls.config(['essential bc', 1], B, Fs.vc(d, keys[1]), root_form=p)
    L = ls(t)
    fix = case['fix']
    if per or fix:
        L.customize.set_local_dof(1, S['elements of the great mesh'][fix % S['number of elements']], 0, .5)
    als = L.assemble(preconditioner='Jacobian' if case['pre'] else False)
    gm = als.A._gm_row
    su, sp = (fe.dof_signs(D, k, D.elements) for k in keys)
    out['signs'] = {'system': {e: np.concatenate([su[e], sp[e]]) for e in D.elements}, keys[0]: su, keys[1]: sp}
    out['gm'] = {'system': ({e: np.array(gm[e]) for e in D.elements}, int(gm.num_global_dofs))}
    AA, bb = als.A.gather(), als.b.gather()
    out['A'] = None if AA is None else np.asarray(AA.todense())
    out['b'] = None if bb is None else np.array(bb)
    S['shape'] = list(als.A.shape)
    S['condition number'] = als.condition_number
    S['rank of the matrix'] = als.rank
    S['singularities'] = als.num_singularities
    N = als.A.shape[0]
    i, j = case['seed'] % N, (case['seed'] // 7) % N
    out['entries'] = {(a, b): als.A.value_at(a, b) for a in (i, j) for b in (i, j)}
    out['essential rows'] = [int(_) for _ in als.A.___find_essential_rows___()]
    out['x'] = {}
    cond = S['condition number']
    if not cond < 1e8:
        out['singular'] = True
        return out
    for scheme in case['schemes']:
        if scheme == 'spsolve':
            x, _, info = als.solve('spsolve')
        else:
            m = max(2, min(N - 1, case['restart']))
            x0 = [0, [u, p]][case['x0']]
            if case['x0']:
                for f, kk in ((u, keys[0]), (p, keys[1])):
                    f.cf = (Fs if kk[0] in (0, d) else Fv).vc(d, kk)
                    f[t - 1.].reduce() if t - 1. not in f.cochain else None
            if scheme == 'gmres':
                x, _, info = als.solve('gmres', x0=x0, atol=case['atol'], restart=m, maxiter=case['maxiter'])
            else:
                k = min(3, m - 1)
                x, _, info = als.solve('lgmres', x0=x0, atol=case['atol'], inner_m=m - k, outer_k=k, maxiter=case['maxiter'])
        S[f'{scheme} info'] = info if not isinstance(info, dict) else 'direct'
        out['x'][scheme] = np.array(x)
    x, _, _ = als.solve('spsolve')
    L.x.update(x)
    out['solution'] = {keys[0]: D.get_cochain(None, t, form=u), keys[1]: D.get_cochain(None, t, form=p)}
    return out


# ------------------------------------------------------------------------------------------------ the comparison
def union(results, name, pick):
    out = {}
    for r, res in enumerate(results):
        part = pick(res)
        for e in part:
            require(e not in out, f'{name}: element {e} is in two ranks')
            out[e] = part[e]
    return out


def same_dict(ref, got, what, tol=1e-9):
    require(set(ref) == set(got), f'{what}: the elements', missing=sorted(set(ref) - set(got))[:5], more=sorted(set(got) - set(ref))[:5])
    sc = max([np.max(np.abs(v)) if np.size(v) else 0. for v in ref.values()] + [0.])
    for e in ref:
        near(got[e], ref[e], f'{what}, element {e}', tol, sc)


def renumbering(ref, results, what):
    """old -> new: the number of a dof with one process -> its number now."""
    g0, n0 = ref
    g1 = union([r for r in results], what, lambda r: r[0])
    for r in results:
        require(r[1] == n0, f'{what}: number of global dofs', got=r[1], one_process=n0)
    require(set(g0) == set(g1), f'{what}: the elements of the gathering matrix')
    to = {}
    for e in g0:
        require(len(g0[e]) == len(g1[e]), f'{what}: local dofs of element {e}')
        for a, b in zip(g0[e], g1[e]):
            a, b = int(a), int(b)
            require(0 <= b < n0, f'{what}: global number of a dof', got=b, total=n0)
            require(to.setdefault(a, b) == b, f'{what}: a dof shared by elements has one number', element=e, numbers=(to[a], b))
    require(len(set(to.values())) == len(to), f'{what}: different dofs have different numbers')
    return to


def signs_of(gm, flips, what):
    out = {}
    for e, g in gm[0].items():
        for a, s in zip(g, flips[e]):
            require(out.setdefault(int(a), s) == s, f'{what}: the elements sharing a dof agree on its direction', element=e, dof=int(a))
    return out


def per_rank(ref, results, tol):
    for name, v in ref['ranks'].items():
        for r, res in enumerate(results):
            w = res['ranks'][name]
            if isinstance(v, str) or v is None:
                require(w == v, f'{name} in rank {r}', got=w, one_process=v)
            elif name == 'elements of the great mesh':
                require(w == v, f'{name} in rank {r}', got=w, one_process=v)
            elif name.endswith(' info'):           # (the number of iterations may change with the order of summation)
                require(w == results[0]['ranks'][name], f'{name} in rank {r}', got=w, rank_0=results[0]['ranks'][name])
            elif name == 'condition number':
                require(abs(w - v) <= 1e-4 * v or min(v, w) > 1e8, f'{name} in rank {r}', got=w, one_process=v)
            elif w is None and r > 0:
                continue
            else:
                near(w, v, f'{name} in rank {r}', tol, 1e-3)      # (the fields are of order 1)


def compare(ref, results, tol=1e-9):
    for nm in ('elements', 'etypes', 'signatures'):
        u = union(results, nm, lambda r: r[nm])
        if nm == 'elements':
            same_dict(ref[nm], u, 'the mappings of the elements', 1e-12)
        else:
            require(u == ref[nm], f'the {nm} of the elements')
    for r, res in enumerate(results):
        for f, p in res.get('pairing', {}).items():
            require(p == ref['pairing'].get(f), f'rank {r}: the elements sharing a periodic face', got=p, one_process=ref['pairing'].get(f))
    for f, p in ref.get('pairing', {}).items():
        for r, res in enumerate(results):
            if any(e in {str(_) for _ in res['elements']} for e, _ in p):
                require(f in res['pairing'], f'rank {r}: a periodic face is known', elements=p)
    for r, res in enumerate(results):
        require(len(res['elements']) > 0, f'rank {r} has no element')
    for k in ref['signs']:
        for res in results:
            for e, s in res['signs'][k].items():
                require(len(s) == len(ref['signs'][k][e]), f'{k}: local dofs of element {e}')
    flips = {k: {e: s * ref['signs'][k][e] for res in results for e, s in res['signs'][k].items()} for k in ref['signs']}
    maps = {k: renumbering(ref['gm'][k], [r['gm'][k] for r in results], f'{k}') for k in ref['gm']}
    per_rank(ref, results, tol)
    # an edge shared by elements may be directed the other way (it follows the order of the elements): sign of every global dof
    sign = {k: signs_of(ref['gm'][k], flips[k], k) for k in ref['gm']}
    for nm in ('reduced', 'E', 'recon', 'coboundary', 'read'):
        for k in ref.get(nm, {}):
            got = union(results, nm, lambda r: r[nm][k])
            if nm in ('reduced', 'read'):
                got = {e: flips[k][e] * v for e, v in got.items()}
            same_dict(ref[nm][k], got, f'{nm} {k}', tol)
    for n in ref.get('faces', {}):
        got = [f for r in results for f in r['faces'][n]]
        require(sorted(got) == ref['faces'][n], f'the faces of the boundary section {n}', got=sorted(got), one_process=ref['faces'][n])
    for k in ref.get('dofs', {}):
        N = ref['gm'][k][1]
        back = {b: a for a, b in maps[k].items()}
        where = {}
        for e, g in ref['gm'][k][0].items():
            for m, a in enumerate(g):
                where.setdefault(int(a), []).append((e, m))
        for r, res in enumerate(results):
            for i, (v, n, place) in res['dofs'][k].items():
                a = back[i]
                e, m = where[a][0]
                near(sign[k][a] * v, ref['reduced'][k][e][m], f'{k}: the value of the global dof {i} in rank {r}', tol, np.max(np.abs(ref['reduced'][k][e])))
                require(n == len(where[a]), f'{k}: the number of elements sharing the global dof {i} in rank {r}', got=n, one_process=len(where[a]))
                require(tuple(place) in where[a], f'{k}: the representative place of the global dof {i} in rank {r}', got=place, places=where[a])
            require({i: x[2] for i, x in res['dofs'][k].items()} == {i: x[2] for i, x in results[0]['dofs'][k].items()},
                    f'{k}: the representative places in rank {r} and rank 0')
    for k in ref.get('global', {}):
        v = ref['global'][k]
        for r, res in enumerate(results):
            near([sign[k][a] * res['global'][k][maps[k][a]] for a in range(len(v)) if a in maps[k]], [v[a] for a in range(len(v)) if a in maps[k]],
                 f'{k}: the global vector in rank {r}', tol)
    for kn in ref.get('section dofs', {}):
        k, n = kn
        want = sorted(maps[k][a] for a in ref['section dofs'][kn])
        for r, res in enumerate(results):
            require(sorted(res['section dofs'][kn]) == want, f'{k}: the global dofs on the section {n} in rank {r}',
                    got=sorted(res['section dofs'][kn]), expected=want)
        loc = {}
        for res in results:
            for e, l in res['section dofs local'][kn].items():
                loc[e] = sorted(int(_) for _ in l)
        require(loc == {e: sorted(int(_) for _ in l) for e, l in ref['section dofs local'][kn].items()}, f'{k}: the local dofs on the section {n}')
    for n, v in ref.get('master', {}).items():
        w = results[0]['master'][n]
        require(w is not None, f'{n}: no data in the master rank')
        for r, res in enumerate(results[1:], 1):
            require(res['master'][n] is None, f'{n}: data in rank {r}')
        if n.endswith('cache'):
            k = [k for k in flips if str(k) == n[:-6]][0]
            w = {q: ({e: flips[k][e] * x for e, x in c.items()} if q != 'global_element_signature_dict' else c) for q, c in w.items()}
        tree(v, w, n, tol)
    if 'A' in ref:
        system(ref, results, maps['system'], sign['system'], flips, tol)


def tree(v, w, what, tol):
    if isinstance(v, dict):
        require(set(v) == set(w), f'{what}: keys')
        if all(isinstance(x, np.ndarray) for x in v.values()):
            same_dict(v, w, what, tol)
        else:
            for k in v:
                tree(v[k], w[k], f'{what} {k}', tol)
    elif isinstance(v, np.ndarray):
        near(w, v, what, tol)
    else:
        require(v == w, what, got=w, one_process=v)


def system(ref, results, to, sign, flips, tol):
    N = ref['gm']['system'][1]
    require(len(to) == N, 'every dof of the system is in an element')
    P = np.array([to[a] for a in range(N)])
    A, b = results[0]['A'], results[0]['b']
    require(A is not None and b is not None, 'the master rank has the gathered system')
    sg = np.array([sign[a] for a in range(N)])
    near(sg[:, None] * A[np.ix_(P, P)] * sg[None, :], ref['A'], 'the gathered matrix', tol)
    near(sg * b[P], ref['b'], 'the gathered right-hand side', tol)
    for r, res in enumerate(results):
        for (i, j), v in res['entries'].items():
            near(v, A[i, j], f'the entry {i, j} in rank {r}', tol, np.max(np.abs(A)))
        require(sorted(res['essential rows']) == sorted(results[0]['essential rows']), f'the essential rows in rank {r}')
    # rows that are rows of the identity matrix in the whole matrix; those shared by ranks may be missed, never invented
    ident = {i for i in range(N) if np.count_nonzero(A[i]) == 1 and A[i, i] == 1.}
    require(set(results[0]['essential rows']) <= ident, 'rows found to be rows of essential conditions', found=sorted(set(results[0]['essential rows']) - ident))
    require(all(('singular' in r) == ('singular' in ref) for r in results), 'whether the system is singular')
    if 'singular' in ref:
        return
    cond = ref['ranks']['condition number']
    bn = np.max(np.abs(ref['b']))
    for s, x0 in ref['x'].items():
        for r, res in enumerate(results):
            x = res['x'][s]
            require(np.array_equal(x, results[0]['x'][s]), f'{s}: the solution in rank {r} and in rank 0')
            if s == 'spsolve':
                near(sg * x[P], x0, f'{s}: the solution in rank {r}', max(1e-9, 1e-15 * cond))
            else:
                res_now = np.linalg.norm(A @ x - b)
                res_one = np.linalg.norm(ref['A'] @ x0 - ref['b'])
                if max(res_now, res_one) < 1e-6 * max(bn, 1e-12) or res['ranks'][f'{s} info'] == 0:
                    near(sg * x[P], x0, f'{s}: the solution in rank {r}', max(1e-7, 1e-6 * cond, 10 * cond * (res_now + res_one) / max(bn, 1e-12)))
    for f in ref['solution']:
        got = union(results, f, lambda r: r['solution'][f])
        got = {e: flips[f][e] * v for e, v in got.items()}
        same_dict(ref['solution'][f], got, f'the solution {f}', max(1e-8, 1e-14 * cond))


# ------------------------------------------------------------------------------------------------ the generated programs
T2 = ['crazy', 'crazy', 'crazy_multi', 'trf', 'ts', 'ren', 'backward_step', 'quad', 'rectangle', 'meshpy', 'data-quad', 'data-split']


def s_common(draw, S, spec):
    if spec['mesh']['type'] == 'data':      # (the new numbers follow the order of the elements, which depends on the partition)
        spec['mesh'].pop('renumbering', None)
    d = spec['dim']
    vec = [[float(s * (i == a)) for i in range(d)] for a in range(d) for s in (-1, 1)]
    return {'size': draw(S.sampled_from([2, 2, 3, 3, 4])), 't': draw(S.sampled_from([0, 1.5])), 'seed': draw(S.integers(0, 9999)),
            'ounv': [vec[i] for i in draw(S.lists(S.integers(0, 2 * d - 1), min_size=1, max_size=3, unique=True))],
            'fields': {'True': draw(fe.s_field(d, 1)), 'False': draw(fe.s_field(d, d))}}


def s_fields():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2, 2, 2, 3), libs=('msehtt',), maxp=(3, 3, 2), maxn=(4, 4, 2),
                              types={('msehtt', 2): T2, ('msehtt', 3): ['crazy0', 'crazy', 'crazy_multi']}))
        return dict(s_common(draw, S, spec), kind='fields', spec=spec, keys=sorted(draw(S.lists(S.integers(0, 5), min_size=1, max_size=3, unique=True)) + [0]))
    return mk()


def s_system():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(2,), libs=('msehtt',), maxp=(2, 3, 2), maxn=(3, 4, 2), types={('msehtt', 2): [x for x in T2 if x not in ('trf', 'chaotic')]}))
        return dict(s_common(draw, S, spec), kind='system', spec=spec, o=draw(S.sampled_from([O, I])), op=draw(S.integers(0, 1)), pre=draw(S.booleans()),
                    fix=draw(S.integers(0, 4)), schemes=draw(S.lists(S.sampled_from(['spsolve', 'gmres', 'lgmres']), min_size=1, max_size=3, unique=True)),
                    restart=draw(S.integers(8, 40)), x0=draw(S.integers(0, 1)), atol=draw(S.sampled_from([1e-6, 1e-9])), maxiter=draw(S.integers(1, 20)))
    return mk()


TOO_FEW = ['is distributed no element', 'number of elements is lower than SIZE', 'gets no element', 'have no elements']


def prop(case):
    import shutil
    import tempfile
    base = tempfile.mkdtemp(prefix='c26_', dir=boot.scratch())
    try:
        os.mkdir(os.path.join(base, '1'))
        os.mkdir(os.path.join(base, 'n'))
        ref = work(dict(case, dir=os.path.join(base, '1')))
        n = len(ref['elements'])
        size = min(case['size'], n)
        if size < 2:
            return {'nontrivial': False, 'excluded': True}
        while True:
            try:
                results = mpi_server.run(size, 'checks.C26', dict(case, dir=os.path.join(base, 'n')))
                break
            except core.Violation as e:
                if not any(m in str(e) for m in TOO_FEW) or n >= 8 * size:      # (documented: too few elements for so many ranks)
                    raise
                if size == 2:
                    return {'nontrivial': False, 'excluded': True}
                size = 2
        compare(ref, results)
        lab = fe.labels(case['spec']) + [f'{size} ranks', 'even' if n % size == 0 else 'uneven']
        return {'nontrivial': True, 'labels': lab + case.get('schemes', [])}
    finally:
        shutil.rmtree(base, ignore_errors=True)


SUBS = [
    Sub('fields', s_fields, prop, 60, 900, 'at least two ranks with elements'),
    Sub('system', s_system, prop, 60, 900, 'at least two ranks with elements'),
]
