"""C08: local matrices/vectors, their algebra, customization, assembly and linear systems equal the dense operations."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, HarnessError, require, close

ASSUMPTIONS = ['The gathering matrices are taken from the code (checked by C05).']

TYPES = {('msepy', 1): ['crazy'], ('msepy', 2): ['crazy', 'crazy_multi'], ('msepy', 3): ['crazy'],
         ('msehtt', 2): ['crazy', 'ts', 'ren', 'backward_step'], ('msehtt', 3): ['crazy0']}


def s_spec():
    return fe.s_spec(dims=(1, 2, 2, 3), maxp=(3, 2, 1), maxn=(4, 3, 2), types=TYPES, periodic=(False, False, True))


# ----------------------------------------------------------------------------------------- the library's objects
class Lib:
    def __init__(self, D):
        self.D = D
        self.htt = D.lib == 'msehtt'
        self.gms = {k: D.forms[k].cochain.gathering_matrix for k in D.forms}
        self.num = {k: {e: np.asarray(self.gms[k][e]) for e in D.elements} for k in D.forms}
        self.nd = {k: 1 + max(int(np.max(v)) for v in self.num[k].values()) for k in D.forms}
        if self.htt:
            from phyem.msehtt.tools.matrix.static.local import MseHttStaticLocalMatrix as Mt, bmat
            from phyem.msehtt.tools.vector.static.local import MseHttStaticLocalVector as Vc, concatenate
            from phyem.msehtt.tools.linear_system.static.local.main import MseHttStaticLocalLinearSystem as Ls
        else:
            from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix as Mt, bmat
            from phyem.msepy.tools.vector.static.local import MsePyStaticLocalVector as Vc, concatenate
            from phyem.msepy.tools.linear_system.static.local.main import MsePyStaticLocalLinearSystem as Ls
        self.Mt, self.Vc, self.Ls, self.bmat, self.concatenate = Mt, Vc, Ls, bmat, concatenate

    def n(self, key, e):
        return len(self.num[key][e])

    def matrix(self, row, col, kind, seed):
        """(local matrix, {element: dense})"""
        from scipy.sparse import csr_matrix, csc_matrix
        r = np.random.default_rng(seed)
        D = self.D
        els = D.elements
        g0, g1 = self.gms[row], self.gms[col]
        sp = csr_matrix if seed % 2 else csc_matrix

        def rnd(m, n):
            A = np.round(r.normal(size=(m, n)), 3) * (r.random((m, n)) < r.choice([.2, .6, 1.]))
            if row == col and kind[0] == 'd':
                A = A + np.diag(np.full(n, 2. * n))
            return A
        what = kind.split(':')[-1]
        if what == 'mass' and row == col:
            d = {e: D.M(row, e) for e in els}
            if self.htt:
                f = D.forms[row]
                m, ck = f.space.mass_matrix(f.degree)
                return self.Mt(m, g0, g0, cache_key=ck), d
            return D.forms[row].matrix.mass, d
        if what == 'incidence' and row == (col[0] + 1, col[1]):
            d = {e: D.E(col, e) for e in els}
            f = D.forms[col]
            if self.htt:
                m, ck = f.space.incidence_matrix(f.degree)
                return self.Mt(m, g0, g1, cache_key=ck), d
            return self.Mt(f.space.incidence_matrix(f.degree), g0, g1), d
        if what == 'zero':
            d = {e: np.zeros((self.n(row, e), self.n(col, e))) for e in els}
            return (self.Mt(0, g0, g1, cache_key='zero') if self.htt else self.Mt(0, g0, g1)), d
        if what == 'constant' and len({(self.n(row, e), self.n(col, e)) for e in els}) == 1:
            A = rnd(self.n(row, els[0]), self.n(col, els[0]))
            d = {e: A for e in els}
            if self.htt:
                return self.Mt({e: sp(A) for e in els}, g0, g1, cache_key={e: 'k' for e in els}), d
            return self.Mt(sp(A), g0, g1), d
        if what == 'keyed':
            cls = {e: (int(r.integers(3)), self.n(row, e), self.n(col, e)) for e in els}
            mats = {c: rnd(c[1], c[2]) for c in sorted(set(cls.values()))}
            d = {e: mats[cls[e]] for e in els}
            keys = {e: 'c%d-%d-%d' % cls[e] for e in els}
            return self.Mt(lambda e: sp(d[e]), g0, g1, cache_key=(keys if self.htt and seed % 3 else (lambda e: keys[e]))), d
        d = {e: rnd(self.n(row, e), self.n(col, e)) for e in els}
        data = {e: sp(A) for e, A in d.items()}
        if what == 'unique':
            return self.Mt(lambda e: data[e], g0, g1, cache_key='unique'), d
        return self.Mt(data, g0, g1), d

    def vector(self, key, kind, seed, t=0.):
        r = np.random.default_rng(seed)
        D, g = self.D, self.gms[key]
        d = {e: np.round(r.normal(size=self.n(key, e)), 3) for e in D.elements}
        if kind == 'cochain':
            v, glob = fe.rng_cochains(D, key, seed)
            D.set_cochain(key, t, v)
            return D.forms[key].cochain.static_vec(t), v
        if kind == 'zero':
            return self.Vc(0, g), {e: 0. * v for e, v in d.items()}
        if kind == 'number':
            return self.Vc(1.5, g), {e: 0. * v + 1.5 for e, v in d.items()}
        if kind == 'call':
            return self.Vc(lambda e: d[e].copy(), g), {e: v.copy() for e, v in d.items()}
        if self.htt:
            return self.Vc({e: v.copy() for e, v in d.items()}, g), d
        return self.Vc(np.array([d[e] for e in D.elements]), g), d

    def glob(self, d, row, col):
        A = np.zeros((self.nd[row], self.nd[col]))
        for e in self.D.elements:
            np.add.at(A, (self.num[row][e][:, None], self.num[col][e][None, :]), d[e])
        return A

    def globv(self, d, key):
        v = np.zeros(self.nd[key])
        for e in self.D.elements:
            np.add.at(v, self.num[key][e], d[e])
        return v


def dense(A):
    return (A.M if hasattr(A, 'M') else A._M).toarray()


def densev(b):
    return np.array(b.V if hasattr(b, 'V') else b._v)


def s_algebra():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(s_spec())
        keys = fe.space_keys(spec['dim'])
        o = draw(S.sampled_from([fe.I, fe.O]))
        keys = [k for k in keys if k[1] == o] if spec['dim'] > 1 else keys[:2]
        ks = S.integers(0, len(keys) - 1)
        kinds = S.sampled_from(['mass', 'incidence', 'constant', 'keyed', 'keyed', 'unique', 'dict', 'd:keyed', 'd:dict', 'zero'])
        leaves = draw(S.lists(S.tuples(ks, ks, kinds, S.integers(0, 10 ** 6), S.booleans()), min_size=1, max_size=4))
        vecs = draw(S.lists(S.tuples(ks, S.sampled_from(['cochain', 'zero', 'number', 'array', 'array']),
                                     S.integers(0, 10 ** 6)), min_size=1, max_size=3))
        ops = draw(S.lists(S.tuples(S.sampled_from(
            ['neg', 'T', 'mul', 'add', 'sub', 'matmul', 'inv', 'matvec', 'vneg', 'vmul', 'vadd', 'vsub', 'read', 'assemble',
             'vassemble', 'threshold']), S.integers(0, 30), S.integers(0, 30),
            S.sampled_from([2, -1, 0.5, 3.25, 1e-9, 1., 0, 1.0000001])),
            min_size=2, max_size=10))
        return {'spec': spec, 'keys': [list(k) for k in keys], 'leaves': [list(x) for x in leaves], 'vecs': [list(x) for x in vecs],
                'ops': [list(x) for x in ops], 'customize': draw(S.sampled_from([0, 0, 0, 1])), 'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_algebra(case):
    spec = case['spec']
    keys = [tuple(k) for k in case['keys']]
    D = fe.Disc(spec, keys=keys)
    L = Lib(D)
    els = D.elements
    r = np.random.default_rng(case['seed'])
    mats, vecs = [], []

    def check_m(k, how, which=None):
        A, d, row, col, txt = mats[k]
        order = [els[i] for i in r.permutation(len(els))] if which is None else which
        for e in order:
            got = A[e].toarray()
            s = max(1., float(np.max(np.abs(d[e]), initial=0.)))
            close(got, d[e], f'{how}: {txt} in element {e}', 1e-10, 1e-12, scale=s)

    def check_v(k, how):
        v, d, key, txt = vecs[k]
        for e in els:
            close(np.asarray(v[e]).ravel(), d[e], f'{how}: {txt} in element {e}', 1e-10, 1e-12)
    for n, (a, b, kind, seed, early) in enumerate(case['leaves']):
        A, d = L.matrix(keys[a], keys[b], kind, seed)
        txt = f'A{n}'
        if case['customize'] and L.htt and len(els) > 1 and n == 0:
            # customized leaves: derived matrices have to see that per element
            dof = int(L.num[keys[a]][els[int(r.integers(len(els)))]][0])
            d = {e: x.copy() for e, x in d.items()}
            A.customize.zero_row(dof)
            for e in els:
                d[e][L.num[keys[a]][e] == dof] = 0
        mats.append((A, d, keys[a], keys[b], txt))
        if early:
            check_m(n, 'leaf')
    for n, (a, kind, seed) in enumerate(case['vecs']):
        v, d = L.vector(keys[a], kind, seed, t=float(n))
        vecs.append((v, d, keys[a], f'v{n}'))
    n_ops, deep = 0, 0
    for op, i, j, c in case['ops']:
        A, d, row, col, txt = mats[i % len(mats)]
        v, dv, key, tv = vecs[i % len(vecs)]
        if op == 'neg':
            new = (-A, {e: -x for e, x in d.items()}, row, col, f'-({txt})')
        elif op == 'T':
            new = (A.T, {e: x.T for e, x in d.items()}, col, row, f'({txt}).T')
        elif op == 'mul':
            new = (c * A, {e: c * x for e, x in d.items()}, row, col, f'{c}*({txt})')
        elif op in ('add', 'sub'):
            if op == 'sub' and L.htt:
                continue
            part = [m for m in mats if m[2] == row and m[3] == col]
            B, db, _, _, tb = part[j % len(part)]
            s = 1 if op == 'add' else -1
            new = (A + B if s == 1 else A - B, {e: d[e] + s * db[e] for e in els}, row, col, f'({txt}){"+" if s == 1 else "-"}({tb})')
        elif op == 'matmul':
            part = [m for m in mats if m[2] == col]
            if not part:
                continue
            B, db, _, cb, tb = part[j % len(part)]
            new = (A @ B, {e: d[e] @ db[e] for e in els}, row, cb, f'({txt})@({tb})')
        elif op == 'inv':
            if not L.htt or row != col or any(x.size == 0 or np.linalg.cond(x) > 1e5 for x in d.values()):
                continue
            new = (A.inv(), {e: np.linalg.inv(x) for e, x in d.items()}, row, row, f'inv({txt})')
        elif op == 'matvec':
            part = [w for w in vecs if w[2] == col]
            if not part:
                continue
            w, dw, _, tw = part[j % len(part)]
            vecs.append((A @ w, {e: d[e] @ dw[e] for e in els}, row, f'({txt})@({tw})'))
            check_v(len(vecs) - 1, op)
            n_ops += 1
            continue
        elif op in ('vneg', 'vmul', 'vadd', 'vsub'):
            if op == 'vsub' and not L.htt:
                continue
            if op == 'vneg':
                # (a cochain vector of msepy bears no negation; a local vector does)
                new = (-v if type(v) is L.Vc or L.htt else L.Vc(np.array([dv[e] for e in els]), L.gms[key]).__neg__(),
                       {e: -x for e, x in dv.items()}, key, f'-({tv})') if not (L.htt and type(v) is not L.Vc) else None
            elif op == 'vmul':
                new = (c * v, {e: c * x for e, x in dv.items()}, key, f'{c}*({tv})') if type(v) is L.Vc else None
            else:
                part = [w for w in vecs if w[2] == key and type(w[0]) is L.Vc]
                if type(v) is not L.Vc or not part:
                    continue
                w, dw, _, tw = part[j % len(part)]
                s = 1 if op == 'vadd' else -1
                new = (v + w if s == 1 else v - w, {e: dv[e] + s * dw[e] for e in els}, key, f'({tv})+-({tw})')
            if new is not None:
                vecs.append(new)
                check_v(len(vecs) - 1, op)
                n_ops += 1
            continue
        elif op == 'read':
            check_m(i % len(mats), 'read again', [els[j % len(els)]])
            continue
        elif op == 'threshold' and L.htt:
            th = 0.1
            tot = {e: np.where(np.abs(d[e]) < th, 0, d[e]) for e in els}
            if any(np.any(np.abs(np.abs(d[e]) - th) < 1e-8) for e in els):
                continue
            got = dense(A.assemble(threshold=th))
            close(got, L.glob(tot, row, col), f'assembled {txt} with a threshold', 1e-10, 1e-11, scale=1.)
            check_m(i % len(mats), 'after an assembling with threshold')
            continue
        elif op in ('assemble', 'threshold'):
            got = dense(A.assemble(format='csr' if j % 2 else 'csc'))
            close(got, L.glob(d, row, col), f'assembled {txt}', 1e-10, 1e-11, scale=1.)
            continue
        elif op == 'vassemble':
            close(densev(v.assemble()), L.globv(dv, key), f'assembled {tv}', 1e-10, 1e-11, scale=1.)
            continue
        if max(float(np.max(np.abs(x), initial=0.)) for x in new[1].values()) > 1e7:
            continue
        mats.append(new)
        n_ops += 1
        if j % 3:
            check_m(len(mats) - 1, op)
    for k in range(len(mats)):
        check_m(k, 'at the end')
    for k in range(len(vecs)):
        check_v(k, 'at the end')
    return {'nontrivial': n_ops >= 2 and len(els) > 1, 'labels': fe.labels(spec)}


# ---------------------------------------------------------------------------------------------------- systems
def s_system():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(s_spec())
        o = draw(S.sampled_from([fe.I, fe.O]))
        keys = [k for k in fe.space_keys(spec['dim']) if k[1] == o] if spec['dim'] > 1 else fe.space_keys(1)[:2]
        nb = draw(S.integers(1, 3))
        blocks = [draw(S.integers(0, len(keys) - 1)) for _ in range(nb)]
        kinds = S.sampled_from(['mass', 'incidence', 'constant', 'keyed', 'dict', 'none', 'none'])
        A = [[[('d:' if i == j else '') + draw(S.sampled_from(['mass', 'keyed', 'dict', 'constant'])
                                               if i == j else kinds), draw(S.integers(0, 10 ** 6))]
              for j in range(nb)] for i in range(nb)]
        b = [[draw(S.sampled_from(['array', 'call', 'cochain', 'zero', 'none'])), draw(S.integers(0, 10 ** 6))] for _ in range(nb)]
        big = S.integers(0, 10 ** 6)
        ops = draw(S.lists(S.tuples(S.sampled_from(['bc', 'bc', 'set_dof', 'set_dof', 'set_local', 'set_ij', 'again']),
                                    big, S.sampled_from([1., -2.5, 0., 0.75]), S.booleans()), max_size=5))
        return {'spec': spec, 'keys': [list(k) for k in keys], 'blocks': blocks, 'A': A, 'b': b, 'ops': [list(x) for x in ops],
                'finish': draw(S.sampled_from(['plain', 'plain', 'jacobi', 'enlarge', 'raw'])), 'seed': draw(big)}
    return mk()


def prop_system(case):
    spec, blocks = case['spec'], case['blocks']
    keys = [tuple(k) for k in case['keys']]
    D = fe.Disc(spec, keys=keys)
    L = Lib(D)
    els = D.elements
    nb = len(blocks)
    kb = [keys[i] for i in blocks]
    A = [[None] * nb for _ in range(nb)]
    dA = [[None] * nb for _ in range(nb)]
    for i in range(nb):
        for j in range(nb):
            kind, seed = case['A'][i][j]
            if not kind.endswith('none'):
                A[i][j], dA[i][j] = L.matrix(kb[i], kb[j], kind, seed)
    b, db, bkeep = [None] * nb, [None] * nb, {}
    for i in range(nb):
        kind, seed = case['b'][i]
        if kind != 'none':
            b[i], db[i] = L.vector(kb[i], kind, seed, t=7. + i)
            if kind == 'cochain':
                bkeep[i] = (7. + i, {e: v.copy() for e, v in db[i].items()})
    off = np.concatenate([[0], np.cumsum([L.nd[k] for k in kb])])
    N = int(off[-1])
    MA = np.zeros((N, N))
    Mb = np.zeros(N)
    for i in range(nb):
        for j in range(nb):
            if A[i][j] is not None:
                MA[off[i]:off[i + 1], off[j]:off[j + 1]] = L.glob(dA[i][j], kb[i], kb[j])
        if b[i] is not None:
            Mb[off[i]:off[i + 1]] = L.globv(db[i], kb[i])
    # the blocks' own customization: what applying an essential boundary condition does
    fill = any(op[0] == 'bc' for op in case['ops'])
    if fill:
        for i in range(nb):
            for j in range(nb):
                if A[i][j] is None:
                    A[i][j], dA[i][j] = L.matrix(kb[i], kb[j], 'zero', 0)
            if b[i] is None:
                b[i], db[i] = L.vector(kb[i], 'zero', 0)
    n_ops = 0

    def some_dofs(i, r, nmax=6):
        """dofs of the unknown i, often shared by elements; neighbours in one element"""
        e = els[int(r.integers(len(els)))]
        loc = L.num[kb[i]][e]
        g = r.choice(loc, size=min(len(loc), int(r.integers(1, nmax))), replace=bool(r.integers(2)))
        if r.integers(2):
            g = np.concatenate([g, r.integers(0, L.nd[kb[i]], size=int(r.integers(1, 4)))])
        return [int(x) for x in g]
    for op, seed, val, flag in case['ops']:
        if op != 'bc':
            continue
        r = np.random.default_rng(seed)
        i = int(r.integers(nb))
        g = some_dofs(i, r)
        values = {x: round(float(r.normal()), 3) for x in g}
        if L.htt:
            for j in range(nb):
                (A[i][j].customize.identify_rows if i == j else A[i][j].customize.zero_rows)(g)
        else:
            for j in range(nb):
                (A[i][j].customize.identify_diagonal if i == j else A[i][j].customize.set_zero)(g)
        if flag:
            b[i].customize.set_values(g, val)
            values = {x: val for x in g}
        else:
            b[i].customize.set_values(g, [values[x] for x in g])
        for x in g:
            MA[off[i] + x, :] = 0
            MA[off[i] + x, off[i] + x] = 1
            Mb[off[i] + x] = values[x]
        n_ops += 1
    for i in range(nb):     # blocks as they are
        for j in range(nb):
            if A[i][j] is not None:
                close(dense(A[i][j].assemble()), MA[off[i]:off[i + 1], off[j]:off[j + 1]], f'block {i},{j}', 1e-12, 1e-12, scale=1.)
        if b[i] is not None:
            close(densev(b[i].assemble()), Mb[off[i]:off[i + 1]], f'block {i} of b', 1e-12, 1e-12, scale=1.)
    tx = [float(i) for i in range(nb)]
    x = [D.forms[kb[i]].cochain.static_vec(tx[i]) for i in range(nb)]
    ls = L.Ls(A, x, b)
    # numbering of the chained unknowns
    cg = ls.global_gathering_matrices[1]
    where = -np.ones(N, dtype=int)
    seen = {}
    for e in els:
        loc = np.concatenate([off[i] + L.num[kb[i]][e] for i in range(nb)])
        ch = np.asarray(cg[e])
        require(len(ch) == len(loc), f'the chained numbering has {len(ch)} local dofs in element {e}, {len(loc)} expected')
        for a, c in zip(loc, ch):
            require(0 <= c < N, f'chained dof {c} is out of range (0..{N - 1})')
            require(where[a] in (-1, c), f'dof {a} has two chained numbers {where[a]} and {c}')
            require(seen.setdefault(int(c), int(a)) == a, f'the chained number {c} is that of two dofs: {seen[int(c)]} and {a}')
            where[a] = c
    require(np.all(np.sort(where) == np.arange(N)), 'the chained numbering is not one from 0 to n-1')
    inv = np.argsort(where)          # chained number -> model number

    def compare(what, A_, b_):
        close(A_[np.ix_(where, where)], MA, f'{what}: assembled A', 1e-12, 1e-12, scale=1.)
        close(b_[where], Mb, f'{what}: assembled b', 1e-12, 1e-12, scale=1.)
    als = ls.assemble()
    compare('system', dense(als.A), densev(als.b))
    for op, seed, val, flag in case['ops']:
        r = np.random.default_rng(seed)
        if op == 'again':
            als = ls.assemble()
            compare('assembled again', dense(als.A), densev(als.b))
            continue
        if op == 'bc':
            continue
        i = int(r.integers(nb))
        e = els[int(r.integers(len(els)))]
        l = int(r.integers(L.n(kb[i], e)))
        a = int(off[i] + L.num[kb[i]][e][l])
        if op == 'set_dof':
            c = int(r.integers(N))
            a = int(inv[c])
            ls.customize.set_dof(c - N if flag else c, val)
        elif op == 'set_local':
            ls.customize.set_local_dof(i, e, l, val)
        else:
            if L.htt:
                continue
            ls.customize.set_local_dof_ij_of_unknown_k_to_value(e - len(els) if flag else e, l - L.n(kb[i], e) if seed % 2 else l, i, val)
        MA[a] = 0
        MA[a, a] = 1
        Mb[a] = val
        n_ops += 1
        als = ls.assemble()
        compare(f'after {op}', dense(als.A), densev(als.b))
    # other assemblings
    if L.htt and case['finish'] == 'enlarge':
        i = int(case['seed'] % nb)
        g = int(case['seed'] % L.nd[kb[i]])
        big = ls.assemble(customizations=[{'A': ('new_EndZeroRowCol_with_a_one_for_global_dof', i, g), 'b': ('add_a_value_at_the_end', 0)}])
        B, c = dense(big.A), densev(big.b)
        require(B.shape == (N + 1, N + 1) and c.shape == (N + 1,), f'enlarged system: shapes {B.shape} {c.shape}')
        compare('enlarged system', B[:N, :N], c[:N])
        z = np.zeros(N)
        z[where[off[i] + g]] = 1
        close(B[:N, N], z, 'the new column of an enlarged system', 0, 1e-14)
        close(B[N, :N], z, 'the new row of an enlarged system', 0, 1e-14)
        require(B[N, N] == 0 and c[N] == 0, 'the corner of an enlarged system')
    ok = np.linalg.cond(MA) < 1e6
    if ok:
        sol = np.linalg.solve(MA, Mb)
        if L.htt and case['finish'] == 'jacobi':
            got = ls.assemble(preconditioner='Jacobian').solve('spsolve')[0]
        elif L.htt:
            got = ls.assemble().solve('spsolve')[0]
        else:
            got = ls.assemble().solve()[0]
        close(np.asarray(got)[where], sol, 'solution', 1e-8, 1e-10, scale=1.)
    # the update of the unknowns
    r = np.random.default_rng(case['seed'])
    y = r.normal(size=N)
    ls.x.update(y[inv])
    for i in range(nb):
        if any(kb[j] == kb[i] and tx[j] == tx[i] for j in range(i)):
            continue
        if L.htt and tx[i] not in D.forms[kb[i]].cochain:
            continue          # (old cochains may be cleaned away)
        got = D.get_cochain(kb[i], tx[i])
        for e in els:
            close(got[e], y[off[i] + L.num[kb[i]][e]], f'unknown {i} after the update, element {e}', 0, 1e-14)
    if not (L.htt and len(kb) > 1):   # (old cochains may be cleaned away)
        for i, (t, keep) in bkeep.items():
            got = D.get_cochain(kb[i], t)
            for e in els:
                close(got[e], keep[e], f'the cochain which served as right-hand side {i}', 0, 0)
    return {'nontrivial': n_ops >= 1 and len(els) > 1, 'labels': fe.labels(spec) + [case['finish']]}


def s_values():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(libs=('msepy',), dims=(1, 2), maxp=(3, 2, 1), maxn=(3, 3, 2), types=TYPES, periodic=(False,)))
        return {'spec': spec, 'o': draw(S.sampled_from([fe.I, fe.O])), 'seed': draw(S.integers(0, 10 ** 6)),
                'k': draw(S.integers(0, 2)), 'kind': draw(S.sampled_from(['mass', 'dict', 'constant', 'keyed'])),
                'zero': draw(S.booleans()), 'n': draw(S.integers(1, 5))}
    return mk()


def prop_values(case):
    """M[rows, cols] = vals of a local matrix for dofs which are in one element only."""
    spec = case['spec']
    d = spec['dim']
    key = (min(case['k'], d), case['o'])
    D = fe.Disc(spec, keys=[key])
    L = Lib(D)
    els = D.elements
    A, dd = L.matrix(key, key, case['kind'], case['seed'])
    M = L.glob(dd, key, key)
    r = np.random.default_rng(case['seed'])
    e = els[int(r.integers(len(els)))]
    count = np.bincount(np.concatenate([L.num[key][e] for e in els]))
    own = [int(g) for g in L.num[key][e] if count[g] == 1]
    if not own:
        return {'nontrivial': False, 'labels': ['no dof of one element only']}
    pairs = {}
    for _ in range(case['n']):
        pairs[(own[int(r.integers(len(own)))], own[int(r.integers(len(own)))])] = round(float(r.normal()), 3)
    rows, cols, vals = [p[0] for p in pairs], [p[1] for p in pairs], list(pairs.values())
    if case['zero']:
        A.customize.set_values_and_zero_rest(rows, cols, vals)
        M[rows] = 0
    else:
        A.customize.set_values(rows, cols, vals)
    for a, b, v in zip(rows, cols, vals):
        M[a, b] = v
    close(dense(A.assemble()), M, f'M[{rows}, {cols}] = {vals}', 1e-13, 1e-13)
    return {'nontrivial': len(pairs) > 1, 'labels': fe.labels(spec)}


SUBS = [
    Sub('algebra', s_algebra, prop_algebra, 3200, 32000, 'at least two operations on several elements'),
    Sub('system', s_system, prop_system, 3200, 32000, 'a customized system on several elements'),
    Sub('values', s_values, prop_values, 600, 6000, 'at least two entries set'),
]
