"""C09: linear solvers return what they claim: converged solutions, minimal residuals over the Krylov spaces, the given initial guess."""
import numpy as np

from lib import boot, core, fe, mpi_server
from lib.core import Sub, require, close
from checks.C08 import Lib, dense, densev

ASSUMPTIONS = ['Residual histories are compared where rounding does not dominate (residuals above 1e-6 of the first one, condition numbers below 1e6).']


# ------------------------------------------------------------------------------------------------ random systems
def make(case):
    """(A, b, x0) of the case"""
    r = np.random.default_rng(case['seed'])
    n, kind = case['n'], case['kind']
    Q = np.linalg.qr(r.normal(size=(n, n)))[0]
    if kind == 'spd':
        A = Q @ np.diag(r.uniform(1, case['spread'], n)) @ Q.T
    elif kind == 'general':
        A = r.normal(size=(n, n)) + case['spread'] * np.eye(n)
    elif kind == 'saddle':
        m = n // 2
        B = r.normal(size=(n - m, m)) * (r.random((n - m, m)) < .7) if m else np.zeros((n, 0))
        M = np.diag(r.uniform(1, case['spread'], n - m))
        A = np.block([[M, B], [B.T, np.zeros((m, m))]]) if m else M
        A += 1e-3 * np.diag(np.r_[np.zeros(n - m), np.ones(m)])
    elif kind == 'clusters':        # few distinct eigenvalues: the Krylov space ends early
        A = np.diag(r.choice([1., 2., -3., .5], n))
        if case['seed'] % 2:
            A = np.round(A * 4) / 4
        else:
            A = Q @ A @ Q.T
    elif kind == 'permutation':
        A = np.eye(n)[r.permutation(n)] * r.choice([1., 2.], n)
    elif kind == 'sparse':
        A = np.diag(r.uniform(1, 2, n)) + r.normal(size=(n, n)) * (r.random((n, n)) < 2 / n) * .4
    elif kind == 'singular':
        A = Q @ np.diag(np.r_[np.zeros(1), r.uniform(1, case['spread'], n - 1)]) @ Q.T
    if case.get('rows'):            # some essential conditions
        for i in r.integers(0, n, case['rows']):
            A[i] = 0
            A[i, i] = 1.
    if kind == 'sparse' or kind == 'saddle':
        A[np.abs(A) < 1e-12] = 0
    b = {'random': r.normal(size=n), 'unit': np.eye(n)[case['seed'] % n], 'zero': np.zeros(n), 'range': A @ r.normal(size=n),
         'small': 1e-3 * r.normal(size=n)}[case['b']]
    x0 = {'zero': np.zeros(n), 'random': r.normal(size=n), 'exact': np.linalg.lstsq(A, b, rcond=None)[0],
          'near': np.linalg.lstsq(A, b, rcond=None)[0] + 1e-3 * r.normal(size=n)}[case['x0']]
    return A, b, x0


def options(case):
    kw = {'atol': case['atol'], 'maxiter': case['maxiter']}
    if case['scheme'] == 'gmres':
        kw['restart'] = case['m']
    else:
        kw['inner_m'], kw['outer_k'] = case['m'], case['k']
    return kw


def work(case):
    """The solve in this rank: A and b are sums over the ranks."""
    boot.phyem()
    from scipy.sparse import csr_matrix
    from phyem.src.config import RANK, SIZE
    from phyem.msehtt.tools.linear_system.static.global_ import solve as solve_
    from phyem.msehtt.tools.linear_system.static.global_.main import MseHttLinearSystem
    from phyem.msehtt.tools.linear_system.static.global_.solvers import mpi_py
    from phyem.msehtt.tools.matrix.static.global_ import MseHttGlobalMatrix
    from phyem.msehtt.tools.vector.static.global_distributed import MseHttGlobalVectorDistributed
    from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered
    solve_.___local_setting___['safe first try'] = 7 if case.get('first') else 0
    A, b, x0 = make(case)
    n = len(b)
    r = np.random.default_rng(case['seed'] + 1)
    if SIZE > 1:
        who = r.integers(0, SIZE, n)                  # rows shared by ranks as rows of dofs on the interfaces are
        part = np.array([np.where(who == q, 1., 0.) for q in range(SIZE)])
        for i in r.integers(0, n, n // 3):
            if np.count_nonzero(A[i]) > 1:
                part[:, i] = r.dirichlet(np.ones(SIZE))
        A, b = part[RANK][:, None] * A, part[RANK] * b        # (their sums are A and b)
    Am, bm = csr_matrix(A), b.copy()
    keep = Am.copy()
    ls = MseHttLinearSystem(MseHttGlobalMatrix(Am), MseHttGlobalVectorDistributed(bm))
    g = MseHttGlobalVectorGathered(x0.copy())
    mpi_py.___clean_cache___()
    x, message, info = ls.solve(case['scheme'], x0=0 if case['x0'] == 'zero' else g, beta_cache_key='B', **options(case))
    betas = list(mpi_py.___beta_cache___.get('B', []))
    mpi_py.___clean_cache___()
    mpi_py.___clean_cache___()
    same = bool(abs(Am - keep).nnz == 0 and np.array_equal(bm, b))
    return {'x': np.array(x), 'info': info, 'betas': betas, 'same': same, 'x0 kept': bool(np.array_equal(g.V, x0)), 'message': message}


def krylov(A, v, m):
    """An orthonormal basis of span(v, Av, ...), at most m vectors."""
    V = []
    for _ in range(m):
        w = v.copy()
        n0 = np.linalg.norm(w)
        for _ in range(2):
            for q in V:
                w -= (q @ w) * q
        if n0 == 0 or np.linalg.norm(w) < 1e-12 * n0:
            break
        V.append(w / np.linalg.norm(w))
        v = A @ V[-1]
    return np.array(V).T if V else np.zeros((len(A), 0))


def best(A, r, W):
    """(correction, residual norm): the smallest residual over the columns of W"""
    if W.shape[1] == 0:
        return np.zeros(len(r)), np.linalg.norm(r)
    y = np.linalg.lstsq(A @ W, r, rcond=1e-13)[0]
    return W @ y, np.linalg.norm(r - A @ (W @ y))


def loss(A, v, m, Z=()):
    """How far classical Gram-Schmidt in floating-point arithmetic is from orthogonal on this system."""
    V, Z, top = [v / max(np.linalg.norm(v), 1e-300)], list(Z), 0.
    for j in range(m + len(Z) - 1):
        w0 = A @ (V[-1] if j < m else Z[j - m] / max(np.linalg.norm(Z[j - m]), 1e-300))
        Q = np.array(V)
        w = w0 - Q.T @ (Q @ w0)
        top = max(top, np.linalg.norm(w0))
        if np.linalg.norm(w) <= 1e-13 * top:
            break
        V.append(w / np.linalg.norm(w))
    Q = np.array(V)
    return np.max(np.abs(Q @ Q.T - np.eye(len(Q))))


def reference(A, b, x0, case, cycles):
    """The residual norms at the starts of the cycles, as long as the recurrence is numerically sound."""
    x, out, Z = x0.copy(), [], []
    for it in range(cycles):
        r = b - A @ x
        out.append(np.linalg.norm(r))
        if case['scheme'] == 'gmres':
            W = krylov(A, r, case['m'])
            bad = loss(A, r, case['m'])
        else:
            k = min(it, case['k'])
            W = krylov(A, r, case['m'] + case['k'] - k)
            bad = loss(A, r, case['m'] + case['k'] - k, Z[::-1][:k])
            W = np.column_stack([W] + Z[::-1][:k]) if k else W
        dx, _ = best(A, r, W)
        Z.append(dx)
        x = x + dx
        if bad > 1e-7:
            break
    return out


def prop_krylov(case):
    A, b, x0 = make(case)
    size = case['size']
    if size == 1:
        results = [work(case)]
    else:
        results = mpi_server.run(size, 'checks.C09', case)
    R = results[0]
    betas, x, info = R['betas'], R['x'], R['info']
    what = f"{case['scheme']}"
    require(x.shape == b.shape and bool(np.all(np.isfinite(x))), f'{what}: the solution is finite', key='finite solution')
    for i, r in enumerate(results):
        require(np.array_equal(r['x'], x) and r['info'] == info, f'{what}: rank {i} and rank 0 get the same solution and info', key='ranks agree')
        require(r['same'], f'{what}: the system is not changed', key='system kept')
        require(r['x0 kept'] or case.get('first'), f'{what}: the vector given as the initial guess is not changed', key='x0 kept')
    res = np.linalg.norm(b - A @ x)
    slack = 1e-12 * (np.linalg.norm(A) * np.linalg.norm(x) + np.linalg.norm(b))
    cycles = len(betas) - 1
    forced = isinstance(case['maxiter'], str)
    limit = int(case['maxiter'])
    require(abs(betas[-1] - res) <= slack + 1e-9 * res, f'{what}: the last residual {betas[-1]:.3e} of the history, that of the solution {res:.3e}', key='history')
    require(cycles <= limit, f'{what}: {cycles} cycles, at most {limit}', key='cycles')
    if forced:
        require(cycles == limit, f'{what}: {cycles} cycles, {limit} are forced', key='cycles')
    else:
        if info == 0:
            require(res < case['atol'] + slack, f'{what}: info is 0, the residual {res:.3e} is not below atol {case["atol"]:.0e}', key='converged')
        else:
            require(info > 0, f'{what}: info {info}')
            require(res >= case['atol'] - slack, f'{what}: residual {res:.3e} below atol {case["atol"]:.0e}, info {info}', key='converged')
            slow = len(betas) > 1 and betas[-2] - betas[-1] < 2e-6 * betas[-2]
            require(cycles == limit or slow, f'{what}: stopped after {cycles} cycles of {limit} with residuals {betas[-2:]}', key='stopped early')
        if res < case['atol'] - slack:
            require(info == 0, f'{what}: converged, info {info}', key='converged')
        for a in betas[:-1]:
            require(a >= case['atol'], f'{what}: a residual {a:.3e} below atol {case["atol"]:.0e} did not stop the iterations', key='stop')
    floor = 1e-6 * max(betas[0], 1e-300) + 100 * slack
    start = x0.copy()
    rows = [i for i in range(len(b)) if np.count_nonzero(A[i]) == 1 and A[i, i] == 1.]
    if case.get('first'):                 # the library may first set the dofs of the essential rows
        start[rows] = b[rows]
    ok = np.linalg.cond(A) < 1e6 if case['kind'] != 'singular' else False
    ref = reference(A, b, start, case, len(betas))
    for a, c in zip(betas, betas[1:len(ref)]):
        require(c <= a * (1 + 1e-6) + floor, f'{what}: residuals increase {betas}', key='monotone')
    if ok:
        q = np.random.default_rng(case['seed'] + 3)
        other = [reference(A * (1 + 1e-12 * q.normal(size=A.shape)), b, start, case, len(betas)) for _ in range(2)]      # (restarts amplify rounding)
        for i, (a, c) in enumerate(zip(betas, ref)):
            if any(i >= len(_) for _ in other):
                break
            shaky = 20 * max(abs(_[i] - c) for _ in other)
            if c < floor:
                require(a < 10 * floor + shaky, f'{what}: residual {a:.3e} after {i} cycles, over the Krylov space {c:.3e} is possible', key='minimal residual')
                break
            require(abs(a - c) <= 1e-4 * c + 1e-8 * betas[0] + shaky,
                    f'{what}: residual {a:.6e} after {i} cycles, the smallest over the Krylov spaces is {c:.6e}', key='minimal residual')
        if info == 0 and not forced:
            sol = np.linalg.solve(A, b)
            bound = case['atol'] / np.linalg.svd(A, compute_uv=False)[-1]
            require(np.linalg.norm(x - sol) <= 1.01 * bound + 1e-9 * np.linalg.norm(sol) + 1e-12, f'{what}: the solution', key='solution')
    return {'nontrivial': cycles >= 1, 'labels': [case['scheme'], case['kind'], f'{size} ranks', 'converged' if info == 0 else 'stopped'] +
            (['breakdown'] if case['m'] >= case['n'] else []) + (['several cycles'] if cycles > 1 else [])}


def s_krylov():
    S = fe.st()

    @S.composite
    def mk(draw):
        n = draw(S.one_of(S.integers(1, 12), S.integers(2, 40)))
        return {'n': n, 'kind': draw(S.sampled_from(['spd', 'general', 'saddle', 'clusters', 'permutation', 'sparse', 'sparse', 'singular'])),
                'spread': draw(S.sampled_from([2., 10., 50.])), 'b': draw(S.sampled_from(['random', 'random', 'unit', 'range', 'small', 'zero'])),
                'x0': draw(S.sampled_from(['zero', 'random', 'near', 'exact'])), 'seed': draw(S.integers(0, 10 ** 6)),
                'scheme': draw(S.sampled_from(['gmres', 'lgmres'])), 'm': draw(S.one_of(S.integers(1, 6), S.integers(1, max(2, n)), S.integers(n, n + 20))),
                'k': draw(S.integers(0, 4)), 'atol': draw(S.sampled_from([1e-3, 1e-5, 1e-8, .5])),
                'maxiter': draw(S.sampled_from([1, 2, 5, 12, 40, '3', '1'])), 'rows': draw(S.sampled_from([0, 0, 0, 1, 3])),
                'first': draw(S.sampled_from([0, 0, 0, 1])), 'size': draw(S.sampled_from([1, 1, 1, 1, 1, 1, 2, 3]))}
    return mk()


# ------------------------------------------------------------------------------------------------ systems of forms: schemes, initial guesses, unknowns
def s_forms():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(1, 2, 2), maxp=(3, 2, 1), maxn=(4, 3, 2), types={('msepy', 1): ['crazy'], ('msepy', 2): ['crazy', 'crazy_multi'],
                                                                                     ('msehtt', 2): ['crazy', 'crazy_multi', 'quad', 'rectangle']}))
        n = 2 if spec['dim'] == 1 else 6
        return {'spec': spec, 'blocks': draw(S.lists(S.integers(0, n - 1), min_size=1, max_size=2, unique=True)), 'seed': draw(S.integers(0, 10 ** 6)),
                'scheme': draw(S.sampled_from(['spsolve', 'gmres', 'lgmres', 'lsqr'])), 'x0': draw(S.sampled_from(['zero', 'forms', 'forms', 'exact'])),
                'older': draw(S.integers(0, 2)), 'none': draw(S.sampled_from([0, 0, 1])), 'maxiter': draw(S.sampled_from([0, 1, 3, 60])),
                'tol': draw(S.sampled_from([1e-4, 1e-8])), 'pre': draw(S.sampled_from([None, True, {'name': 'spilu', 'drop_tol': 1e-5, 'fill_factor': 20}])),
                'jacobi': draw(S.booleans())}
    return mk()


def prop_forms(case):
    spec = case['spec']
    keys = fe.space_keys(spec['dim'])
    kb = [keys[i] for i in case['blocks'] if i < len(keys)] or [keys[0]]
    D = fe.Disc(spec, keys=sorted(set(kb), key=str))
    L = Lib(D)
    if L.htt:
        from phyem.msehtt.tools.linear_system.static.global_ import solve as solve_
        solve_.___local_setting___['safe first try'] = 0
    els, nb = D.elements, len(kb)
    seed = case['seed']
    A = [[L.matrix(kb[i], kb[j], ('d:' if i == j else '') + 'dict', seed + 7 * i + j)[0] for j in range(nb)] for i in range(nb)]
    b, db = zip(*[L.vector(kb[i], 'array', seed + 50 + i) for i in range(nb)])
    off = np.concatenate([[0], np.cumsum([L.nd[k] for k in kb])])
    N = int(off[-1])
    # cochains of the unknowns: x0 takes the newest one
    times = [float(t) for t in range(case['older'] + 1)]
    tx = 9.
    guess = np.zeros(N)
    r = np.random.default_rng(seed + 99)
    unknowns = []
    for i, k in enumerate(kb):
        if not (case['none'] and i == 0):
            for t in times:
                v, _ = fe.rng_cochains(D, k, seed + 3 + int(t) + i)
                D.set_cochain(k, t, v)
                for e in els:
                    guess[off[i] + L.num[k][e]] = v[e]
        unknowns.append(D.forms[k])
    ls = L.Ls(A, [f.cochain.static_vec(tx) for f in unknowns], list(b))
    cg = ls.global_gathering_matrices[1]
    where = -np.ones(N, dtype=int)
    for e in els:
        where[np.concatenate([off[i] + L.num[kb[i]][e] for i in range(nb)])] = np.asarray(cg[e])
    als = ls.assemble(preconditioner='Jacobian') if (L.htt and case['jacobi']) else ls.assemble()
    M, v = dense(als.A), densev(als.b)
    cond = np.linalg.cond(M)
    if not cond < 1e7:
        return {'nontrivial': False, 'excluded': True}
    sol = np.linalg.solve(M, v)
    scheme = case['scheme']
    if case['x0'] == 'forms':
        start = np.zeros(N)
        start[where] = guess
    elif case['x0'] == 'exact':
        for i, k in enumerate(kb):
            D.set_cochain(k, 5., {e: sol[where[off[i] + L.num[k][e]]] for e in els})
        start = sol.copy()
    else:
        start = np.zeros(N)
    x0 = 0 if case['x0'] == 'zero' else list(unknowns)
    r0 = np.linalg.norm(v - M @ start)
    bn = np.linalg.norm(v)
    slack = 1e-11 * (np.linalg.norm(M) * np.linalg.norm(sol) + bn)
    keep = M.copy(), v.copy()
    if L.htt:
        if scheme in ('spsolve', 'lsqr'):
            x, message, info = als.solve('spsolve')
            close(x, sol, 'the direct solution', 0, 1e-14 * cond + 1e-10, scale=1.)
        else:
            m = max(2, min(N, 25))
            kw = {'restart': m} if scheme == 'gmres' else {'inner_m': m, 'outer_k': 2}
            x, message, info = als.solve(scheme, x0=x0, atol=case['tol'], maxiter=max(1, case['maxiter']), **kw)
            res = np.linalg.norm(v - M @ x)
            require(res <= r0 * (1 + 1e-9) + slack, f'{scheme}: residual {res:.3e}, that of the initial guess {r0:.3e}', key='not worse than the guess')
            if r0 < case['tol'] - slack:
                close(x, start, f'{scheme}: the initial guess', 0, 1e-14, scale=1.)
            if info == 0:
                require(res <= case['tol'] + slack, f'{scheme}: info 0, residual {res:.3e}', key='converged')
            else:
                require(info > 0 and res >= case['tol'] - slack, f'{scheme}: info {info}, residual {res:.3e}', key='converged')
    else:
        als.solve.scheme = scheme
        if scheme == 'spsolve':
            x, message, info = als.solve()
            close(x, sol, 'the direct solution', 0, 1e-14 * cond + 1e-10, scale=1.)
        else:
            als.solve.x0 = x0
            close(als.solve.x0, start, 'the initial guess', 0, 1e-14, scale=1.)
            if scheme == 'lsqr':
                x, message, info = als.solve(atol=1e-14, btol=1e-14, iter_lim=4 * N + 100)
                require(np.linalg.norm(v - M @ x) <= 1e-7 * cond * (bn + 1e-3) + slack, 'lsqr: the residual', key='lsqr')
            else:
                x, message, info = als.solve(preconditioner=case['pre'], rtol=case['tol'], atol=0., maxiter=max(1, case['maxiter']))
                c = info['convergence info']
                res = np.linalg.norm(v - M @ x)
                if c == 0:
                    require(res <= case['tol'] * bn * (1 + 1e-6) + slack, f'{scheme}: convergence info 0, residual {res:.3e}, right-hand side {bn:.3e}', key='converged')
                if case['pre'] is not None and case['maxiter'] >= 3:
                    require(c == 0, f'{scheme}: a preconditioner which is the inverse does not make it converge; residual {res:.3e}', key='preconditioner')
    require(np.array_equal(dense(als.A), keep[0]) and np.array_equal(densev(als.b), keep[1]), 'solving does not change the system', key='system kept')
    # the solution is sent to the unknowns
    x = np.array(x)
    ls.x.update(x)
    for i, k in enumerate(kb):
        got = D.get_cochain(k, tx)
        for e in els:
            close(got[e], x[where[off[i] + L.num[k][e]]], f'unknown {i}, element {e}', 0, 1e-14, scale=1.)
    return {'nontrivial': N > 3, 'labels': fe.labels(spec) + [scheme, 'x0 ' + case['x0']]}


SUBS = [
    Sub('krylov', s_krylov, prop_krylov, 1600, 16000, 'at least one cycle'),
    Sub('forms', s_forms, prop_forms, 300, 3000, 'more than three dofs'),
]
