"""C19: continuous fields: arithmetic and vector calculus of the time-space wrappers, and the calculus of continuous forms."""
import numpy as np

from lib import boot, fe
from lib.core import Sub, HarnessError, require, close

ASSUMPTIONS = ['Numerical derivatives (documented as such) are compared within the truncation and rounding error of a central '
               'difference of step 1e-4; derivatives that are given analytically are compared to round-off.']


# -------------------------------------------------------------------------------------- a small symbolic model
class Ex:
    """An expression in t, x, .. with bounds: |value| <= B, every derivative multiplies the bound by K at most."""

    def __init__(self, op, args=(), B=1., K=1., data=None):
        self.op, self.args, self.B, self.K, self.data = op, args, float(B), max(1., float(K)), data

    def ev(self, t, x):
        a = [_.ev(t, x) for _ in self.args]
        o = self.op
        if o == 'leaf':
            amp, k, om, ph = self.data
            s = om * t + ph
            for kj, xj in zip(k, x):
                s = s + kj * xj
            return amp * np.cos(s)
        if o == 'const':
            return self.data + 0. * x[0]
        if o == '+':
            return a[0] + a[1]
        if o == '-':
            return a[0] - a[1]
        if o == 'neg':
            return -a[0]
        if o == '*':
            return a[0] * a[1]
        if o == '/':
            return a[0] / a[1]
        if o == 'exp':
            return np.exp(a[0])
        if o == 'abs':
            return np.abs(a[0])
        if o == 'sqrt':
            return np.sqrt(a[0])
        if o == 'log':
            return np.log(a[0])
        if o == 'sign':
            return np.sign(a[0])
        raise HarnessError(o)

    def d(self, ax):
        o, a = self.op, self.args
        if o == 'leaf':
            amp, k, om, ph = self.data
            c = om if ax == 't' else k[ax]
            return leaf(amp * c, k, om, ph + np.pi / 2)
        if o == 'const':
            return const(0.)
        if o in '+-':
            return Ex(o, (a[0].d(ax), a[1].d(ax)), a[0].B * a[0].K + a[1].B * a[1].K, self.K)
        if o == 'neg':
            return neg(a[0].d(ax))
        if o == '*':
            return add(mul(a[0].d(ax), a[1]), mul(a[0], a[1].d(ax)))
        if o == 'exp':
            return mul(self, a[0].d(ax))
        if o == 'abs':
            return mul(Ex('sign', (a[0],), 1, a[0].K), a[0].d(ax))
        if o == 'sqrt':
            return Ex('/', (a[0].d(ax), mul(const(2.), self)), self.B * self.K, self.K)
        if o == 'log':
            return Ex('/', (a[0].d(ax), a[0]), self.B * self.K, self.K)
        if o == '/':
            return Ex('/', (sub(mul(a[0].d(ax), a[1]), mul(a[0], a[1].d(ax))), mul(a[1], a[1])), self.B * self.K, self.K)
        raise HarnessError(o)


def leaf(a, k, om, ph):
    return Ex('leaf', (), abs(a), max([abs(om)] + [abs(_) for _ in k]), (a, tuple(k), om, ph))


def const(c):
    return Ex('const', (), abs(c), 1., c)


def add(a, b):
    return Ex('+', (a, b), a.B + b.B, max(a.K, b.K))


def sub(a, b):
    return Ex('-', (a, b), a.B + b.B, max(a.K, b.K))


def neg(a):
    return Ex('neg', (a,), a.B, a.K)


def mul(a, b):
    return Ex('*', (a, b), a.B * b.B, a.K + b.K)


def exp(a):
    return Ex('exp', (a,), np.exp(a.B), a.K * (1 + a.B) * 2)


class Node:
    """An object of the library, its model (nested lists of Ex, shape () | (d,) | (d, d)), the number of nested numerical derivatives."""

    def __init__(self, obj, ex, shape, nd, text, smooth=True, noise=0.):
        self.obj, self.ex, self.shape, self.nd, self.text, self.smooth = obj, ex, shape, nd, text, smooth
        self.noise = max([noise] + [e.B for e in self.flat()])      # components may cancel: the size of what they are made of
        self.K = max(e.K for e in self.flat())

    def flat(self):
        if self.shape == ():
            return [self.ex]
        if len(self.shape) == 1:
            return list(self.ex)
        return [x for r in self.ex for x in r]


# -------------------------------------------------------------------------------------- atoms
def fn_of(e, d):
    if d == 1:
        return lambda t, x: e.ev(t, (x,))
    if d == 2:
        return lambda t, x, y: e.ev(t, (x, y))
    return lambda t, x, y, z: e.ev(t, (x, y, z))


def atom(spec, d):
    """spec: {'shape': 's'|'v'|'T', 'comps': [[a, k.., om, ph]..] or None per comp for zero, 'given': code, 'steady': bool}"""
    ph = boot.phyem()
    comps = []
    for c in spec['comps']:
        if c is None:
            comps.append(const(0.))
        else:
            comps.append(leaf(c[0], c[1:1 + d], 0. if spec['steady'] else c[1 + d], c[2 + d]))
    g = np.random.default_rng(spec['given'])
    part = lambda e: fn_of(e, d) if g.integers(0, 2) else None  # noqa
    kw = {}
    mode = spec['given'] % 4
    f = [fn_of(e, d) for e in comps]
    vc = ph.vc
    if spec['shape'] == 's':
        e = comps[0]
        if d == 1:
            from phyem.tools.functions.time_space._1d.wrappers.scalar import T1dScalar
            return Node(T1dScalar(f[0], steady=spec['steady']), e, (), 0, 's') if mode else Node(vc.scalar(f[0]), e, (), 0, 's')
        if mode:
            if spec['steady']:
                kw['steady'] = True
            if mode > 1:
                kw['derivative'] = [part(e.d('t'))] + [part(e.d(j)) for j in range(d)]
                if spec['comps'][0] is None and g.integers(0, 2):
                    kw['derivative'] = [0 if g.integers(0, 2) else x for x in kw['derivative']]
            if mode > 2 and d == 2:
                kw['second_derivative'] = [part(e.d('t').d('t'))] + [part(e.d(i).d(j)) for i in range(2) for j in range(2)]
            if d == 2:
                from phyem.tools.functions.time_space._2d.wrappers.scalar import T2dScalar as S
            else:
                from phyem.tools.functions.time_space._3d.wrappers.scalar import T3dScalar as S
            if d == 3 and spec['comps'][0] is None:
                f[0] = 0
            return Node(S(f[0], **kw), e, (), 0, 's')
        if spec['comps'][0] is None:
            ph.config.set_embedding_space_dim(d)
            return Node(vc.scalar(0), e, (), 0, '0')
        return Node(vc.scalar(f[0]), e, (), 0, 's')
    if spec['shape'] == 'v':
        f = [0 if c is None and g.integers(0, 2) else x for c, x in zip(spec['comps'], f)]
        if mode:
            if spec['steady']:
                kw['steady'] = True
            elif mode > 2:
                kw['time_derivative'] = [part(e.d('t')) for e in comps]
            if mode > 1:
                kw['Jacobian_matrix'] = [[(0 if c is None and g.integers(0, 2) else part(e.d(j))) for j in range(d)]
                                         for c, e in zip(spec['comps'], comps)]
            if d == 2:
                from phyem.tools.functions.time_space._2d.wrappers.vector import T2dVector as V
            else:
                from phyem.tools.functions.time_space._3d.wrappers.vector import T3dVector as V
            return Node(V(*f, **kw), comps, (d,), 0, 'v')
        return Node(vc.vector(*f), comps, (d,), 0, 'v')
    ex = [comps[i * d:(i + 1) * d] for i in range(d)]
    return Node(vc.tensor(*f), ex, (d, d), 0, 'T')


# -------------------------------------------------------------------------------------- operations
S0, V0, T0 = 's', 'v', 'T'


def kind(n):
    return 'svT'[len(n.shape)]


def grad(e, d):
    return [e.d(j) for j in range(d)]


def sumx(es):
    out = es[0]
    for e in es[1:]:
        out = add(out, e)
    return out


def unary(d):
    """name -> (kind, derivative order, function on (obj, ex) -> obj, ex, shape)"""
    C = lambda s, x: sub(x[1].d(0), x[0].d(1))  # noqa
    out = {
        ('dt', 's'): (1, lambda o, e: (o.time_derivative, e.d('t'), ())),
        ('-', 's'): (0, lambda o, e: (-o, neg(e), ())),
    }
    if d == 1:
        out[('dx', 's')] = (1, lambda o, e: (o.derivative, e.d(0), ()))
        return out
    out.update({
        ('grad', 's'): (1, lambda o, e: (o.gradient, grad(e, d), (d,))),
        ('dt', 'v'): (1, lambda o, e: (o.time_derivative, [x.d('t') for x in e], (d,))),
        ('div', 'v'): (1, lambda o, e: (o.divergence, sumx([e[j].d(j) for j in range(d)]), ())),
        ('-', 'v'): (0, lambda o, e: (-o, [neg(x) for x in e], (d,))),
        ('dt', 'T'): (1, lambda o, e: (o.time_derivative, [[x.d('t') for x in r] for r in e], (d, d))),
    })
    if d == 2:
        out.update({
            ('curl', 's'): (1, lambda o, e: (o.curl, [e.d(1), neg(e.d(0))], (2,))),
            ('lap', 's'): (2, lambda o, e: (o.Laplacian, add(e.d(0).d(0), e.d(1).d(1)), ())),
            ('exp', 's'): (0, lambda o, e: (o.exp, exp(e), ())),
            ('abs', 's'): (0, lambda o, e: (o.abs, Ex('abs', (e,), e.B, e.K), ())),
            ('logexp', 's'): (0, lambda o, e: (o.exp.log(), e, ())),
            ('rot', 'v'): (1, lambda o, e: (o.rot, C(o, e), ())),
            ('grad', 'v'): (1, lambda o, e: (o.gradient, [grad(x, 2) for x in e], (2, 2))),
            ('curl', 'v'): (1, lambda o, e: (o.curl, [[x.d(1), neg(x.d(0))] for x in e], (2, 2))),
            ('lap', 'v'): (2, lambda o, e: (o.Laplacian, [add(x.d(0).d(0), x.d(1).d(1)) for x in e], (2,))),
            ('norm', 'v'): (0, lambda o, e: (o.norm, Ex('sqrt', (add(mul(e[0], e[0]), mul(e[1], e[1])),), sum(x.B for x in e),
                                                       max(x.K for x in e)), ())),
            ('div', 'T'): (1, lambda o, e: (o.divergence, [sumx([r[j].d(j) for j in range(2)]) for r in e], (2,))),
            ('rot', 'T'): (1, lambda o, e: (o.rot, [C(None, r) for r in e], (2,))),
        })
    else:
        out[('curl', 'v')] = (1, lambda o, e: (o.curl, [sub(e[2].d(1), e[1].d(2)), sub(e[0].d(2), e[2].d(0)),
                                                        sub(e[1].d(0), e[0].d(1))], (3,)))
    return out


def binary(d):
    """(name, kind a, kind b) -> (derivatives of a, function)"""
    if d == 1:
        return {}
    v2 = lambda f: lambda a, b: [f(x, y) for x, y in zip(a, b)]  # noqa
    out = {}
    for nm, f in (('+', add), ('-', sub)):
        import operator
        op = operator.add if nm == '+' else operator.sub
        out[(nm, 's', 's')] = (0, lambda o, p, a, b, f=f, op=op: (op(o, p), f(a, b), ()))
        out[(nm, 'v', 'v')] = (0, lambda o, p, a, b, f=f, op=op: (op(o, p), v2(f)(a, b), (d,)))
    out[('*', 's', 's')] = (0, lambda o, p, a, b: (o * p, mul(a, b), ()))
    out[('conv', 's', 'v')] = (1, lambda o, p, a, b: (o.convection_by(p), sumx([mul(b[j], a.d(j)) for j in range(d)]), ()))
    out[('conv', 'v', 'v')] = (1, lambda o, p, a, b: (
        o.convection_by(p), [sumx([mul(b[j], x.d(j)) for j in range(d)]) for x in a], (d,)))
    out[('dot', 'v', 'v')] = (0, lambda o, p, a, b: (o.dot(p), sumx([mul(x, y) for x, y in zip(a, b)]), ()))
    if d == 2:
        out[('*', 's', 'v')] = (0, lambda o, p, a, b: (o * p, [mul(a, x) for x in b], (2,)))
        out[('x', 's', 'v')] = (0, lambda o, p, a, b: (o.cross_product(p), [neg(mul(a, b[1])), mul(a, b[0])], (2,)))
        out[('x', 'v', 's')] = (0, lambda o, p, a, b: (o.x(p), [mul(a[1], b), neg(mul(a[0], b))], (2,)))
        out[('x', 'v', 'v')] = (0, lambda o, p, a, b: (o.cross_product(p), sub(mul(a[0], b[1]), mul(a[1], b[0])), ()))
        out[('tp', 'v', 'v')] = (0, lambda o, p, a, b: (o.tensor_product(p), [[mul(x, y) for y in b] for x in a], (2, 2)))
    else:
        out[('x', 'v', 'v')] = (0, lambda o, p, a, b: (o.cross_product(p), [
            sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])),
            sub(mul(a[0], b[1]), mul(a[1], b[0]))], (3,)))
    return out


def number(d):
    out = {}
    if d == 1:
        return out
    if d == 2:
        out['s'] = lambda o, e, c, left: (c * o if left else o * c, mul(const(c), e), ())
    out['v'] = lambda o, e, c, left: (c * o if left else o * c, [mul(const(c), x) for x in e], (d,))
    return out


def s_calculus():
    S = fe.st()

    @S.composite
    def mk(draw):
        d = draw(S.sampled_from([1, 2, 2, 2, 3, 3]))
        num = fe.s_num(-2, 2, 1)
        comp = S.tuples(num.filter(lambda a: abs(a) > 0.05), *[num] * d, num, fe.s_num(0, 6, 1)).map(list)
        comp = S.one_of(comp, comp, comp, comp, S.none()) if d > 1 else comp
        atoms = []
        for _ in range(draw(S.integers(2, 4))):
            sh = draw(S.sampled_from(['s', 'v', 'v', 'T'])) if d > 1 else 's'
            n = {'s': 1, 'v': d, 'T': d * d}[sh]
            c = comp.filter(lambda x: x is not None) if sh == 'T' else comp
            atoms.append({'shape': sh, 'comps': draw(S.lists(c, min_size=n, max_size=n)), 'given': draw(S.integers(0, 10 ** 4)),
                          'steady': draw(S.integers(0, 4)) == 0})
        ops = draw(S.lists(S.tuples(S.integers(0, 40), S.integers(0, 9), S.integers(0, 9), num).map(list), min_size=1, max_size=8))
        return {'d': d, 'atoms': atoms, 'ops': ops, 't': [draw(fe.s_num(0, 2, 1)), draw(fe.s_num(-1, 3, 1))],
                'shape': draw(S.sampled_from([[], [1], [4], [3, 2], [2, 1, 3]])), 'seed': draw(S.integers(0, 10 ** 6)),
                'size': draw(S.sampled_from([1., 3., 10.]))}
    return mk()


def values(node, t, x, how):
    o = node.obj
    r = o(t, *x) if how == 0 else (o[t](*x) if how == 1 or not hasattr(o, '__matmul__') else (o @ t)(*x))
    if node.shape == ():
        require(len(r) == 1, f'{node.text}: a scalar gives {len(r)} values')
        return [r[0]]
    require(len(r) == node.shape[0], f'{node.text}: {len(r)} components')
    if len(node.shape) == 1:
        return list(r)
    return [y for q in r for y in q]


def compare(node, t, x, how):
    for i, (g, e) in enumerate(zip(values(node, t, x, how), node.flat())):
        ref = e.ev(t, x)
        B, K, nd = node.noise, node.K, node.nd
        # truncation + rounding; the step is 1e-4 in 1-d and 2-d, 1e-6 in 3-d
        tol = B * (2e-8 * nd * (K + 1) ** 2 + ((1e-12, 1e-8, 1e-2) if len(x) == 3 else (1e-12, 2e-10, 1e-6))[min(nd, 2)])
        g = np.asarray(g, dtype=float)
        require(g.shape in (np.shape(ref), ()) or g.shape == np.shape(x[0]), f'{node.text}: shape {g.shape} for points {np.shape(x[0])}')
        close(np.broadcast_to(g, np.shape(ref)), ref, f'{node.text} (component {i}, t={t})', 0, tol + 1e-300)


def prop_calculus(case):
    d = case['d']
    r = np.random.default_rng(case['seed'])
    x = [np.array(r.uniform(-1, 1, case['shape']) * case['size']) for _ in range(d)]
    if case['shape'] == [] and d > 0:
        x = [float(v) for v in x] if r.integers(0, 2) else x
        x = [np.array(v) for v in x]
    pool = [atom(a, d) for a in case['atoms']]
    U, Bi, N = unary(d), binary(d), number(d)
    used = []
    for code, i, j, c in case['ops']:
        a = pool[i % len(pool)]
        k = kind(a)
        opts = [q for q in U if q[1] == k] + [q for q in Bi if q[1] == k and any(kind(b) == q[2] for b in pool)] + \
            (['num', 'lnum'] if k in N else [])
        q = opts[code % len(opts)]
        if q in ('num', 'lnum'):
            c = [c, int(round(c)), 2.5][code % 3]
            obj, ex, sh = N[k](a.obj, a.ex, c, q == 'lnum')
            new = Node(obj, ex, sh, a.nd, f'({c}*{a.text})', a.smooth, abs(c) * a.noise)
        elif len(q) == 2:
            nd, f = U[q]
            if nd and not a.smooth or a.nd + nd > 2:
                continue
            if q[0] in ('exp', 'logexp') and a.ex.B > 4:
                continue
            if q[0] in ('abs', 'norm') and nd == 0:
                smooth = False
            else:
                smooth = a.smooth
            obj, ex, sh = f(a.obj, a.ex)
            new = Node(obj, ex, sh, a.nd + nd, f'{q[0]}({a.text})', smooth, 2 * a.noise * a.K ** nd)
        else:
            cand = [b for b in pool if kind(b) == q[2]]
            b = cand[j % len(cand)]
            nd, f = Bi[q]
            if nd and not a.smooth or max(a.nd + nd, b.nd) > 2:
                continue
            obj, ex, sh = f(a.obj, b.obj, a.ex, b.ex)
            new = Node(obj, ex, sh, max(a.nd + nd, b.nd), f'({a.text} {q[0]} {b.text})', a.smooth and b.smooth,
                       a.noise + b.noise if q[0] in '+-' else a.noise * a.K ** nd * b.noise * 2)
        if new.noise > 1e5 or any(e.K > 60 for e in new.flat()):
            continue
        require(new.obj.ndim == d and new.obj.shape == (new.shape or (1,)), f'{new.text}: ndim {new.obj.ndim}, shape {new.obj.shape}')
        used.append(q if isinstance(q, str) else '.'.join(q))
        pool.append(new)
        compare(new, case['t'][code % 2], x, code % 3)
    for n in pool:      # all of them again, at another time: nothing was overwritten
        for how, t in enumerate(case['t']):
            compare(n, t, x, how)
    return {'nontrivial': len(used) >= 2, 'labels': [f'{d}d'] + sorted(set(used))}


# -------------------------------------------------------------------------------------- time integrals
def s_integral():
    S = fe.st()

    @S.composite
    def mk(draw):
        num = fe.s_num(-2, 2, 1)
        comp = S.tuples(num.filter(lambda a: abs(a) > 0.05), num, num, num, fe.s_num(0, 6, 1)).map(list)
        return {'comps': draw(S.lists(comp, min_size=2, max_size=2)), 't0': draw(fe.s_num(-1, 2, 2)), 't1': draw(fe.s_num(-1, 2, 2)),
                'h': draw(S.sampled_from([1e-2, 3e-3, 0.05])), 'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def prop_integral(case):
    ph = boot.phyem()
    es = [leaf(c[0], c[1:3], c[3], c[4]) for c in case['comps']]
    v = ph.vc.vector(*[fn_of(e, 2) for e in es])
    w = v.integral(case['t0'], h=case['h'])
    r = np.random.default_rng(case['seed'])
    x = [r.uniform(-2, 2, (3, 2)) for _ in range(2)]
    q, wt = np.polynomial.legendre.leggauss(12)
    t0, t1 = case['t0'], case['t1']
    ts = (q + 1) / 2 * (t1 - t0) + t0
    got = w(t1, *x)
    for i, e in enumerate(es):
        ref = sum(wi * e.ev(ti, x) for wi, ti in zip(wt, ts)) * (t1 - t0) / 2
        close(got[i], ref, f'integral of component {i} from {t0} to {t1}', 0, 8 * case['h'] ** 2 * e.B * abs(t1 - t0) + 1e-8)
    return {'nontrivial': abs(t1 - t0) > 0.1, 'labels': ['backward' if t1 < t0 else 'forward']}


# -------------------------------------------------------------------------------------- continuous forms
def s_forms():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(1, 2, 2, 3), maxp=(1, 1, 1), maxn=(3, 2, 2), cmax=0.2, periodic=(False, True)))
        d = spec['dim']
        key = draw(S.sampled_from(fe.space_keys(d)))
        n = d if 0 < key[0] < d else 1
        num = fe.s_num(-2, 2, 1)
        comp = S.tuples(num.filter(lambda a: abs(a) > 0.05), *[num] * d, num, fe.s_num(0, 6, 1)).map(list)
        f = S.lists(comp, min_size=n, max_size=n)
        return {'spec': spec, 'key': list(key), 'fields': draw(S.lists(f, min_size=1, max_size=3)), 'split': draw(S.booleans()),
                't': draw(fe.s_num(0, 2, 1)), 'seed': draw(S.integers(0, 10 ** 6)), 'zero': draw(S.integers(0, 9)) == 0}
    return mk()


def ext(e, key, d):
    k, o = key
    if d == 1:
        return [e[0].d(0)]
    if d == 2:
        if k == 0:
            return grad(e[0], 2) if o == fe.I else [e[0].d(1), neg(e[0].d(0))]
        return [sub(e[1].d(0), e[0].d(1))] if o == fe.I else [add(e[0].d(0), e[1].d(1))]
    if k == 0:
        return grad(e[0], 3)
    if k == 1:
        return [sub(e[2].d(1), e[1].d(2)), sub(e[0].d(2), e[2].d(0)), sub(e[1].d(0), e[0].d(1))]
    return [sumx([e[j].d(j) for j in range(3)])]


def cod(e, key, d):
    """The formal L2-adjoint of the derivative of (k-1)-forms."""
    k, o = key
    if d == 1:
        return [neg(e[0].d(0))]
    if d == 2:
        if k == 1:
            return [neg(add(e[0].d(0), e[1].d(1)))] if o == fe.I else [sub(e[1].d(0), e[0].d(1))]
        return [e[0].d(1), neg(e[0].d(0))] if o == fe.I else [neg(e[0].d(0)), neg(e[0].d(1))]
    if k == 1:
        return [neg(sumx([e[j].d(j) for j in range(3)]))]
    if k == 2:
        return [sub(e[2].d(1), e[1].d(2)), sub(e[0].d(2), e[2].d(0)), sub(e[1].d(0), e[0].d(1))]
    return [neg(e[0].d(j)) for j in range(3)]


def prop_forms(case):
    ph = boot.phyem()
    spec, key = case['spec'], tuple(case['key'])
    d, t = spec['dim'], case['t']
    D = fe.Disc(spec, keys=[key])
    f = D.forms[key]
    E = [[leaf(c[0], c[1:1 + d], c[1 + d], c[2 + d]) for c in F] for F in case['fields']]
    mk = lambda es: ph.vc.scalar(fn_of(es[0], d)) if len(es) == 1 else ph.vc.vector(*[fn_of(x, d) for x in es])  # noqa
    r = np.random.default_rng(case['seed'])
    msepy = D.lib == 'msepy'
    if msepy:
        regions = list(D.mesh.regions)
        el = {i: D.mesh.elements._elements_in_region(i) for i in regions}
        model = {i: E[n % len(E)] if case['split'] else E[0] for n, i in enumerate(regions)}
        f.cf = {i: mk(model[i]) for i in regions} if case['split'] else mk(E[0])
    else:
        model = {None: E[0]}
        if case['zero'] and d == 2:
            f.cf = 0
            model = {None: [const(0.) for _ in E[0]]}
        else:
            f.cf = mk(E[0])

    def evaluate(field, t, x):
        """{region: component values} of a continuous field at points x (list of arrays, elements along axis 0 in msepy)."""
        if isinstance(field, dict):
            require(set(field) == set(model), 'regions of a continuous field')
            return {i: field[i](t, *x) for i in field}
        return {None: field(t, *x)}
    x = [r.uniform(-2, 2, (4, 3)) for _ in range(d)]
    k, o = key
    todo = [('cf', f.cf.field, {i: e for i, e in model.items()}, 0)]
    if k < d:
        todo.append(('d cf', f.cf.exterior_derivative(), {i: ext(e, key, d) for i, e in model.items()}, 1))
        todo.append(('coboundary', f.cf.coboundary(), {i: ext(e, key, d) for i, e in model.items()}, 1))
    if k > 0:
        todo.append(('codifferential cf', f.cf.codifferential(), {i: cod(e, key, d) for i, e in model.items()}, 1))
    todo.append(('dt cf', f.cf.time_derivative(), {i: [x.d('t') for x in e] for i, e in model.items()}, 1))
    if msepy:
        a, b = todo[-1], todo[0]
        todo.append(('-cf', -b[1], {i: [neg(x) for x in e] for i, e in b[2].items()}, 0)) if isinstance(b[1], dict) else None
        if d > 1:
            todo.append(('cf + dt cf', b[1] + a[1], {i: [add(x, y) for x, y in zip(b[2][i], a[2][i])] for i in model}, 1))
            todo.append(('cf - dt cf', b[1] - a[1], {i: [sub(x, y) for x, y in zip(b[2][i], a[2][i])] for i in model}, 1))
    for name, field, ref, nd in todo:
        got = evaluate(field, t, x)
        for i in ref:
            require(len(got[i]) == len(ref[i]), f'{name} of a {o} {k}-form in {d}d: {len(got[i])} components')
            for c, e in enumerate(ref[i]):
                close(got[i][c], e.ev(t, x), f'{name} of a {o} {k}-form in {d}d, region {i}, component {c}', 0,
                      e.B * (1e-12 if nd == 0 else 1e-6) + 1e-300)
    if msepy:     # element-wise data at a time, whatever the axis of the elements
        ax = int(r.integers(0, 2))
        n = len(D.elements)
        X = [r.uniform(-2, 2, (n, 3) if ax == 0 else (3, n)) for _ in range(d)]
        got = f.cf[t](*X, axis=ax)
        for i in regions:
            sl = range(*el[i])
            for c, e in enumerate(model[i]):
                ref = e.ev(t, [np.take(v, sl, axis=ax) for v in X])
                close(np.take(got[c], sl, axis=ax), ref, f'cf[t] of a {o} {k}-form in {d}d, elements of region {i}', 0, e.B * 1e-12 + 1e-300)
        require(got[0].shape == X[0].shape, 'cf[t]: shape of the element-wise data')
    return {'nontrivial': not case['zero'] and (k > 0 or len(model) > 1 or d > 1), 'labels': fe.labels(spec) + [f'{k}{o[0]}']}


SUBS = [
    Sub('calculus', s_calculus, prop_calculus, 6000, 60000, 'at least two operations were applied'),
    Sub('integral', s_integral, prop_integral, 60, 600, 'an interval longer than 0.1'),
    Sub('forms', s_forms, prop_forms, 700, 7000, 'not a zero field nor the value of a single 1-d 0-form'),
]
