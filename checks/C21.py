"""C21: a form's cochain history is a faithful map time -> cochain, for every sequence of operations on it (model based)."""
import numpy as np

from lib import boot, fe
from lib import core
from lib.core import Sub

ASSUMPTIONS = ['Times that agree to 8 digits are one time instant (documented rounding).']


def require(cond, what, **info):
    if not cond:
        core.require(False, what + ''.join(f'; {k}={v}' for k, v in info.items()))


def close(a, b, rtol, what, atol, **info):
    core.close(a, b, what + ''.join(f'; {k}={v}' for k, v in info.items()), rtol=rtol, atol=atol)


TYPES = {('msepy', 1): ['crazy'], ('msepy', 2): ['crazy', 'crazy_multi'], ('msepy', 3): ['crazy'],
         ('msehtt', 2): ['crazy', 'ts', 'ren', 'backward_step'], ('msehtt', 3): ['crazy0']}
STEP = ['0', '1/2', '1', '3/2', '2', '5/2', '3']


def s_ops():
    S = fe.st()
    t = S.one_of(S.integers(0, 6), S.integers(-3, 12).map(lambda i: i / 4 + 0.05))     # an int: index of STEP
    form = S.integers(0, 1)
    return S.lists(S.one_of(
        S.fixed_dictionaries({'op': S.just('set'), 'f': form, 't': t, 'seed': S.integers(0, 999),
                              'via': S.sampled_from(['item', 'rounded', 'delegate', 'string', 'reduce', 'callable', 'vec', 'gathered'])}),
        S.fixed_dictionaries({'op': S.just('set'), 'f': form, 't': t, 'seed': S.integers(0, 999),
                              'via': S.sampled_from(['item', 'delegate'])}),
        S.fixed_dictionaries({'op': S.just('copy'), 'f': form, 't': t, 'g': form, 's': t}),
        S.fixed_dictionaries({'op': S.just('add'), 'f': form, 't': t, 'seed': S.integers(0, 999)}),
        S.fixed_dictionaries({'op': S.just('fill'), 'f': form, 't': t, 'n': S.integers(1, 24), 'dir': S.sampled_from([1, -1])}),
        S.fixed_dictionaries({'op': S.just('clean'), 'f': form, 'n': S.sampled_from([None, None, -1, -2, -3, -5])}),
        S.fixed_dictionaries({'op': S.just('drop'), 'f': form, 't': t}),
        S.fixed_dictionaries({'op': S.just('all'), 'f': form}),
        S.fixed_dictionaries({'op': S.just('auto'), 'v': S.sampled_from([False, False, True, 2, 3, 5])}),
    ), min_size=3, max_size=14)


def strat():
    S = fe.st()

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(1, 2, 2, 3), maxp=(3, 2, 1), maxn=(3, 2, 2), types=TYPES))
        ops = draw(s_ops())
        for f in (0, 1):
            if draw(S.integers(0, 2)):
                at = draw(S.integers(0, len(ops)))
                ops.insert(at, {'op': 'fill', 'f': f, 't': draw(S.integers(0, 3)), 'n': draw(S.integers(2, 5)), 'dir': 1})
        return {'spec': spec, 'key': draw(S.integers(0, 5)), 'ops': ops, 'auto': draw(S.sampled_from([False, False, True, 3])),
                'q': draw(S.lists(fe.s_num(-.5, 3.5), min_size=3, max_size=6)), 'seed': draw(S.integers(0, 999))}
    return mk()


class Model:
    """The history of one form: {time: {element: vector}}."""

    def __init__(self):
        self.h = {}

    def times(self):
        return sorted(self.h)

    @property
    def newest(self):
        return max(self.h) if self.h else None


class History:
    def __init__(self, case):
        from fractions import Fraction
        self.case = case
        ph = boot.phyem()
        self.ph = ph
        spec = case['spec']
        keys = fe.space_keys(spec['dim'])
        self.key = keys[case['key'] % len(keys)]
        self.STEPVAL = [.5 * float(Fraction(s)) for s in STEP]
        nxt = [(self.key[0] + 1, self.key[1])] if self.key[0] < spec['dim'] else []
        self.D = fe.Disc(spec, keys=[self.key] + nxt, make_abstract=self.abstract)
        self.ts.specify('constant', [0, 2, 8], 2)
        b = self.D.impl.base['forms']
        self.forms = [self.D.forms[self.key], b['lin-second']]
        self.deleg = [[self.find(a) for a in row] for row in self.ab]
        self.m = [Model(), Model()]
        self.n = {e: len(self.D.gm(self.key)[0][e]) for e in self.D.elements}
        self.field = fe.Field([[['c', 1., *[1.] * self.D.dim, .7, .3]]] * max(1, fe.n_components(self.D.dim, self.key[0])), self.D.dim)
        self.auto = False
        self.overwrote = self.cleaned = 0

    def abstract(self, D):
        ph = self.ph
        self.ts = ph.time_sequence()
        f0 = D.abs_forms[self.key]
        self.f1 = f0.space.make_form('g21', 'lin-second')
        self.ab = [[f @ self.ts[s] for s in STEP] for f in (f0, self.f1)]
        return {}

    def find(self, a):
        return self.D.impl.base['forms'][a._pure_lin_repr]

    # ---- times
    def time(self, t):
        return self.STEPVAL[t] if isinstance(t, int) else t

    # ---- the operations
    def vec(self, seed):
        r = np.random.default_rng(seed)
        gm, n = self.D.gm(self.key)
        g = r.uniform(-1, 1, n)
        return {e: g[gm[e]] for e in self.D.elements}, g

    def put(self, i, t, v):
        m = self.m[i]
        t = round(t, 8)
        before = dict(m.h)
        if t in m.h:
            self.overwrote += 1
        m.h[t] = {e: np.array(v[e]) for e in v}
        self.sync(i, before, t)

    def sync(self, i, before, t):
        """After a set: which instants may have been removed by the documented auto-cleaning?"""
        f, m = self.forms[i], self.m[i]
        left = self.auto
        have = [x for x in m.times() if x in f.cochain]
        if left is False:
            return                      # everything must be there: verify() decides
        require(t in have, 'auto-cleaning drops the instant being set', t=t, have=have)
        if left is True:
            left = 10 if self.D.lib == 'msepy' else 3
        need = m.times()[-left:] if t in before else sorted(before)[-(left - 1):]
        require(all(x in have for x in need), f'auto-cleaning (keep {left}) drops newer instants than documented',
                set=t, before=sorted(before), have=have)
        if self.D.lib == 'msehtt':
            require(len(have) <= max(left, len(before)), f'auto-cleaning (keep {left}) keeps too many', have=have, before=sorted(before))
        else:
            require(len(have) <= max(2 * left + 1, 0) or t in before, f'auto-cleaning (keep {left}) keeps too many', have=have)
        lost = [x for x in m.times() if x not in have]
        if lost:
            require(max(lost) < min([x for x in have if x != t], default=np.inf), 'auto-cleaning drops a newer instant than one it keeps',
                    lost=lost, have=have, t=t)
            self.cleaned += 1
        for x in lost:
            del m.h[x]

    def set_dict(self, i, t, v, target=None):
        D = self.D
        f = self.forms[i] if target is None else target
        if D.lib == 'msepy':
            f[t].cochain = np.array([v[e] for e in D.elements])
        else:
            f[t].cochain = {e: np.array(v[e]) for e in D.elements}

    def apply(self, o):
        D, f, op = self.D, None, o['op']
        if op == 'auto':
            self.ph.config.set_auto_cleaning(o['v'])
            self.auto = o['v']
            return
        i = o['f']
        f, m = self.forms[i], self.m[i]
        t = self.time(o['t']) if 't' in o else None
        if op == 'set':
            via = o['via']
            if via in ('delegate', 'string') and not isinstance(o['t'], int):
                via = 'item'
            v, g = self.vec(o['seed'])
            if via == 'item':
                self.set_dict(i, t, v)
            elif via == 'rounded':
                self.set_dict(i, t + (o['seed'] % 7 - 3) * 1e-10, v)
            elif via == 'delegate':
                d = self.deleg[i][o['t']]
                tt = d._pAti_form['ati']()()
                require(abs(tt - t) < 1e-12, 'an abstract time instant evaluates to another time', want=t, got=tt)
                self.set_dict(i, tt, v, target=d)
            elif via == 'string':
                self.set_dict(i, STEP[o['t']], v)
            elif via == 'reduce' and (D.dim > 1 or i == 0):      # (no sum of two continuous fields in 1d)
                f.cf = self.field.vc(D.dim, self.key)
                f[t].reduce()
                v = D.get_cochain(self.key, t, form=f)
            elif via == 'callable' and D.lib == 'msehtt':
                f[t].cochain = lambda e, v=v: v[e]
            elif via == 'vec':
                x = f.cochain.static_vec(t)
                if D.lib == 'msehtt':
                    x._receive_data({e: np.array(v[e]) for e in v})
                else:
                    x.data = np.array([v[e] for e in D.elements])
                x.override()
            elif via == 'gathered' and D.lib == 'msehtt':
                from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered as G
                f[t].cochain = G(np.array(g), gm=f.cochain.gathering_matrix)
            else:
                self.set_dict(i, t, v)
            self.put(i, t, v)
        elif op == 'copy':
            g, s = self.forms[o['g']], self.time(o['s'])
            if round(s, 8) not in self.m[o['g']].h:
                return
            v = {e: self.m[o['g']].h[round(s, 8)][e] for e in D.elements}
            if D.lib == 'msepy':
                f[t].cochain = g[s].cochain.local
            else:
                f[t].cochain = {e: g[s].cochain[e] for e in D.elements}
            self.put(i, t, v)
        elif op == 'add':
            if round(t, 8) not in m.h or D.lib == 'msepy':
                return
            from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered as G
            v, g = self.vec(o['seed'])
            c = f.cochain[t]
            c += G(np.array(g), gm=f.cochain.gathering_matrix)
            old = m.h[round(t, 8)]
            new = {e: old[e] + v[e] for e in v}
            self.put(i, t, new)
        elif op == 'fill':
            for k in range(o['n']):
                s = t + o['dir'] * k * .125
                v, _ = self.vec(k)
                self.set_dict(i, s, v)
                self.put(i, s, v)
        elif op == 'clean':
            if m.h or True:
                (self.deleg[i][0] if len(m.h) % 2 else f).cochain.clean(*([] if o['n'] is None else [o['n']]))
                keep = m.times()[-1:] if o['n'] is None else m.times()[o['n']:]
                self.cleaned += len(keep) < len(m.h)
                m.h = {x: m.h[x] for x in keep}
        elif op == 'drop' and D.lib == 'msehtt':
            f.cochain.clean(t=t)
            self.cleaned += m.h.pop(round(t, 8), None) is not None
        elif op == 'all' and D.lib == 'msehtt':
            f.cochain.clean('all')
            m.h = {}

    # ---- the oracle
    def verify(self, at):
        D = self.D
        for i in range(2):
            f, m = self.forms[i], self.m[i]
            T = m.times()
            require(len(f.cochain) == len(T), f'{at}: number of instants', want=T, got=len(f.cochain))
            for x in T:
                require(x in f.cochain and x + 3e-10 in f.cochain, f'{at}: instant {x} is missing', want=T)
                got = D.get_cochain(self.key, x, form=f)
                for e in D.elements:
                    require(np.array_equal(got[e], m.h[x][e]) if at != 'add' else np.allclose(got[e], m.h[x][e], atol=1e-13, rtol=0),
                            f'{at}: the cochain at t={x} is not the one stored', element=e, got=got[e], want=m.h[x][e])
            for x in (.0125, -3., 1.0001) + tuple(self.STEPVAL):
                require((x in f.cochain) == (round(x, 8) in m.h), f'{at}: membership of t={x}', want=T)
            if T:
                require(f.cochain.newest == T[-1], f'{at}: newest', got=f.cochain.newest, want=T[-1])
                a = D.get_cochain(self.key, None, form=f)
                for e in D.elements:
                    require(np.array_equal(a[e], m.h[T[-1]][e]), f'{at}: f[None] is not the newest', element=e)
            d = self.deleg[i]
            for j, x in enumerate(self.STEPVAL):
                if x in m.h:
                    y = d[j].cochain.dynamic_vec()
                    z = self.local(d[j][x].cochain)
                    for e in D.elements:
                        w = y[e]
                        require(np.array_equal(z[e], m.h[x][e]), f'{at}: f@ts[.][t] reads another cochain', step=STEP[j], element=e)
                        require(np.array_equal(w, m.h[x][e]), f'{at}: form at abstract time reads another cochain', step=STEP[j], element=e)
            require(len(d[0].cochain) == len(T) and d[0].cochain.newest == f.cochain.newest, f'{at}: form at abstract time: history')

    def local(self, c):
        if self.D.lib == 'msepy':
            return {e: np.asarray(c.local[e]) for e in self.D.elements}
        return {e: np.asarray(c[e]) for e in self.D.elements}

    def interpolation(self):
        D, n = self.D, 0
        for i in range(2):
            f, m, T = self.forms[i], self.m[i], self.m[i].times()
            for x in list(self.case['q']) + [T[-1], T[0], .5 * (T[0] + T[-1])] if T else []:
                x = float(x)
                if len(T) < 2 or not T[0] <= x <= T[-1]:
                    if round(x, 8) in m.h and D.lib == 'msepy':
                        continue
                    try:
                        f.cochain(x) if D.lib == 'msepy' else f(x)
                    except Exception:
                        continue
                    require(round(x, 8) in m.h, 'interpolation outside the stored times is answered', t=x, times=T)
                    continue
                x = round(x, 8)
                k = max(j for j in range(len(T) - 1) if T[j] <= x)
                s = (x - T[k]) / (T[k + 1] - T[k])
                got = self.local(f.cochain(x) if D.lib == 'msepy' else f(x).cochain)
                for e in D.elements:
                    want = (1 - s) * m.h[T[k]][e] + s * m.h[T[k + 1]][e]
                    close(got[e], want, 1e-12, f'interpolation at t={x} between {T[k]} and {T[k + 1]}', atol=1e-12)
                n += 1
        return n

    def arithmetic(self):
        D, ph = self.D, self.ph
        f, g = self.forms
        n = 0
        E = {e: D.E(self.key, e) for e in D.elements} if self.key[0] < D.dim else None
        both = [t for t in self.m[0].times() if t in self.m[1].h]
        if D.lib == 'msepy':
            fs, gs = f - g, f + g
            for t in both:
                n += 1
                for h, s in ((fs, -1), (gs, 1)):
                    got = self.local(h[t].cochain)
                    for e in D.elements:
                        close(got[e], self.m[0].h[t][e] + s * self.m[1].h[t][e], 1e-13, 'f +- g', t=t, atol=1e-13)
        if E is not None and self.m[0].h:
            df = f.d()
            for t in self.m[0].times():
                n += 1
                got = self.local(df[t].cochain)
                for e in D.elements:
                    close(got[e], E[e] @ self.m[0].h[t][e], 1e-13, 'f.d()', t=t, atol=1e-12)
            if D.lib == 'msehtt':
                h = D.forms[(self.key[0] + 1, self.key[1])]
                r = np.random.default_rng(5)
                w = {}
                for t in self.m[0].times():
                    if r.random() < .8:
                        w[t] = {e: r.normal(size=E[e].shape[0]) for e in D.elements}
                        h[t].cochain = w[t]
                        w = {x: w[x] for x in w if x in h.cochain}
                for s, x in ((1, h + df), (-1, h - df)):
                    require(sorted(x.cochain.times) == sorted(w), 'times of f +- dg', got=x.cochain.times, want=sorted(w))
                    for t in w:
                        for e in D.elements:
                            close(x[t].cochain[e], w[t][e] + s * (E[e] @ self.m[0].h[t][e]), 1e-13, 'f +- dg', t=t, atol=1e-12)
                        n += 1
                for t in self.m[0].times():
                    cb = f[t].cochain.coboundary()
                    for e in D.elements:
                        close(cb[e], E[e] @ self.m[0].h[t][e], 1e-13, 'coboundary', atol=1e-12)
        M = {}
        for i in range(2):
            F, m, T = self.forms[i], self.m[i], self.m[i].times()
            if len(T) < 1:
                continue
            a, b = T[0], T[-1]
            ca, cb = F.cochain[a], F.cochain[b]
            gm = F.cochain.gathering_matrix
            for s, z in ((1, ca + cb), (-1, ca - cb)):
                for e in D.elements:
                    close(np.asarray(z[e]), m.h[a][e] + s * m.h[b][e], 1e-13, 'cochain +-', atol=1e-13)
            if D.lib == 'msehtt':
                z = 2.5 * ca
                for e in D.elements:
                    close(np.asarray(z[e]), 2.5 * m.h[a][e], 1e-13, 'scalar * cochain', atol=1e-13)
                v = ca.gathered_global_vector.V
                for e in D.elements:
                    require(np.array_equal(v[np.asarray(gm[e])], m.h[a][e]) or not self.conform(m.h[a]), 'gathered global vector', element=e)
            sv = F.cochain.static_vec(b)
            asm = sv.assemble() if hasattr(sv, 'assemble') else None
            e = D.elements[-1]
            if self.conform(m.h[b]):
                for j in range(min(4, len(gm[e]))):
                    got = F.cochain[b].of_dof(int(gm[e][j]))
                    close(got, m.h[b][e][j], 1e-12, 'of_dof', atol=1e-13)
            n += 1
            # residual between the two newest instants: the L2 norm of the difference
            if len(T) > 1:
                if D.lib == 'msehtt' and D.dim == 3 and D.spec['mesh'].get('c'):
                    continue
                if D.lib == 'msepy':
                    got, again = F.norm_residual(), F.norm(T[-1], diff_to_t=T[-2])
                else:
                    got, again = F.norm_residual(), F.norm({e: m.h[T[-1]][e] - m.h[T[-2]][e] for e in D.elements})
                close(got, again, 1e-12, 'norm_residual is not the norm of the difference of the two newest', atol=1e-13)
                close(got, F.norm_residual(from_time=T[-1], to_time=T[-2]), 1e-12, 'norm_residual is not symmetric', atol=1e-13)
                if D.lib == 'msepy' and D.spec['mesh']['type'] == 'crazy' and not D.spec['mesh'].get('c') and not D.spec['mesh'].get('ts'):
                    close(got, self.norm(m.h[T[-1]], m.h[T[-2]]), 1e-8, 'norm_residual', atol=1e-10)
            else:
                require(np.isnan(F.norm_residual()), 'norm_residual of a single instant is not nan')
        return n

    def conform(self, h):
        gm, n = self.D.gm(self.key)
        g = np.full(n, np.nan)
        for e in self.D.elements:
            g[gm[e]] = h[e]
        return all(np.array_equal(g[gm[e]], h[e]) for e in self.D.elements)

    def norm(self, u, v):
        D = self.D
        s = 0.
        for e in D.elements:
            d = u[e] - v[e]
            s += d @ fe.exact_mass(D, self.key, e, 2 * max(fe.degree_p(D.spec)) + 2) @ d
        return np.sqrt(max(s, 0.))


def prop(case):
    ph = boot.phyem()
    from phyem.src.config import _setting
    old = _setting['auto_cleaning']
    try:
        H = History(case)
        ph.config.set_auto_cleaning(case['auto'])
        H.auto = case['auto']
        for j, o in enumerate(case['ops']):
            H.apply(o)
            H.verify('add' if o['op'] == 'add' or any(q['op'] == 'add' for q in case['ops'][:j]) else f"after op {j} ({o['op']})")
        ph.config.set_auto_cleaning(False)        # (derived forms follow the current setting)
        n = H.interpolation()
        n += H.arithmetic()
        H.verify('add' if any(q['op'] == 'add' for q in case['ops']) else 'end')
    finally:
        _setting['auto_cleaning'] = old
    T = [len(m.h) for m in H.m]
    return {'nontrivial': max(T) >= 2 and n > 0 and len(case['ops']) >= 4,
            'labels': fe.labels(case['spec'])[:1] + [f'key:{H.key}', f'instants:{min(max(T), 12)}', 'auto' if H.auto is not False else 'manual',
                                                     'overwrote' if H.overwrote else '', 'cleaned' if H.cleaned else '']}


SUBS = [Sub('history', strat, prop, quick=2000, thorough=60000,
            rule='at least 4 operations, at least 2 instants kept at the end, and an interpolation or arithmetic comparison made')]
