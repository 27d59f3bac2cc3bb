"""C18: time sequences, instants, intervals, constant parameters, and the time discretization of weak formulations."""
import math
from fractions import Fraction as Q

import numpy as np

from lib import boot, fe
from lib.core import Sub, Violation, HarnessError, require, close

ASSUMPTIONS = ['Terms of several instants are split by the user, as in all examples; the formulation itself is read from its linguistic representation.']
I, O = 'inner', 'outer'


def tidy():
    """A session has one registry of names; every case starts with an empty one."""
    import phyem.src.time_sequence as T
    import phyem.src.form.parameters as P
    T._global_abstract_time_sequence.clear()
    T._global_abstract_time_interval.clear()
    R = P._global_root_constant_scalars
    for i in [i for i in R if not R[i].is_real()]:
        del R[i]
    return T, P


# ------------------------------------------------------------------------------------------------- sequences
def s_seq():
    S = fe.st()

    @S.composite
    def mk(draw):
        kind = draw(S.sampled_from(['constant', 'function']))
        case = {'kind': kind, 't0': draw(S.one_of(S.sampled_from([0, 1, -3, .1, 1e3]), fe.s_num(-5, 5, 3)))}
        if kind == 'constant':
            f, n = draw(S.integers(1, 9)), draw(S.integers(1, 40))
            case.update(f=f, n=n, dt=draw(S.one_of(S.sampled_from([.1, .5, 1e-3, 1 / 3, 20.]), fe.s_num(0.01, 3, 3))))
            k = S.tuples(S.integers(-3, n + 3), S.integers(0, f * 2 - 1).map(lambda i: [i, f]) | S.sampled_from([[1, 2], [1, 3], [1, 7], [1, 100]]))
            case['ks'] = [[a, *b] for a, b in draw(S.lists(k, min_size=1, max_size=12))]
        else:
            case['si'] = draw(S.sampled_from([1, 1, 2, 3, .5, .25]))
            case['dts'] = draw(S.lists(fe.s_num(.01, 2, 3), min_size=12, max_size=12))
            case['ks'] = [[a, *b] for a, b in draw(S.lists(S.tuples(
                S.integers(-1, 6), S.sampled_from([[0, 1], [0, 1], [1, 2], [1, 4], [1, 3], [7, 10]])), min_size=1, max_size=12))]
            if draw(S.booleans()):
                case['ks'].sort()
        return case
    return mk()


def ask(obj, k):
    """The time, or None when the instant is not in the sequence."""
    from phyem.src.time_sequence import TimeInstantError
    try:
        return obj[k]()
    except TimeInstantError:
        return None


def prop_seq(case):
    T, _ = tidy()
    ph = boot.phyem()
    ts = ph.time_sequence()
    t0 = case['t0']
    hits = miss = 0
    if case['kind'] == 'constant':
        f, n, dt = case['f'], case['n'], case['dt']
        tm = t0 + dt * n
        ts.specify('constant', [t0, tm, n * f], f)
        o = ts._object
        close([o.dt], [dt], 'dt', 1e-9, 1e-12)
        require(o.k_max == n and isinstance(o.k_max, int), f'k_max is {o.k_max}, not {n}')
        require(o.t_0 == t0 and o.t_max == tm, 'the ends of the sequence')
        for a, b, c in case['ks']:
            k = Q(a) + Q(b, c)
            val = int(k) if k.denominator == 1 and b % 2 else float(a) + b / c
            valid = (k * f).denominator == 1 and -1 <= k <= n + 1
            got = ask(o, val)
            require((got is not None) == valid, f'instant {val} of {n} steps with factor {f}: {"valid" if valid else "not valid"}, but t[k] gives {got}', key='valid')
            if valid:
                close([got], [t0 + dt * float(k)], f't[{val}]', 1e-9, 1e-9 * (abs(t0) + dt))
                hits += 1
            else:
                miss += 1
    else:
        it = iter(case['dts'])
        made = []

        def func():
            made.append(next(it))
            return made[-1]

        ts.specify('function', t0, func, step_interval=case['si'])
        o = ts._object
        K, t = [Q(0)], [t0]
        for a, b, c in case['ks']:
            k = Q(a) + Q(b, c)
            val = int(k) if k.denominator == 1 and b % 2 else float(a) + b / c
            was = len(made)
            got = ask(o, val)
            if k > K[-1]:
                require(len(made) == was + 1, f'{len(made) - was} new steps for instant {val}', key='calls')
                K.append(K[-1] + Q(case['si']))
                t.append(t[-1] + made[-1])
            else:
                require(len(made) == was, f'a known instant {val} makes a new step', key='calls')
            if k < 0 or k > K[-1]:
                require(got is None, f'instant {val} is outside of the {len(K) - 1} steps but t[k]={got}', key='valid')
                miss += 1
                continue
            require(got is not None, f'instant {val} is not found within [0, {float(K[-1])}]', key='valid')
            i = max(j for j in range(len(K)) if K[j] <= k)
            want = t[i] if K[i] == k else t[i] + float((k - K[i]) / (K[i + 1] - K[i])) * (t[i + 1] - t[i])
            close([got], [want], f't[{val}]', 1e-8, 2e-8 * (1 + abs(t0) + max(case['dts']) / case['si']))       # (k is rounded to eight digits)
            hits += 1
    return {'nontrivial': hits > 1, 'labels': [case['kind'], 'all valid' if not miss else 'some invalid']}


# ------------------------------------------------------------------------------------- abstract instants, intervals
def s_expr():
    S = fe.st()
    num = S.sampled_from(['1', '2', '3', '1/2', '1/3', '2/3', '0.5', '1/4'])

    @S.composite
    def mk(draw):
        names = draw(S.lists(S.sampled_from('kmnjiaxKN'), min_size=1, max_size=2, unique=True))
        f = draw(S.sampled_from([1, 2, 3, 4, 6, 12]))

        def expr():
            out = draw(S.one_of(S.sampled_from(names), S.sampled_from([f'2*{names[0]}', f'({names[-1]}+1)/2', f'3-{names[0]}', '0', '2', f'{names[0]}*{names[-1]}'])))
            for _ in range(draw(S.integers(0, 3))):
                out += draw(S.sampled_from('+-')) + draw(num)
            return out
        es = [expr() for _ in range(draw(S.integers(2, 4)))]
        if draw(S.booleans()):
            es = [names[0] + e for e in draw(S.lists(S.sampled_from(['', '-1', '-1/2', '+1/2', '-1/3', '-2/3', '-2', '+1', '-1+1/2', '-1/4-1/4', '-1/3-2/3']), min_size=2, max_size=4, unique=True))]
        vals = [{v: draw(S.integers(-1, 9)) for v in names} for _ in range(draw(S.integers(1, 4)))]
        return {'names': names, 'es': es, 'vals': vals, 'f': f, 't0': draw(S.sampled_from([0., 1., -2.5, .1])), 'dt': draw(S.sampled_from([.1, .5, 1., .03])),
                'n': draw(S.integers(1, 12)), 'late': draw(S.booleans())}
    return mk()


def exact(e, vals):
    import re
    e = re.sub(r'[0-9.]+', lambda m: f'Q("{m.group()}")', e)
    return eval(e, {'Q': Q}, {v: Q(x) for v, x in vals.items()})


def prop_instants(case):
    T, P = tidy()
    ph = boot.phyem()
    ts = ph.time_sequence()
    t0, dt, n, f = case['t0'], case['dt'], case['n'], case['f']

    def specify():
        ts.specify('constant', [t0, t0 + n * dt, n * f], f)
    if not case['late']:
        specify()
    es = case['es']
    at = [ts[e] for e in es]
    for e, a in zip(es, at):
        require(ts[e] is a and a == ts[e] and a.k == e and a.time_sequence is ts, f'instant {e} asked for twice', key='same')
    pairs = [(i, j) for i in range(len(es)) for j in range(len(es)) if es[i] != es[j]]
    iv = {p: ts.make_time_interval(*(at[i] if case['late'] else es[i] for i in p)) for p in pairs}
    for p, v in iv.items():
        require(v.start is at[p[0]] and v.end is at[p[1]] and ts.make_time_interval(es[p[0]], es[p[1]]) is v, 'the interval is the one between its instants', key='same')
    specify() if case['late'] else None
    hits = 0

    def get(f_, **kw):
        try:
            return f_(**kw)
        except T.TimeInstantError:
            return None

    for vals in case['vals']:
        time = {}
        for e, a in zip(es, at):
            kw = {v: x for v, x in vals.items() if v in e}
            k = exact(e, vals)
            valid = (k * f).denominator == 1 and -1 <= k <= n + 1
            got = get(a, **kw)
            require((got is not None) == valid, f"t['{e}'] at {kw} is t[{k}] ({n} steps, factor {f}): {got}", key='valid')
            if valid:
                close([got()], [t0 + float(k) * dt], f"t['{e}'] at {kw}", 1e-9, 1e-9)
                time[e] = k
                hits += 1
        for (i, j), v in iv.items():
            if es[i] not in time or es[j] not in time:
                continue
            d = time[es[j]] - time[es[i]]
            used = {x for x in vals if x in es[i] and x in es[j]}
            if any(x in es[i] + es[j] and x not in used for x in vals):
                continue           # an interval takes the variables that both of its ends have
            kw = {x: vals[x] for x in used}
            try:
                got = v(**kw)
            except AssertionError:
                got = None
            require((got is not None) == (d > 0) or d == 0, f'the interval from {es[i]} to {es[j]} at {kw} of length {d} steps: {got}', key='interval')
            if got is None or d <= 0:
                continue
            close([got(), got.end() - got.start()], [float(d) * dt] * 2, f'the interval from {es[i]} to {es[j]} at {kw}', 1e-8, 1e-9)
            for num in (1, 2.5):
                q = num / v
                r = P._factor_parser(q._lin_repr)(**kw)
                close([r], [num / (float(d) * dt)], f'{num} / interval', 1e-7, 1e-9)
            s = P._factor_parser(v._as_scalar()._lin_repr)(**kw)
            close([s() if callable(s) else s], [float(d) * dt], 'interval as a scalar', 1e-8, 1e-9)
    return {'nontrivial': hits > 1, 'labels': [f'factor {f}', f"{len(case['names'])} variable(s)"]}


# ---------------------------------------------------------------------------------------------- parameters
def s_par():
    S = fe.st()
    num = S.one_of(S.integers(-20, 20), S.sampled_from([.5, .25, 1 / 3, 1 / 6, 1 / 7, 1 / 49, 1e-3, -.5, 2.5, 1e6, .1, 3.7, -1 / 3]), fe.s_num(-9, 9, 3))

    @S.composite
    def mk(draw):
        return {'a': draw(num), 'b': draw(num), 'ops': draw(S.lists(S.tuples(S.sampled_from(['+', 'r+', 's+']), num), max_size=4)),
                'vals': draw(S.lists(num, min_size=2, max_size=4)), 'fn': draw(S.booleans()), 'den': draw(num)}
    return mk()


def prop_par(case):
    T, P = tidy()
    cs = boot.phyem().constant_scalar
    a, b = case['a'], case['b']
    x, y = cs(a), cs(b)
    require(x.is_real() and x.is_root() and x() == a and x(k=3) == a, f'constant {a} has value {x()}', key='real')
    require(cs(a) is x, f'constant {a} made twice', key='same')
    require((x == y) == (float(a) == float(b)), f'{a} and {b} compare', key='same')
    s, v = x, float(a)
    for op, c in case['ops']:
        s = s + c if op == '+' else c + s if op == 'r+' else s + cs(c)
        v = v + c
        close([s()], [v], f'{a} plus numbers', 1e-9, 1e-9, key='add')
    p, q = cs(r'\alpha', 'alpha'), cs(r'\beta', 'beta')
    require(cs(r'\alpha', 'alpha') is p and not p.is_real() and p != q and p.is_root(), 'a named parameter', key='same')
    for val in case['vals']:
        p.value = (lambda k, w=val: w * k) if case['fn'] else val
        kw = {'k': 3} if case['fn'] else {}
        w = val * 3 if case['fn'] else val
        require(p(**kw) == w, f'parameter set to {val} is {p(**kw)}', key='value')
        den = case['den']
        if den:
            q.value = den
            close([P._factor_parser((p / den)._lin_repr)(**kw)], [w / den], f'parameter / {den}', 1e-9, 1e-9, key='div')
            if not case['fn']:
                close([P._factor_parser((p / q)._lin_repr)(**kw)], [w / den], 'parameter / parameter', 1e-9, 1e-9, key='div')
        if w and not case['fn']:
            close([P._factor_parser((cs(b) / p)._lin_repr)(**kw)], [b / w], f'{b} / parameter', 1e-9, 1e-9, key='div')
    return {'nontrivial': bool(case['ops']) or a % 1 != 0, 'labels': ['integer' if a % 1 == 0 else 'fraction']}


# ------------------------------------------------------------------------------------------------ schemes
def s_scheme():
    S = fe.st()
    from checks.C11 import TW

    @S.composite
    def mk(draw):
        spec = draw(fe.s_spec(dims=(1, 2, 2, 2, 3), maxp=(3, 2, 1), maxn=(4, 3, 2), types=TW))
        kind = draw(S.sampled_from(['constant', 'constant', 'function']))
        f = draw(S.sampled_from([1, 2, 3, 4])) if kind == 'constant' else 4
        # instants are k - j/f; no more than three, of which k is one.
        js = [0] + draw(S.lists(S.integers(1, 2 * f), min_size=1, max_size=2, unique=True))

        def pick(m):
            return draw(S.lists(S.sampled_from(js), min_size=1, max_size=m, unique=True))
        nt = len(js) - 1
        return {'spec': spec, 'k': draw(S.integers(0, spec['dim'] - 1)), 'o': draw(S.sampled_from([O, I])), 'kind': kind, 'f': f, 'js': js,
                'text': [draw(S.integers(0, 2)) for _ in js],
                'start': [js[1 + draw(S.integers(0, nt - 1))] for _ in range(2)],
                'avg': [pick(3), pick(3), pick(3)], 'sgn': [draw(S.sampled_from(['+', '-'])) for _ in range(3)], 'side': [draw(S.integers(0, 1)) for _ in range(3)],
                'coef': draw(S.sampled_from([0, 0, 2, 3, 'nu'])), 'nu': draw(fe.s_num(-3, 3, 2)),
                't0': draw(S.sampled_from([0., 1., -2.5])), 'dt': draw(S.sampled_from([.5, .1, .03])), 'dts': draw(S.lists(fe.s_num(.05, 1, 2), min_size=8, max_size=8)),
                'step': draw(S.integers(2, 4)), 'seed': draw(S.integers(0, 10 ** 6))}
    return mk()


def text(j, f, how):
    """k - j/f as a user may write it"""
    if j == 0:
        return 'k'
    q = Q(j, f)
    if q.denominator == 1:
        return f'k-{q.numerator}'
    if how == 1 and q.denominator in (2, 4):
        return f'k-{float(q)}'
    if how == 2 and q > 1:
        return f'k-1-{(q - 1).numerator}/{(q - 1).denominator}'
    return f'k-{q.numerator}/{q.denominator}'


def evaluate(lin, env):
    """The value of the linguistic representation of a linear combination of forms (env: representation -> number)."""
    from phyem.src.config import _global_operator_lin_repr_setting as op
    from phyem.src.form.parameters import _find_root_scalar_parameter
    pos = 0

    def at(s):
        return lin.startswith(s, pos)

    def sum_():
        nonlocal pos
        v = prod()
        while True:
            if at(op['plus']):
                pos += len(op['plus'])
                v = v + prod()
            elif at(op['minus']):
                pos += len(op['minus'])
                v = v - prod()
            else:
                return v

    def prod():
        nonlocal pos
        v = atom()
        while True:
            if at(op['division']):
                pos += len(op['division'])
                v = v / atom()
            elif at(op['multiply']):
                pos += len(op['multiply'])
                v = v * atom()
            else:
                return v

    def atom():
        nonlocal pos
        if at(r'\{'):
            pos += 2
            v = sum_()
            if not at(r'\}'):
                raise HarnessError(f'braces in {lin}')
            pos += 2
            return v
        for name in ('d', 'codifferential'):
            if at(op[name]):
                pos += len(op[name])
                return atom()
        for r in sorted(env, key=len, reverse=True):
            if at(r):
                pos += len(r)
                return env[r]
        end = lin.index('}', pos) + 1
        c = _find_root_scalar_parameter(lin[pos:end])
        if c is None:
            raise Violation(f'{lin[pos:end]} appears in {lin}, which is none of the forms at the instants of this term', key='text')
        pos = end
        return c()
    v = sum_()
    if pos != len(lin):
        raise HarnessError(f'{lin} read up to {pos}')
    return v


def prop_scheme(case):
    tidy()
    spec, k, o, f = case['spec'], case['k'], case['o'], case['f']
    ka, kb = (k + 1, o), (k, o)
    names = {j: text(j, f, h) for j, h in zip(case['js'], case['text'])}
    S0, S1, S2 = case['sgn']
    hold = {}
    coef = case['coef']

    def make(D):
        ph = boot.phyem()
        a, b = D.abs_forms[ka], D.abs_forms[kb]
        da_dt, db_dt = a.time_derivative(), b.time_derivative()
        cd_a, d_b = a.codifferential(), b.exterior_derivative()
        # da_dt + S0 d_b + S2 [coef] a = 0;   db_dt + S1 cd_a = 0, each term on either side
        flip = {'+': '-', '-': '+'}
        eqs, sides = [], []
        for i, terms in enumerate(([('+', 'da_dt', 0), (S0, 'd_b', case['side'][0])] + ([(S2, 'ca', case['side'][2])] if coef else []),
                                   [('+', 'db_dt', 0), (S1, 'cd_a', case['side'][1])])):
            lhs = [(s, n) for s, n, r in terms if not r]
            rhs = [(flip[s], n) for s, n, r in terms if r]
            eqs.append(' '.join(f'{s} {n}' for s, n in lhs).lstrip('+ ') + ' = ' + (' '.join(f'{s} {n}' for s, n in rhs).lstrip('+ ') or '0'))
            sides.append([n for _, n in lhs + rhs])
        nu = None
        table = {'da_dt': da_dt, 'd_b': d_b, 'db_dt': db_dt, 'cd_a': cd_a}
        if coef:
            if coef == 'nu':
                nu = ph.constant_scalar(r'\nu', 'nu')
                nu.value = case['nu']
                table['ca'] = nu * a
            else:
                table['ca'] = coef * a
        pde = ph.pde(eqs, table)
        pde._indi_dict = None
        pde.unknowns = [a, b]
        wf = pde.test_with([a.space, b.space], sym_repr=['p', 'q'])
        j1 = sides[1].index('cd_a')
        wf = wf.derive.integration_by_parts(f'1-{j1}', drop_bi_term=True)
        if case['side'][1]:
            wf = wf.derive.rearrange({1: '0 = 1'})
        ts = ph.time_sequence()
        if case['kind'] == 'constant':
            ts.specify('constant', [case['t0'], case['t0'] + 6 * case['dt'], 6 * f], f)
        else:
            it = iter(case['dts'])
            ts.specify('function', case['t0'], lambda: next(it))
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants(*names.values())
        where = {'d_b': (0, sides[0].index('d_b'), b, case['avg'][0]), 'cd_a': (1, 1, a, case['avg'][1])}
        if coef:
            where['ca'] = (0, sides[0].index('ca'), a, case['avg'][2])
        td.differentiate('0-0', names[case['start'][0]], 'k')
        td.differentiate('1-0', names[case['start'][1]], 'k')
        for n, (i, j, form, av) in where.items():
            td.average(f'{i}-{j}', form, [names[_] for _ in av])
        wf = td()
        # what the formulation says
        dts = {}
        for i, form in enumerate((a, b)):
            js = case['start'][i]
            dt = dts[i] = ts.make_time_interval(names[js], 'k')
            rep = wf[f'{i}-0'][1]._f0._lin_repr
            from phyem.src.config import _parse_lin_repr
            env = {(form @ ts['k'])._lin_repr: 5., (form @ ts[names[js]])._lin_repr: 2., dt._as_scalar()._lin_repr: .25}
            close([evaluate(rep, env)], [12.], f'the difference quotient of equation {i}: {rep}', 1e-12, 1e-12, key='text')
        for n, (i, j, form, av) in where.items():
            term = wf[f'{i}-{j}'][1]
            rep = term._f0._lin_repr
            env = {(form @ ts[names[_]])._lin_repr: float((q + 2) ** 3) for q, _ in enumerate(av)}
            cf = nu() if coef == 'nu' else coef
            if coef == 'nu':
                env[nu._lin_repr] = cf
            close([evaluate(rep, env) * term._factor()], [np.mean([(q + 2) ** 3 for q in range(len(av))]) * (cf if n == 'ca' else 1)],
                  f'the average of term {n}: {rep}', 1e-12, 1e-12, key='text')
        hold['sides'] = sides
        # split, the last term first
        todo = [(0, 0, None), (1, 0, None)] + [(i, j, n) for n, (i, j, *_) in where.items()]
        for i, j, n in sorted(todo, reverse=True, key=lambda _: _[:2]):
            if n is None:
                form = (a, b)[i]
                wf = wf.derive.split(f'{i}-0', 'f0', [form @ ts['k'], form @ ts[names[case['start'][i]]]], ['+', '-'], factors=[1 / dts[i], 1 / dts[i]])
            else:
                _, _, form, av = where[n]
                m = len(av)
                if m == 1:
                    continue                      # already a term of one instant
                fs = [form @ ts[names[_]] for _ in av]
                if n == 'd_b':
                    fs = [_.exterior_derivative() for _ in fs]
                fac = [1 / m] * m if n != 'ca' else [nu / m if nu is not None else coef / m] * m
                wf = wf.derive.split(f'{i}-{j}', 'f0', fs, ['+'] * m, factors=fac)
        wf.unknowns = [a @ ts['k'], b @ ts['k']]
        # unknowns to the left
        new = {}
        for i in (0, 1):
            left, right = wf._term_dict[i]
            left_, right_ = [], []
            unk = {(a @ ts['k'])._lin_repr, (b @ ts['k'])._lin_repr}
            for q, t in enumerate(left + right):
                (left_ if any(u in t._f0._lin_repr or u in t._f1._lin_repr for u in unk) else right_).append(str(q))
            new[i] = ', '.join(left_) + ' = ' + ', '.join(right_)
        wf = wf.derive.rearrange(new)
        ph.space.finite(fe.parse_degree(spec['degree']))
        hold['ts'] = ts
        return {'ls': wf.mp().ls(), 'a': a, 'b': b}

    D = fe.Disc(spec, keys=[ka, kb], make_abstract=make)
    ts = hold['ts']
    K = case['step']
    for k_ in range(1, K + 1):
        ts['k'](k=k_)                            # sequences of functions advance step by step
    time = {j: ts[names[j]](k=K)() for j in case['js']}
    if case['kind'] == 'constant':
        want = {j: case['t0'] + (K - j / f) * case['dt'] for j in case['js']}
    else:
        cum = np.concatenate([[0.], np.cumsum(case['dts'])])
        want = {j: case['t0'] + float(np.interp(K - j / f, np.arange(len(cum)), cum)) for j in case['js']}
    for j in case['js']:
        close([time[j]], [want[j]], f'the time of {names[j]} at k={K}', 1e-9, 1e-8)
    coch = {}
    for n, key in enumerate((ka, kb)):
        for q, j in enumerate(case['js']):
            v, _ = fe.rng_cochains(D, key, case['seed'] + 10 * n + q)
            coch[key, j] = v
            if j:
                D.set_cochain(key, time[j], v)
    ls = D.objs['ls'].apply()
    st = ls(k=K)
    als = st.assemble()
    A, rhs = (als.A.M, als.b.V) if D.lib == 'msehtt' else (als.A._M, als.b._v)
    A, rhs = A.toarray(), np.array(rhs)
    # the residual at 'coch[.., 0]'
    cg = st.global_gathering_matrices[1]
    where = {}
    for e in D.elements:
        g, m = np.asarray(cg[e]), len(coch[ka, 0][e])
        where[ka, e], where[kb, e] = g[:m], g[m:]
    x = np.zeros(1 + max(int(np.max(g)) for g in where.values()))
    for key in (ka, kb):
        for e in D.elements:
            x[where[key, e]] = coch[key, 0][e]
    require(A.shape == (x.size, x.size), f'the system is {A.shape}, not {x.size}', key='shape')
    ref, mag = np.zeros_like(x), np.zeros_like(x)
    s = {n: {'+': 1., '-': -1.}[v] for n, v in zip(('d_b', 'cd_a', 'ca'), case['sgn'])}
    cf = case['nu'] if coef == 'nu' else coef
    for e in D.elements:
        Ma, Mb, E = D.M(ka, e), D.M(kb, e), D.E(kb, e)

        def add(key, val):
            idx = where[key, e]
            np.add.at(ref, idx, val)
            np.add.at(mag, idx, np.abs(val))
        for key, M, i in ((ka, Ma, 0), (kb, Mb, 1)):
            j = case['start'][i]
            d = time[0] - time[j]
            add(key, M @ coch[key, 0][e] / d)
            add(key, -M @ coch[key, j][e] / d)
        for j in case['avg'][0]:
            add(ka, s['d_b'] * Ma @ (E @ coch[kb, j][e]) / len(case['avg'][0]))
        for j in case['avg'][1]:
            add(kb, s['cd_a'] * E.T @ (Ma @ coch[ka, j][e]) / len(case['avg'][1]))
        if coef:
            for j in case['avg'][2]:
                add(ka, s['ca'] * cf * Ma @ coch[ka, j][e] / len(case['avg'][2]))
    got = A @ x - rhs
    close(got, ref, f'the residual of the scheme (instants {names}, k={K})', 1e-7, 0, scale=np.max(mag), key='residual')
    return {'nontrivial': len(case['js']) > 2 or len(case['avg'][0]) > 1, 'labels': fe.labels(spec) + [case['kind'], f'factor {f}', f'coefficient {coef}']}


SUBS = [
    Sub('sequences', s_seq, prop_seq, 10000, 200000, 'At least two requested instants are valid.'),
    Sub('instants', s_expr, prop_instants, 4000, 60000, 'At least two instants are valid.'),
    Sub('parameters', s_par, prop_par, 3000, 40000, 'Something is added, or a fraction.'),
    Sub('schemes', s_scheme, prop_scheme, 500, 8000, 'Three instants, or an average of several.'),
]
