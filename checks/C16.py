"""C16: equations are read as written, tested term by term, and every derivation changes exactly what it says."""
from lib import boot, fe
from lib.core import Sub, require
from checks.C13 import OPS

ASSUMPTIONS = ['Terms are compared through the forms they pair (their linguistic representations), their kind and their factor.']

I, O = fe.I, fe.O
NAMES = ['a', 'b', 'ab', 'a1', 'a_0', 'da_dt', 'dadt', 'u', 'u1', 'u10', 'x', 'dx', 'cdx', 'Re', 'w0', 'omega', 'd_u', 'term', 'f', 'ff']
GAPS = ['', ' ', '  ']
SYMS = ['u', 'u_2', 'uu', r'\mu', r'\tilde{u}', r'\omega', 'm', 'w', 'a^2', 'a', r'\alpha', 'tr', r'\star u', 'k', 'k_{(k)}', 't', 'e', 'l', 'f^k', 'd']


# ------------------------------------------------------------------------------------------------------------ generation
def exprs(dim, s):
    """The kinds of expressions in the space s."""
    k, o = s
    out = ['root', 'dt', 'times', 'at', 'star']
    if k > 0:
        out += ['d', 'd at']
    if k < dim:
        out += ['cd', 'cd', 'cd at', 'times cd']
    if dim in OPS:
        out += [['x', list(a), list(b)] for (a, b), c in sorted(OPS[dim]['cross_product'].items()) if c == tuple(s)]
    return out


def s_case():
    S = fe.st()

    @S.composite
    def mk(draw):
        dim = draw(S.sampled_from([1, 2, 2, 3, 3]))
        keys = [(k, o) for k in range(dim + 1) for o in (I, O)]
        eqs, names = [], list(draw(S.permutations(NAMES)))
        n = draw(S.integers(1, 3))
        for i in range(n):
            s = draw(S.sampled_from(keys))
            pool = exprs(dim, s)
            terms = []
            for j in range(draw(S.integers(1, 4))):
                kind = draw(S.sampled_from(['root', 'dt', 'times', 'root'] if j == 0 else pool))
                terms.append({'kind': kind, 'base': 0 if j == 0 else draw(S.integers(0, 2)), 'neg': draw(S.booleans()),
                              'side': draw(S.integers(0, 1)), 'again': draw(S.integers(0, 5)) == 0})
            eqs.append({'space': s, 'terms': terms, 'order': draw(S.permutations(list(range(len(terms))))), 'zero': draw(S.booleans()),
                        'plus': draw(S.booleans()), 'gap': draw(S.sampled_from(GAPS)), 'form': draw(S.booleans())})
        op = S.sampled_from(['replace', 'delete', 'rearrange', 'rearrange', 'switch', 'split', 'ibp', 'ibp', 'sub', 'merge', 'text'])
        ops = [{'op': draw(op), 'at': draw(S.integers(0, 50)), 'n': draw(S.integers(1, 3)), 'bits': draw(S.lists(S.booleans(), min_size=12, max_size=12)),
                'perm': draw(S.permutations(list(range(8)))), 'as': draw(S.integers(0, 5)), 'cut': draw(S.integers(0, 8))}
               for _ in range(draw(S.integers(0, 7)))]
        return {'dim': dim, 'periodic': draw(S.booleans()), 'eqs': eqs, 'names': names, 'syms': draw(S.permutations(SYMS)), 'lin': draw(S.integers(0, 4)), 'ops': ops, 'single': draw(S.booleans()), 'reprs': draw(S.booleans()),
                'dict': draw(S.booleans()), 'bcs': draw(S.lists(S.tuples(S.integers(0, 1), S.integers(0, 2)), max_size=3))}
    return mk()


# ------------------------------------------------------------------------------------------------------------ the model
def flip(s, do=True):
    return {'+': '-', '-': '+'}[s] if do else s


class T:
    """A term of the model: kind, forms, factor; and what is needed to predict derivations."""

    def __init__(self, kind, f0, f1, factor='1', base=None, root=None, make=None):
        self.kind, self.f0, self.f1, self.factor, self.base, self.root, self.make = kind, f0, f1, factor, base, root, make

    def roots(self):
        return set(self.f0.elementary_forms) | set(self.f1.elementary_forms)


def same(real, t, what):
    want = {'in': 'L2InnerProductTerm', 'dp': 'DualityPairingTerm'}[t.kind]
    require(type(real).__name__ == want, f'{what}: the term is a {type(real).__name__}', key='kind')
    got = (real._f0._lin_repr, real._f1._lin_repr)
    require(got == (t.f0._lin_repr, t.f1._lin_repr), f'{what}: the term pairs {got}, not {(t.f0._lin_repr, t.f1._lin_repr)}', key='forms')
    require(real._f0.space is t.f0.space and real._f1.space is t.f1.space, f'{what}: the spaces of the forms of the term', key='spaces')
    require(value(real._factor) == t.factor, f'{what}: the factor is {value(real._factor)}, not {t.factor}', key='factor')


def value(factor):
    return factor._lin_repr


def compare(wf, model, unknowns, tests, bc, what):
    require(len(wf) == len(model), f'{what}: {len(wf)} equations, not {len(model)}')
    order = [f'{i}-{k}' for i, (le, ri) in enumerate(model) for k in range(len(le) + len(ri))]
    require(list(wf) == order, f'{what}: the indices are {list(wf)}, not {order}', key='indices')
    roots = set()
    for i, sides in enumerate(model):
        k = 0
        for j, side in enumerate(sides):
            for sign, t in side:
                at = f'{i}-{k}'
                require(at in wf, f'{what}: {at} is in the formulation')
                got, real = wf[at]
                same(real, t, f'{what}: {at}')
                require(got == sign, f'{what}: the sign of {at} is {got}', key='sign')
                require(wf.terms[at] is real, f'{what}: terms[{at}]')
                require(wf._parse_index(at)[:2] == (i, j), f'{what}: {at} is on side {wf._parse_index(at)[1]}, not {j}', key='side')
                roots |= t.roots()
                k += 1
        require(f'{i}-{k}' not in wf, f'{what}: {i}-{k} is not an index')
    got = [f._lin_repr for f in wf.elementary_forms]
    require(sorted(got) == sorted(f._lin_repr for f in roots), f'{what}: the elementary forms are {got}', key='elementary')
    require((wf.unknowns is None) == (unknowns is None) and (unknowns is None or all(x is y for x, y in zip(wf.unknowns, unknowns, strict=True))),
            f'{what}: the unknowns are {wf.unknowns}', key='unknowns')
    require(len(wf.test_forms) == len(tests) and all(x is y for x, y in zip(wf.test_forms, tests)), f'{what}: the test forms', key='tests')
    require(wf._bc is bc, f'{what}: the boundary conditions are handed on', key='bc')


class World:
    def __init__(self, case):
        self.case, self.ph, self.dim = case, boot.phyem(), case['dim']
        ph, dim = self.ph, self.dim
        ph.config.set_embedding_space_dim(dim)
        self.man = ph.manifold(dim, periodic=case['periodic'])
        self.mesh = ph.mesh(self.man)
        ph.space.set_mesh(self.mesh)
        self.ts = ph.time_sequence()
        self.made = {}
        self.params = {}
        self.n = 0

    def sym(self):
        return self.case['syms'][self.n - 1] if self.n <= len(self.case['syms']) else f's_{{{self.n}}}'

    def lin(self):
        return ['', 'lin-', 'the form ', 'r', '1'][(self.n + self.case['lin']) % 5]

    def space(self, s):
        return self.ph.space.new('Lambda', s[0], orientation=s[1])

    def root(self, s, tag):
        if (s, tag) not in self.made:
            self.n += 1
            self.made[(s, tag)] = self.space(s).make_form(self.sym(), f'{self.lin()}r{self.n}')
        return self.made[(s, tag)]

    def fresh(self, s):
        self.n += 1
        return self.space(s).make_form(self.sym(), f'{self.lin()}z{self.n}')

    def param(self, i):
        if i not in self.params:
            self.params[i] = self.ph.constant_scalar(f'p_{i}', f'par-{i}')
        return self.params[i]

    def build(self, kind, s, tag, i):
        """(form of the expression, what it is tested as: form, factor, base form below a codifferential, root, how to rebuild)."""
        ph, dim = self.ph, self.dim
        k, o = s
        at = (lambda f: f @ self.ts['k']) if isinstance(kind, str) and kind.endswith(' at') or kind == 'at' else (lambda f: f)
        name = kind if isinstance(kind, list) else kind.replace(' at', '')
        if isinstance(name, list):
            _, a, b = name
            A, B = self.root(tuple(a), tag), self.root(tuple(b), 2 - tag)
            f = A.cross_product(B)
            return f, f, '1', None, (A, lambda z: z.cross_product(z if B is A else B))
        if name in ('root', 'at'):
            r = self.root(s, tag)
            f = at(r)
            return f, f, '1', None, (f, lambda z: z)
        if name == 'dt':
            r = self.root(s, tag)
            f = r.time_derivative()
            return f, f, '1', None, (r, lambda z: z.time_derivative())
        if name == 'times':
            r, p = self.root(s, tag), self.param(i)
            return p * r, r, value(p), None, (r, lambda z: z)
        if name == 'star':
            r = self.root((dim - k, O if o == I else I), tag)
            f = ph.Hodge(r)
            return f, f, '1', None, (r, ph.Hodge)
        if name == 'd':
            r = at(self.root((k - 1, o), tag))
            f = r.exterior_derivative()
            return f, f, '1', None, (r, lambda z: z.exterior_derivative())
        r = at(self.root((k + 1, o), tag))
        f = r.codifferential()
        if name == 'times cd':
            p = self.param(i)
            return p * f, f, value(p), r, (r, lambda z: z.codifferential())
        return f, f, '1', r, (r, lambda z: z.codifferential())


def prop_history(case):
    W = World(case)
    ph, dim = W.ph, W.dim
    interp, text, listed, unknowns, spaces = {'junk': 3, 'a ': 'b', 'e': [1]}, [], [], [], []
    names = list(case['names'])
    used = {}
    for i, eq in enumerate(case['eqs']):
        s = tuple(eq['space'])
        spaces.append(s)
        sides = [[], []]
        u = W.root(s, f'u{i}')
        unknowns.append(u)
        terms = []
        for j, t in enumerate(eq['terms']):
            tag = f'u{i}' if j == 0 else t['base']
            kind = t['kind']
            if kind in ('times', 'times cd') and (str(kind), s, tag, 'p') in used:
                terms.append((t, used[(str(kind), s, tag, 'p')]))
                continue
            key = (str(kind), s, tag, 'p')
            if key not in used:
                if not names:
                    continue
                b = W.build(kind, s, tag, i)
                used[key] = (names.pop(), b)
                interp[used[key][0]] = b[0]
            terms.append((t, used[key]))
        for j in eq['order']:
            if j >= len(terms):
                continue
            t, (name, b) = terms[j]
            for _ in range(2 if t['again'] else 1):
                sides[t['side']].append(('-' if t['neg'] else '+', name, b))
        g = eq['gap']
        words = []
        for side in sides:
            w = ''
            for m, (sign, name, b) in enumerate(side):
                w += (f'{g}{sign}{g}' if m or sign == '-' or eq['plus'] else g) + name
            if not side and eq['zero']:
                w = g + '0'
            words.append(w + g)
        text.append('='.join(words))
        listed.append(sides)
    # ---- the equations
    if case['dict']:
        tm = {i: tuple([b[0] for _, _, b in side] for side in sides) for i, sides in enumerate(listed)}
        sg = {i: tuple([x for x, _, _ in side] for side in sides) for i, sides in enumerate(listed)}
        pde = ph.pde(terms_and_signs_dict=(tm, sg))
    else:
        pde = ph.pde(text[0] if len(text) == 1 and case['single'] else text, interp)
    what = f'{text}'
    require(len(pde) == len(listed), f'{what}: {len(pde)} equations')
    flat = [(f'{i}-{k}', x) for i, sides in enumerate(listed) for k, x in enumerate(sides[0] + sides[1])]
    require(list(pde) == [a for a, _ in flat], f'{what}: the indices {list(pde)}')
    roots = set()
    for at, (sign, name, b) in flat:
        got = pde[at]
        require(got[0] == ('' if case['dict'] else name) and got[1] == sign and got[2] is b[0], f'{what}: term {at} is read as {got}', key='pde')
        roots |= set(b[0].elementary_forms)
    require(set(pde.elementary_forms) == roots, f'{what}: the elementary forms {pde.elementary_forms}')
    require(pde.mesh is W.mesh, 'the mesh')
    pde.unknowns = unknowns if len(unknowns) > 1 or not case['single'] else unknowns[0]
    # ---- boundary conditions
    bc = None
    if case['bcs'] and not case['periodic'] and dim > 1:
        bc = pde.bc
        bc.partition(r'\Gamma_0', r'\Gamma_1')
        want = {}
        for j, w in case['bcs']:
            u = unknowns[w % len(unknowns)]
            if u.space.k == dim:
                u = ph.Hodge(u)
            f = ph.trace(u)
            sec = rf'\Gamma_{j}'
            bc.define_bc({sec: f if w else [f]})
            want.setdefault(sec, []).append(f)
        require(set(bc) == set(want) and len(bc) == len(want), f'the sections with conditions are {list(bc)}', key='bc')
        for sec in (r'\Gamma_0', r'\Gamma_1'):
            require((sec in bc) == (sec in want), f'{sec} has conditions: {sec in bc}', key='bc')
            if sec in want:
                require(len(bc[sec]) == len(want[sec]) and all(x is y for x, y in zip(bc[sec], want[sec])), f'the conditions on {sec}', key='bc')
    # ---- testing
    forms = [eq['form'] for eq in case['eqs']]
    args = [u if f else u.space for u, f in zip(unknowns, forms)]
    wf = pde.test_with(args if len(args) > 1 or case['single'] else args[0],
                       sym_repr=[f'v_{i}' for i in range(len(args))] if case['reprs'] else None)
    V = list(wf.test_forms)
    require(len(V) == len(args), f'{len(V)} test forms')
    for i, v in enumerate(V):
        require(v.space is unknowns[i].space and v.is_root(), f'test form {i} is in {v.space}')
        require(not case['reprs'] or v._sym_repr == f'v_{i}', f'test form {i} is called {v._sym_repr}')
    from phyem.src.form.parameters import constant_scalar
    one = value(constant_scalar(1))
    fac = lambda b: one if b == '1' else b  # noqa
    model = [[[(sign, T('in', b[1], V[i], fac(b[2]), b[3], b[4][0], b[4][1])) for sign, _, b in side] for side in sides] for i, sides in enumerate(listed)]
    compare(wf, model, unknowns, V, bc, f'{what} tested')
    history = [(wf, [[list(s) for s in m] for m in model], unknowns, V, bc)]
    done = []
    for op in case['ops']:
        r = step(W, wf, model, unknowns, V, bc, op, one)
        if r is None:
            continue
        wf, model, unknowns, V, bc = r
        done.append(op['op'])
        compare(wf, model, unknowns, V, bc, f'{what} after {done}')
        history.append((wf, [[list(s) for s in m] for m in model], unknowns, V, bc))
    for n, h in enumerate(history[:-1]):
        compare(*h, f'{what}: the formulation before {done[n:]}')
    return {'nontrivial': len(done) > 1, 'labels': sorted(set(done)) or ['none']}


def present(model, unknowns):
    have = set()
    for sides in model:
        for side in sides:
            for _, t in side:
                have |= t.roots()
    return unknowns is None or all(u in have for u in unknowns)


def step(W, wf, model, unknowns, V, bc, op, one):
    ph = W.ph
    flat = [(i, j, m) for i, sides in enumerate(model) for j, side in enumerate(sides) for m in range(len(side))]
    i, j, m = flat[op['at'] % len(flat)]
    at = f'{i}-{m + (len(model[i][0]) if j else 0)}'
    sign, t = model[i][j][m]
    new = [[list(s) for s in sides] for sides in model]
    kind, bits, n = op['op'], op['bits'], op['n']
    s_of = lambda f: (f.space.k, f.space.orientation)  # noqa

    def put(items):
        new[i][j][m:m + 1] = [(flip(x, sign == '-'), y) for x, y in items]
    if kind == 'replace':
        items, real = [], []
        for q in range(n if op['as'] else 1):
            f = W.root(s_of(V[i]), f'n{q}')
            p = [None, 3, W.param(i)][(op['as'] + q) % 3]
            w = T('in', f, V[i], one if p is None else value(p) if not isinstance(p, int) else value(ph.constant_scalar(p)), None, f, lambda z: z)
            items.append(('-' if bits[q] else '+', w))
            real.append(ph.inner(f, V[i], factor=p))
        keep = op['as'] > 2
        if keep:                         # the old term stays among the new ones
            items.insert(op['cut'] % (len(items) + 1), ('+', t))
            real.insert(op['cut'] % len(items), wf.terms[at])
        put(items)
        if not present(new, unknowns):
            return None
        if len(real) == 1 and op['as'] == 0:
            out = wf.derive.replace(at, real[0], items[0][0])
        else:
            out = wf.derive.replace(at, real, [x for x, _ in items])
    elif kind == 'delete':
        put([])
        if not present(new, unknowns) or not any(new[i]) or len(flat) == 1:
            return None
        out = wf.derive.delete(at)
    elif kind == 'switch':
        rows = sorted({x % len(model) for x in op['perm'][:n]})
        for a in rows:
            new[a] = [[(flip(x), y) for x, y in side] for side in new[a]]
        out = wf.derive.switch_sign(rows[0] if len(rows) == 1 and bits[0] else tuple(rows) if bits[1] else rows)
    elif kind == 'rearrange':
        arg = {}
        for a, sides in enumerate(model):
            size = len(sides[0]) + len(sides[1])
            how = (op['as'] + a) % 6
            if how == 0 or size == 0:
                arg[a] = [None, ''][a % 2]
                if bits[a]:
                    del arg[a]
                continue
            perm = [x for x in op['perm'] if x < size] + list(range(8, size))
            cut = op['cut'] % (size + 1)
            left, right = perm[:cut], perm[cut:]
            g = ' ' if bits[a] else ''
            w = lambda x: f'{g},{g}'.join(str(v) for v in x)  # noqa
            if how == 1 and left and right:       # the others go to the right, in their order
                arg[a] = w(left) + ('' if bits[3] else g + '=')
                right = sorted(right)
            elif how == 2 and left and right:     # the others go to the left, in their order
                arg[a] = f'{g}={g}' + w(right)
                left = sorted(left)
            else:
                arg[a] = w(left) + f'{g}={g}' + w(right)
            both = [(0, x) for x in sides[0]] + [(1, x) for x in sides[1]]
            new[a] = [[(flip(both[x][1][0], both[x][0] != b), both[x][1][1]) for x in xs] for b, xs in enumerate((left, right))]
        if len(arg) == len(model) and bits[5]:
            arg = [arg[a] for a in range(len(model))]
            arg = tuple(arg) if bits[6] else arg
        out = wf.derive.rearrange(arg)
    elif kind == 'split':
        if t.kind != 'in':
            return None
        side = bits[0]
        fs = [W.root(s_of(t.f0), f's{q}') for q in range(n)]
        signs = ['-' if b else '+' for b in bits[1:1 + n]]
        factors = None if bits[5] or t.factor != one else [1, 2, 3][:n]
        facs = [t.factor] * n if factors is None else [value(ph.constant_scalar(x)) if x != 1 else one for x in factors]
        mk = (lambda f, c: T('in', f, t.f1, c, None, f, lambda z: z)) if not side else (lambda f, c: T('in', t.f0, f, c, None, None, None))
        put([(x, mk(f, c)) for x, f, c in zip(signs, fs, facs)])
        if not present(new, unknowns):
            return None
        kw = {} if factors is None else {'factors': factors if n > 1 or bits[6] else factors[0]}
        out = wf.derive.split(at, 'f1' if side else 'f0', fs, signs, **kw)
    elif kind == 'ibp':
        cand = [x for x in flat if model[x[0]][x[1]][x[2]][1].base is not None and model[x[0]][x[1]][x[2]][1].kind == 'in']
        if not cand:
            return None
        i, j, m = cand[op['at'] % len(cand)]
        at = f'{i}-{m + (len(model[i][0]) if j else 0)}'
        sign, t = model[i][j][m]
        b, v = t.base, t.f1
        items = [('+', T('in', b, v.exterior_derivative(), t.factor))]
        drop = bits[0] and bits[1]
        if not W.case['periodic'] and not drop:
            items.append(('-', T('dp', ph.trace(ph.Hodge(b)), ph.trace(v), t.factor)))
        new[i][j][m:m + 1] = [(flip(x, sign == '-'), y) for x, y in items]
        out = wf.derive.integration_by_parts(at, **({'drop_bi_term': True} if drop else {}))
    elif kind == 'sub':
        if t.root is None or t.make is None or t.kind != 'in':
            return None
        k, o = s_of(t.root)
        if bits[2] and k > 0:
            z = W.fresh((k - 1, o)).exterior_derivative()
        elif bits[2] and k < W.dim and bits[3]:
            z = W.fresh((k + 1, o)).codifferential()
        else:
            z = W.fresh((k, o))
        f0 = t.make(z)
        change = bits[0]
        which = {} if bits[1] else {'which': [(0, 0), (0, [0]), ('f0', 0)][op['as'] % 3]}
        if which and f0._lin_repr.count(z._lin_repr) > 1:
            which = {'which': (0, [0, 1])}
        if t.root is t.f1:
            return None
        if bits[4] and bits[5]:
            term, pm = wf.terms[at].replace('f0', f0, change_sign=change)
            require(pm == ('-' if change else '+'), f'the sign of the term with {f0} instead of f0 is {pm}', key='sub')
            put([(pm, T(t.kind, f0, t.f1, t.factor, None if t.base is None else z, z, t.make))])
            if not present(new, unknowns):
                return None
            return wf.derive.replace(at, term, pm), new, unknowns, V, bc
        term, pm = wf.terms[at].replace(t.root, z, change_sign=change, **which)
        require(pm == ('-' if change else '+'), f'the sign of the term with {z} instead of {t.root} is {pm}', key='sub')
        put([(pm, T(t.kind, f0, t.f1, t.factor, None if t.base is None else z, z, t.make))])
        if not present(new, unknowns):
            return None
        out = wf.derive.replace(at, term, pm)
    elif kind == 'merge':
        if len(model) > 3:
            return None
        others = [wf] if bits[0] else []
        parts = [wf] + others
        out = ph.wf(None, wfs=parts)
        new = [[list(s) for s in sides] for _ in parts for sides in model]
        unknowns, bc, V = None, None, V * len(parts)
    else:                                  # write the formulation as text and read it
        names = {}
        text = []
        for a, sides in enumerate(model):
            words = []
            for b, side in enumerate(sides):
                w = ''
                for c, (x, _) in enumerate(side):
                    nm = f't{a}{b}{c}'
                    names[nm] = wf.terms[f'{a}-{c + (len(sides[0]) if b else 0)}']
                    w += f' {x} {nm}' if c or x == '-' or bits[0] else nm
                words.append(w or ('0' if bits[1] else ''))
            text.append('='.join(words))
        out = ph.wf(V, expression=text, interpreter=names)
        unknowns, bc = None, None
    return out, new, unknowns, V, bc


SUBS = [Sub('history', s_case, prop_history, 1500, 15000, 'two or more derivations')]
