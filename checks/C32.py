"""C32: operators on symbolic forms land in the spaces exterior calculus prescribes; spaces and forms keep their identity."""
from functools import partial

from lib import boot, fe
from lib.core import Sub, Violation, require
from checks.C13 import OPS

ASSUMPTIONS = ['The products of proxies (the cross products, convection, tensor product) are specified by a table of the implemented combinations.']

I, O = fe.I, fe.O
FLIP = {I: O, O: I, 'unknown': 'unknown'}
SPELL = {I: ['inner', 'i'], O: ['outer', 'o', 'default'], 'unknown': [None, 'None']}
UNARY = ['d', 'codifferential', 'Hodge', 'time_derivative', 'trace', 'at', 'times', 'divide', 'log', 'exterior_derivative']
BINARY = ['wedge', 'cross_product', 'Cross_Product', 'CrossProduct', 'crossProduct', 'convect', 'tensor_product', 'add', 'sub', 'multi', 'x']
CONVECT = {((1, I), (1, I)): (1, I), ((1, O), (0, I)): (0, I)}


# ------------------------------------------------------------------------------------------------------------ generation
def s_case():
    S = fe.st()

    @S.composite
    def mk(draw):
        dim = draw(S.sampled_from([1, 2, 2, 3, 3]))
        tame = draw(S.booleans())
        ori = S.sampled_from([I, O, I, O, I, O, 'unknown'])
        ops = []
        first = draw(S.integers(2, 5))
        for i in range(first + draw(S.integers(4, 22))):
            kind = 'root' if i < first else draw(S.sampled_from(['root', 'root', 'space', 'unary', 'unary', 'unary', 'binary', 'binary', 'binary', 'project', 'again', 'boundary']))
            op = {'op': kind}
            if kind in ('root', 'space'):
                o = draw(ori)
                op.update(k=draw(S.integers(-1, dim + 1) if draw(S.integers(0, 9)) == 0 else S.integers(0, dim)), o=o,
                          how=draw(S.integers(0, 2)), kind=draw(S.sampled_from(['Lambda'] if tame else ['Lambda'] * 3 + ['bundle', 'bundle', 'bundle-diagonal'])),
                          on=0 if tame else draw(S.sampled_from([0, 0, 0, 1])))
            elif kind == 'unary':
                op.update(name=draw(S.sampled_from(UNARY)), a=draw(S.integers(0, 99)), c=draw(S.integers(0, 4)))
            elif kind == 'binary':
                op.update(name=draw(S.sampled_from(BINARY)), a=draw(S.integers(0, 99)), b=draw(S.integers(0, 99)), c=draw(S.integers(0, 99)),
                          match=draw(S.sampled_from([True, True, True, False])))
            elif kind == 'project':
                op.update(a=draw(S.integers(0, 99)), b=draw(S.integers(0, 99)))
            elif kind == 'again':
                op.update(a=draw(S.integers(0, 99)))
            ops.append(op)
        return {'dim': dim, 'periodic': draw(S.sampled_from([False, False, False, True])), 'ops': ops}
    return mk()


# ------------------------------------------------------------------------------------------------------------ the model
class Sp:
    """A space of the model: on the mesh (0) or its boundary (1), indicator, k, orientation."""

    def __init__(self, on, kind, k, o):
        self.on, self.kind, self.k, self.o = on, kind, k, o

    def key(self):
        return self.on, self.kind, self.k, self.o


class F:
    """A form of the model: the real one, its space, its expression, its root forms."""

    def __init__(self, real, sp, expr, roots, root=False, at=False, remake=None):
        self.real, self.sp, self.expr, self.roots, self.root, self.at, self.remake = real, sp, expr, roots, root, at, remake


def range_of(name, a, n, b=None):
    """The space an operator maps into, or None when it is not defined (n: the dimension of the mesh of a)."""
    same = lambda k, o=None: Sp(a.on, a.kind, k, o or a.o)  # noqa
    plain = a.kind in ('Lambda', 'bundle')
    if name in ('d', 'exterior_derivative'):
        return same(a.k + 1) if plain and a.k < n else None
    if name == 'codifferential':
        return same(a.k - 1) if plain and a.k > 0 else None
    if name == 'Hodge':
        return same(n - a.k, FLIP[a.o]) if plain else None
    if name in ('time_derivative', 'at', 'times', 'divide', 'log'):
        return same(a.k)
    if name == 'trace':
        return Sp(1, 'Lambda', a.k, a.o) if a.kind == 'Lambda' and a.on == 0 and a.k < n else None
    if b is None:
        return None
    if name in ('add', 'sub'):
        return same(a.k) if a.key() == b.key() else None
    if name == 'multi':
        return None
    if a.on != b.on or a.kind != b.kind:
        return None
    if name == 'wedge':
        return same(a.k + b.k, a.o if a.o == b.o else 'unknown') if plain and a.k + b.k <= n else None
    pair = ((a.k, a.o), (b.k, b.o))
    if name == 'tensor_product':
        return same(1) if a.kind == 'bundle' and a.on == 0 and n == 2 and pair == ((0, I), (0, I)) else None
    if a.kind != 'Lambda' or a.on:
        return None
    t = CONVECT.get(pair) if name == 'convect' and n == 2 else OPS.get(n, {}).get(name, {}).get(pair)
    return same(*t) if t else None


class World:
    def __init__(self, case):
        self.ph, self.dim = boot.phyem(), case['dim']
        ph = self.ph
        ph.config.set_embedding_space_dim(self.dim)
        self.man = ph.manifold(self.dim, periodic=case['periodic'])
        self.mesh = ph.mesh(self.man)
        ph.space.set_mesh(self.mesh)
        self.ts = ph.time_sequence()
        self.periodic = case['periodic']
        self.spaces, self.forms, self.n, self.params, self.reprs = {}, [], 0, {}, {}

    def where(self, on):
        return self.mesh.boundary() if on else self.mesh

    def ndim(self, on):
        return self.dim - on

    def new(self, sp, how=0):
        kw = {}
        spell = SPELL[sp.o][how % len(SPELL[sp.o])]
        if spell != 'default':
            kw['orientation'] = spell
        return self.ph.space.new(sp.kind, sp.k, mesh=self.where(sp.on), **kw)

    def check_space(self, real, sp, what):
        got = (real.indicator, real.k, real.orientation)
        require(got == (sp.kind, sp.k, sp.o), f'{what}: the space is {got}, not {(sp.kind, sp.k, sp.o)}', key='space')
        require(real.mesh is self.where(sp.on) and real.manifold is self.where(sp.on).manifold, f'{what}: the mesh of the space', key='mesh')
        require(real.n == self.ndim(sp.on) and real.m == self.dim, f'{what}: the dimensions of the space', key='dims')
        require(real.opposite_orientation == FLIP[sp.o], f'{what}: the opposite orientation')
        if sp.key() in self.spaces:
            require(self.spaces[sp.key()] is real, f'{what}: one space is two objects', key='identity')
        else:
            require(all(real is not s for s in self.spaces.values()), f'{what}: two spaces are one object', key='identity')
            self.spaces[sp.key()] = real

    def parameter(self, c):
        if c not in self.params:
            self.params[c] = [lambda: self.ph.constant_scalar('c_1', 'c-one'), lambda: self.ph.constant_scalar('R', 'Reynolds'),
                              lambda: 2, lambda: -3, lambda: self.ph.constant_scalar(0.3)][c]()
        return self.params[c]

    def check_form(self, f, what):
        self.check_space(f.real.space, f.sp, what)
        require(f.real.orientation == f.sp.o and f.real.mesh is self.where(f.sp.on), f'{what}: orientation and mesh of the form', key='form')
        require(f.real.is_root() == f.root, f'{what}: is_root', key='root')
        require(f.real.elementary_forms == set(f.roots), f'{what}: the elementary forms are {[g._lin_repr for g in f.real.elementary_forms]}', key='elementary')
        if f.sp.kind == 'Lambda' and self.dim == self.ndim(f.sp.on) > 1:
            v = 'vector' if 0 < f.sp.k < self.dim else 'scalar'
            require(f.real.representing() == ['Lambda', self.dim, self.dim, v], f'{what}: representing', key='representing')

    def add(self, f, what):
        self.check_form(f, what)
        text = (f.real._lin_repr, f.real._sym_repr)
        if f.expr is not None:
            for e, t in self.reprs.items():
                if e == f.expr:
                    require(t == text, f'{what}: one expression, two representations: {t} and {text}', key='repr')
                else:
                    require(t[0] != text[0], f'{what}: two expressions, one representation: {text[0]}', key='repr')
            self.reprs[f.expr] = text
        self.forms.append(f)


def attempt(call, legal, what):
    """Runs an operation that the model calls legal or not; a refusal of a legal one is a violation, and the other way around."""
    try:
        out = call()
    except Exception as e:
        if legal:
            raise Violation(f'{what}: refused ({type(e).__name__}: {e})', key='refused')
        return None
    require(legal and out is not None or not legal and out is None, f'{what}: gives {out!r}', key='accepted')
    return out


def unary(W, name, f, c):
    ph = W.ph
    if name in ('times', 'divide'):
        p = W.parameter(c)
        return p * f if name == 'times' else f / p
    if name == 'at':
        return f @ W.ts['k' if c % 2 else 'k-1']
    return {'Hodge': ph.Hodge, 'trace': ph.trace}[name](f) if name in ('Hodge', 'trace') else getattr(f, name)()


def binary(name, f, g):
    return f + g if name == 'add' else f - g if name == 'sub' else getattr(f, name)(g)


def prop_history(case):
    W = World(case)
    ph = W.ph
    done, refused = set(), 0
    ok = lambda f: f.expr is not None  # noqa
    for step, op in enumerate(case['ops']):
        kind = op['op']
        what = f'step {step}'
        if kind in ('root', 'space'):
            sp = Sp(op['on'], op['kind'], op['k'], op['o'])
            if sp.on and W.periodic:
                continue
            n = W.ndim(sp.on)
            legal = 0 <= sp.k <= n and (sp.kind != 'bundle-diagonal' or sp.k in (0, n))
            s = attempt(lambda: W.new(sp, op['how']), legal, f'{what}: the space {sp.key()}')
            if s is None:
                refused += 1
                continue
            W.check_space(s, sp, what)
            if kind == 'root':
                W.n += 1
                f = s.make_form(f'r_{{{W.n}}}', f'root {W.n}')
                W.add(F(f, sp, ('root', W.n), (f,), root=True), f'{what}: a root form')
        elif kind == 'boundary':
            b = W.mesh.boundary()
            if W.periodic:
                require(type(b).__name__ == 'NullMesh' and b.ndim == W.dim - 1, f'{what}: the boundary of a periodic mesh', key='boundary')
            else:
                require(b is W.mesh.boundary() and b.inclusion() is W.mesh and b.ndim == W.dim - 1 and b.m == W.dim,
                        f'{what}: the boundary of the mesh', key='boundary')
                require(b.manifold is W.man.boundary() and b.manifold.inclusion() is W.man and b.manifold.ndim == W.dim - 1,
                        f'{what}: the boundary of the manifold', key='boundary')
                require(type(b.boundary()).__name__ == 'NullMesh' and type(b.manifold.boundary()).__name__ == 'NullManifold',
                        f'{what}: the boundary of the boundary', key='boundary')
        elif not W.forms:
            continue
        elif kind == 'again':
            f = W.forms[op['a'] % len(W.forms)]
            if f.remake is not None:
                g = f.remake()
                require(g.space is f.real.space and (g._lin_repr, g._sym_repr) == (f.real._lin_repr, f.real._sym_repr),
                        f'{what}: an operation, repeated, gives {g._lin_repr}, not {f.real._lin_repr}', key='again')
                require(not f.at or g is f.real, f'{what}: a form at an instant is one form', key='again')
        elif kind == 'project':
            f, s = W.forms[op['a'] % len(W.forms)], list(W.spaces)[op['b'] % len(W.spaces)]
            legal = s != f.sp.key()
            call = lambda f=f, s=s: f.real.project_to(W.spaces[s])  # noqa
            g = attempt(call, legal, f'{what}: the projection of {f.sp.key()} into {s}')
            if g is not None:
                W.add(F(g, Sp(*s), None, f.roots, remake=call), f'{what}: a projection')      # the representation has no target
        elif kind == 'unary':
            f, name = W.forms[op['a'] % len(W.forms)], op['name']
            n = W.ndim(f.sp.on)
            if name == 'trace' and W.periodic or name == 'trace' and f.sp.on:
                continue
            sp = range_of(name, f.sp, n)
            legal = sp is not None and (name != 'at' or f.root and not f.at)
            if name == 'at' and f.at:
                continue
            call = partial(unary, W, name, f.real, op['c'])
            g = attempt(call, legal, f'{what}: {name} of a form of {f.sp.key()}')
            if g is None:
                refused += 1
                continue
            done.add(name)
            expr = ({'exterior_derivative': 'd'}.get(name, name), f.expr) + ((op['c'],) if name in ('times', 'divide') else (op['c'] % 2,) if name == 'at' else ())
            at = name == 'at'
            W.add(F(g, sp, expr if ok(f) else None, (g,) if at else f.roots, root=at, at=at, remake=call), f'{what}: {name}')
        else:
            f, name = W.forms[op['a'] % len(W.forms)], op['name']
            fits = lambda u, v: any(range_of(x, u.sp, W.ndim(u.sp.on), v.sp) for x in (BINARY[1:5] if name == 'x' else [name]))  # noqa
            pairs = [(u, v) for u in W.forms for v in W.forms if fits(u, v)] if op['match'] else []
            f, g = pairs[(op['a'] * 100 + op['b']) % len(pairs)] if pairs else (f, W.forms[op['b'] % len(W.forms)])
            sp = range_of(name, f.sp, W.ndim(f.sp.on), g.sp)
            what = f'{what}: {name} of forms of {f.sp.key()} and {g.sp.key()}'
            if name == 'multi':
                s = list(W.spaces)[op['c'] % len(W.spaces)]
                sp = Sp(*s)
                h = attempt(lambda: f.real.multi(g.real, W.spaces[s]), True, what)
                W.add(F(h, sp, None, tuple(set(f.roots) | set(g.roots))), what)
                done.add(name)
                continue
            if name == 'x':
                ranges = [range_of(x, f.sp, W.ndim(f.sp.on), g.sp) for x in BINARY[1:5]]
                if not all(x is None or x.key() != y.key() for i, x in enumerate(ranges) for y in ranges[:i] if y is not None):
                    raise Violation('the table of products is ambiguous')
                t = W.forms[op['c'] % len(W.forms)]
                if op['match']:
                    t = next((u for u in W.forms if any(x is not None and x.key() == u.sp.key() for x in ranges)), t)
                if f.sp.on != g.sp.on:
                    continue
                which = [i for i, x in enumerate(ranges) if x is not None and x.key() == t.sp.key()]
                h = attempt(lambda: f.real.x(g.real, t.real), bool(which), f'{what} into {t.sp.key()}')
                if h is not None:
                    W.add(F(h, t.sp, (BINARY[1 + which[0]], f.expr, g.expr) if ok(f) and ok(g) else None, tuple(set(f.roots) | set(g.roots))), what)
                    done.add(name)
                continue
            call = partial(binary, name, f.real, g.real)
            h = attempt(call, sp is not None, what)
            if h is None:
                refused += 1
                continue
            done.add(name)
            nested = name in ('add', 'sub')      # a-(b-c) and (a-b)-c have one representation; sums are for one level only
            sums = lambda u: u.expr[0] in ('add', 'sub')  # noqa
            expr = (name, f.expr, g.expr) if ok(f) and ok(g) and not (nested and (sums(f) or sums(g))) else None
            W.add(F(h, sp, expr, tuple(set(f.roots) | set(g.roots)), remake=call), what)
    for key, s in list(W.spaces.items()):                 # nothing that came later changed a space, and it is what new gives
        sp = Sp(*key)
        W.check_space(W.new(sp), sp, 'at the end')
    for i, f in enumerate(W.forms):
        W.check_form(f, f'at the end: form {i}')
    return {'nontrivial': len(done) >= 2, 'labels': [f'{W.dim}d'] + sorted(done) + (['refused'] if refused else [])}



SUBS = [Sub('history', s_case, prop_history, 1500, 15000, 'two different operators applied, and every form and space compared with the model')]
