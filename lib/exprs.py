"""Random expressions paired with an independent reference: every node carries the operand of the code under test and a
function that recomputes its exact value (a refcalc tensor) from the leaves' current reference values."""

import numpy as np
import geoms as G
import refcalc as rc


class Leaf:
    def __init__(self, key, field, rank, cost, gen):
        self.key, self.field, self.rank, self.cost, self.gen = key, field, rank, cost, gen


class Node:
    """expr: operand; ref(env): tensor; full: spans every axis; degs: possible polynomial degrees in each leaf (None: unknown)."""

    def __init__(self, expr, ref, rank, kids=(), leaf=None, op='leaf', c=1.0):
        self.expr, self._ref, self.rank, self.kids, self.leaf, self.op, self.c = expr, ref, rank, tuple(kids), leaf, op, c

    def ref(self, env, memo=None):
        memo = {} if memo is None else memo
        if id(self) not in memo:
            memo[id(self)] = env[self.leaf.key] if self.leaf else self._ref(*[k.ref(env, memo) for k in self.kids])
        return memo[id(self)]

    def tag(self, *fmts):
        """Texts (with {0}, {1} for the arguments, which are always parenthesised or names) of the same expression."""
        self.fmts = fmts
        return self

    def leaves(self):
        if self.leaf:
            return {self.leaf.key}
        return set().union(*[k.leaves() for k in self.kids]) if self.kids else set()

    def nodes(self):
        out = [self]
        for k in self.kids:
            out += k.nodes()
        return out

    def degs(self, keys):
        """Set of degrees of the terms in the given leaves ('N': nonlinear in a non-polynomial way)."""
        if self.leaf:
            return {1} if self.leaf.key in keys else {0}
        if self.op in ('pow', 'fn'):
            return {0} if not (self.leaves() & set(keys)) else {'N'}
        d = [k.degs(keys) for k in self.kids]
        if self.op in ('add', 'sub'):
            return d[0] | d[1]
        if self.op == 'addnum':
            return d[0] | {0}
        if self.op in ('mul', 'dot', 'cross'):
            return {('N' if 'N' in (a, b) else a+b) for a in d[0] for b in d[1]}
        return d[0]

    def text(self):
        return self.op if not self.kids else f"{self.op}({','.join(k.text() for k in self.kids)})"

    def size(self, g, env, memo=None, scales=1):
        """Upper bound on the magnitude of the intermediate values (rounding errors are relative to it)."""
        memo = {} if memo is None else memo
        own = G.tmax(self.ref(env, memo), g, scales)
        if not self.kids:
            return own
        m = [k.size(g, env, memo, scales) for k in self.kids]
        if self.op in ('add', 'sub', 'addnum'):
            return max(own, sum(m)) + (abs(self.c) if self.op == 'addnum' else 0)
        if self.op in ('mul', 'dot', 'cross'):
            return max(own, m[0]*m[1])
        if self.op == 'pow':
            return max(own, m[0]**int(self.c))
        if self.op == 'scale':
            return max(own, abs(self.c)*m[0])
        return max(own, m[0])


def wide_spec(rng, geo, real=None, deg=4, dealias=None):
    """A geometry that resolves products of a few low-degree fields."""
    s = G.random_spec(rng, geo, real=real, deg=deg, dealias=dealias)
    if geo in G.CART:
        D = int(geo[-1])
        n = {1: (12, 20), 2: (10, 14), 3: (10, 12)}[D]
        real = s['real']
        s['axes'] = [G.random_axis(rng, real, nmin=n[0], nmax=n[1], dealias=dealias) for _ in range(D)]
        s['deg'] = [min(ax['N']-1, deg) if ax['b'] != 'F' else 0 for ax in s['axes']]
        s['kmax'] = [min((ax['N']-1)//2, deg) if ax['b'] == 'F' else 0 for ax in s['axes']]
    if geo in ('cyl_disk', 'cyl_annulus', 'disk_cyl'):
        if s['z']['b'] == 'F':
            s['z']['N'] = 10
        s['kmax'] = deg
    return s


class Builder:
    def __init__(self, g, rng, derivs=True, sub=True, maxrank=None, pows=True, nums=True, units=None, spatial_reductions=True, complex_nums=True):
        self.g, self.rng, self.derivs, self.sub, self.pows, self.nums = g, rng, derivs, sub, pows, nums
        self.leaves = []
        self.env = {}
        D = g.n
        self.maxrank = maxrank if maxrank is not None else (2 if g.dim == 3 or g.name not in G.CART else 3)
        self.sphere = g.name == 'sphere'
        s = g.spec
        self.units = units or (min([max(d, k) for d, k in zip(s['deg'], s['kmax'])]) if g.name in G.CART else s['deg'] + (s['rank'] if self.sphere else 0))
        self.reduce = spatial_reductions
        self.subs = G.subdomains(g) if sub else []
        self.ops_used = {}
        self.complex_nums = complex_nums and g.dtype == np.complex128

    def pick(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    # Leaves
    def new_leaf(self, rank, cost):
        g = self.g
        kind = 'full'
        base = rank if self.sphere else 0
        deg = max(cost - base, 0)
        cands = [s for s in self.subs if rank <= 1] if self.rng.random() < 0.35 else []
        if cands and deg >= 1:
            label, bases, gen0, axes = self.pick(cands)
            f = g.dist.TensorField((g.cs,)*rank, name=f'u{len(self.leaves)}', bases=bases)
            def gen(rng, gen0=gen0):
                sp = dict(g.spec)
                T = gen0(rng, rank)
                return T
            # sub-domain generators use the full degree of the spec
            cost = self.units
            lf = Leaf(f.name, f, rank, cost, gen)
            lf.axes = axes
        else:
            f = g.dist.TensorField((g.cs,)*rank, name=f'u{len(self.leaves)}', bases=g.bases)
            lf = Leaf(f.name, f, rank, max(cost, base), lambda rng: G.random_tensor(g, rng, rank, deg=deg, nterms=6))
            lf.axes = tuple(range(g.dim))
        self.leaves.append(lf)
        self.fill(lf)
        return lf

    def fill(self, lf, T=None, scales=None):
        """New data for a leaf (in the code's field and the reference environment)."""
        T = lf.gen(self.rng) if T is None else T
        self.env[lf.key] = T
        self.write(lf, scales)

    def write(self, lf, scales=None):
        sc = G.norm_scales(self.g, self.g.dealias if scales is None else scales)
        lf.field.change_scales(sc)
        lf.field['g'] = G.on_grid_sub(self.g, self.env[lf.key], sc, lf.axes)

    def leaf(self, rank, budget):
        ok = [l for l in self.leaves if l.rank == rank and l.cost <= budget]
        if ok and self.rng.random() < 0.6:
            lf = self.pick(ok)
        else:
            lo = rank if self.sphere else 0
            cost = int(self.rng.integers(max(lo, 1), max(lo, 1, min(budget, lo+2))+1))
            if budget < self.units and budget < cost:
                cost = budget
            lf = self.new_leaf(rank, cost)
            if lf.cost > budget:
                # too rich for this place: retry with a plain field
                sub, self.subs = self.subs, []
                lf = self.new_leaf(rank, cost)
                self.subs = sub
        return Node(lf.field, None, rank, leaf=lf)

    def number(self):
        x = float(np.round(self.rng.uniform(-2, 2), 3)) or 0.5
        if self.complex_nums and self.rng.random() < 0.3:
            return complex(x, float(np.round(self.rng.uniform(-1, 1), 2)))
        return self.pick([x, x, 2, -3, np.float64(x)])

    def full(self, n):
        e = n.expr
        return hasattr(e, 'domain') and all(b is not None for b in e.domain.full_bases)

    def min_budget(self, rank):
        return rank if self.sphere else 0

    def gen(self, rank, budget=None, depth=3):
        import dedalus.public as d3
        budget = self.units if budget is None else budget
        for attempt in range(20):
            n = self._gen(rank, budget, depth)
            if n is not None and isinstance(n.expr, d3.Operand if hasattr(d3, 'Operand') else object) and not isinstance(n.expr, (int, float, complex)):
                self.ops_used[n.op] = self.ops_used.get(n.op, 0) + 1
                return n
        return self.leaf(rank, budget)

    def split(self, budget, ra, rb):
        """Degree budgets for two factors."""
        la, lb = self.min_budget(ra), self.min_budget(rb)
        extra = budget - la - lb
        if extra < 0 or (extra < 2 and la + lb == 0):
            return None
        a = int(self.rng.integers(0, extra+1))
        if la + lb == 0:
            a = int(self.rng.integers(1, extra))
        return la + a, lb + extra - a

    def _gen(self, rank, budget, depth):
        import dedalus.public as d3
        g, rng = self.g, self.rng
        if depth <= 0 or rng.random() < 0.08:
            return self.leaf(rank, budget)
        ops = ['add', 'add', 'sub', 'mulscalar', 'mulscalar', 'scale', 'neg', 'divnum', 'dot']
        if rank == 0:
            ops += ['addnum', 'dotvv'] + (['trace'] if self.maxrank > 1 and not self.sphere else [])
            if self.pows:
                ops += ['pow']
        if rank == 2:
            ops += ['outer', 'outer', 'transpose']
        if rank == 1:
            if g.D == 3 and g.n == 3:
                ops += ['cross', 'cross']
            if g.name in ('disk', 'annulus', 'sphere', 'cart2'):
                ops += ['skew']
        if self.derivs:
            ops += ['lap']
            if rank >= 1:
                ops += ['grad', 'grad']
            if rank + 1 <= self.maxrank:
                ops += ['div']
            if rank == 1 and g.D == 3 and g.n == 3:
                ops += ['curl']
            if g.name in G.CART:
                ops += ['deriv', 'deriv']
        if g.name in G.CART:
            ops += ['comp']
            if self.reduce:
                ops += ['interp', 'ave', 'integ'] if rng.random() < 0.5 else []
        op = self.pick(ops)
        sub = lambda r, b: self.gen(r, b, depth-1)
        if op in ('add', 'sub'):
            a, b = sub(rank, budget), sub(rank, budget)
 
            if rank and g.name in ('cyl_disk', 'cyl_annulus', 'disk_cyl') and [x is None for x in a.expr.domain.full_bases] != [x is None for x in b.expr.domain.full_bases]:
                return None      # sums of direct-product tensors that need a conversion from a constant are not implemented
            if radial(a) != radial(b):
                return None      # sums of a radial-only and a full field are not implemented in the ball and shell
            if op == 'add':
                return Node(a.expr + b.expr, lambda x, y: rc.add(x, y), rank, (a, b), op='add').tag('{0} + {1}', '{1} + {0}', '{0} - (-{1})', 'Add({0}, {1})', '-(-{0} - {1})', '{0}*1 + {1}')
            return Node(a.expr - b.expr, lambda x, y: rc.add(x, y, 1, -1), rank, (a, b), op='sub').tag('{0} - {1}', '-{1} + {0}', '{0} + (-1)*{1}', '-({1} - {0})')
        if op == 'mulscalar':
            bs = self.split(budget, 0, rank)
            if not bs:
                return None
            a, b = sub(0, bs[0]), sub(rank, bs[1])
            if rng.random() < 0.5:
                return Node(a.expr * b.expr, lambda x, y: rc.outer(x, y), rank, (a, b), op='mul').tag('{0}*{1}', '{1} * {0}', 'Multiply({0}, {1})', '({0}/2)*(2*{1})', '-{0}*-{1}', '{0}*{1}/1')
            return Node(b.expr * a.expr, lambda x, y: rc.outer(x, y), rank, (a, b), op='mul').tag('{1}*{0}', '{0} * {1}')
        if op == 'outer':
            bs = self.split(budget, 1, 1)
            if not bs:
                return None
            a, b = sub(1, bs[0]), sub(1, bs[1])
            return Node(a.expr * b.expr, lambda x, y: rc.outer(x, y), 2, (a, b), op='mul').tag('{0}*{1}', 'Multiply({0}, {1})')
        if op in ('dot', 'dotvv'):
            ra = int(rng.integers(1, self.maxrank+1)) if op == 'dot' else 1
            rb = rank + 2 - ra
            if rb < 1 or rb > self.maxrank:
                return None
            bs = self.split(budget, ra, rb)
            if not bs:
                return None
            a, b = sub(ra, bs[0]), sub(rb, bs[1])
            ia, ib = -1, 0
            if rng.random() < 0.3:
                ia, ib = int(rng.integers(-ra, ra)), int(rng.integers(-rb, rb))
                return Node(d3.DotProduct(a.expr, b.expr, indices=(ia, ib)), lambda x, y, ia=ia, ib=ib: rc.dot(x, y, ia, ib), rank, (a, b), op='dot').tag(f'DotProduct({{0}}, {{1}}, indices=({ia}, {ib}))', f'dot({{0}}, {{1}}, indices=({ia},{ib}))')
            e = a.expr @ b.expr if rng.random() < 0.5 else d3.dot(a.expr, b.expr)
            return Node(e, lambda x, y: rc.dot(x, y), rank, (a, b), op='dot').tag('{0}@{1}', 'dot({0}, {1})', '{0} @ {1}', 'DotProduct({0},{1})', '-({0}@(-{1}))')
        if op == 'cross':
            bs = self.split(budget, 1, 1)
            if not bs:
                return None
            a, b = sub(1, bs[0]), sub(1, bs[1])
            h = G.handed(g)
            return Node(d3.cross(a.expr, b.expr), lambda x, y: rc.cross(x, y, h), 1, (a, b), op='cross').tag('cross({0}, {1})', '-cross({1}, {0})', 'CrossProduct({0},{1})')
        if op == 'pow':
            p = int(rng.integers(2, 4))
            if budget < p:
                return None
            a = sub(0, budget//p)
            return Node(a.expr**p, lambda x, p=p: (rc.outer(x, x) if p == 2 else rc.outer(x, rc.outer(x, x))), 0, (a,), op='pow', c=p).tag(f'{{0}}**{p}', '*'.join(['{0}']*p), f'{{0}}**({p}.0)' if g.name in G.CART else f'{{0}} ** {p}')
        if op in ('scale', 'neg', 'divnum'):
            if not self.nums and op != 'neg':
                return None
            a = sub(rank, budget)
            if op == 'neg':
                return Node(-a.expr, lambda x: rc.scale(x, -1), rank, (a,), op='scale', c=1).tag('-{0}', '-1*{0}', '{0}*(-1)')
            c = self.number()
            if op == 'divnum':
                return Node(a.expr / c, lambda x: rc.scale(x, 1/c), rank, (a,), op='scale', c=1/c).tag(f'{{0}}/NUM<{c!r}>', f'{{0}} / NUM<{c!r}>', f'(1/NUM<{c!r}>)*{{0}}', f'-({{0}}/NUM<{-c!r}>)')
            return Node(c * a.expr if rng.random() < 0.5 else a.expr * c, lambda x: rc.scale(x, c), rank, (a,), op='scale', c=c).tag(f'NUM<{c!r}>*{{0}}', f'{{0}}*NUM<{c!r}>', f'Multiply(NUM<{c!r}>, {{0}})', f'-NUM<{c!r}>*-{{0}}')
        if op == 'addnum':
            a = sub(0, budget)
            c = self.number()
            how = int(rng.integers(3))
            e = [lambda: a.expr + c, lambda: c + a.expr, lambda: c - a.expr][how]()
            return Node(e, lambda x: rc.tensor((), lambda i: (x[()]*(-1 if how == 2 else 1)) + c), 0, (a,), op='addnum', c=c).tag(*([f'{{0}} + NUM<{c!r}>', f'NUM<{c!r}> + {{0}}', f'{{0}} - NUM<{-c!r}>', f'-NUM<{-c!r}> + {{0}}'] if how < 2 else [f'NUM<{c!r}> - {{0}}', f'-{{0}} + NUM<{c!r}>', f'-({{0}} - NUM<{c!r}>)']))
        if op == 'trace':
            a = sub(2, budget)
            return Node(d3.trace(a.expr), rc.trace, 0, (a,), op='trace').tag('trace({0})', 'Trace({0})', 'trace(transpose({0}))') if self.min_budget(2) <= budget else None
        if op == 'transpose':
            a = sub(2, budget)
            e = d3.transpose(a.expr)
            return Node(e, lambda x: rc.transpose(x), 2, (a,), op='transpose').tag('transpose({0})', 'trans({0})', 'TransposeComponents({0})', 'transpose({0}, indices=(1, 0))')
        if op == 'skew':
            if self.min_budget(1) > budget:
                return None
            a = sub(1, budget)
            return Node(d3.skew(a.expr), lambda x: skew(g, x), 1, (a,), op='skew').tag('skew({0})', 'Skew({0})')
        if op == 'comp':
            if rank + 1 > self.maxrank or g.D == 1:
                return None
            a = sub(rank+1, budget)
            c, ix = int(rng.integers(g.D)), int(rng.integers(rank+1))
            return Node(d3.comp(a.expr, index=ix, comp=g.coords[c]), lambda x: x[(slice(None),)*ix + (c,)] if x.ndim > 1 else wrap(x[c]), rank, (a,), op='comp').tag(f'comp({{0}}, index={ix}, comp=coords[{c}])', f'comp({{0}}, comp=coords[{c}], index={ix})')
        # Differential operators act on operands that span the domain
        if op in ('grad', 'lap', 'div', 'curl'):
            r = {'grad': rank-1, 'lap': rank, 'div': rank+1, 'curl': rank}[op]
            if self.min_budget(r) > budget:
                return None
            a = sub(r, budget)
            if not self.full(a) or radial(a):
                return None
            if op == 'lap' and g.name in ('annulus', 'shell', 'cyl_annulus') and any(k.op in ('lap', 'grad', 'div', 'curl') for k in a.nodes()):
                return None      # conditioning of repeated radial derivatives at 20 radial modes
            e = getattr(d3, op)(a.expr)
            f = {'grad': lambda x: G.grad(g, x), 'lap': lambda x: G.lap(g, x), 'div': lambda x: G.div(g, x), 'curl': lambda x: G.curl(g, x)}[op]
            return Node(e, f, rank, (a,), op=op).tag(f'{op}({{0}})', {'grad': 'Gradient', 'lap': 'Laplacian', 'div': 'Divergence', 'curl': 'Curl'}[op] + '({0})', f'-{op}(-{{0}})')
        ax = int(rng.integers(g.dim))
        a = sub(rank, budget)
        if a.expr.domain.full_bases[ax] is None and op != 'deriv':
            return None      # reductions along a constant axis are not implemented
        if op == 'deriv':
            e = d3.Differentiate(a.expr, g.coords[ax])
            return Node(e, lambda x: rc.tensor(x.shape, lambda i: x[i].d(ax)), rank, (a,), op=op).tag(f'd{g.coords[ax].name}({{0}})', f'Differentiate({{0}}, coords[{ax}])')
        lo, hi = G.extent(g, ax)
        if op == 'interp':
            p = float(rng.uniform(lo, hi))
            return Node(d3.Interpolate(a.expr, g.coords[ax], p), lambda x: rc.tensor(x.shape, lambda i: fix(x[i], ax, p)), rank, (a,), op=op).tag(f'{{0}}({g.coords[ax].name}={p!r})', f'Interpolate({{0}}, coords[{ax}], {p!r})')
        fn = d3.Average if op == 'ave' else d3.Integrate
        return Node(fn(a.expr, g.coords[ax]), lambda x: rc.tensor(x.shape, lambda i: integ(x[i], ax, lo, hi)*(1/(hi-lo) if op == 'ave' else 1)), rank, (a,), op=op).tag(f'{op}({{0}}, coords[{ax}])', f'{op}({{0}}, "{g.coords[ax].name}")', f'{fn.__name__}({{0}}, coords[{ax}])')


def radial(n):
    return any('Radial' in type(b).__name__ for b in n.expr.domain.bases)


def wrap(p):
    return rc.tensor((), lambda i: p)


def fix(p, ax, x0):
    t = {}
    for e, c in p.t.items():
        f = e[:ax] + (0,) + e[ax+1:]
        t[f] = t.get(f, 0) + c*(x0**e[ax] if p.kinds[ax] is None else np.exp(1j*e[ax]*p.kinds[ax]*x0))
    return rc.Poly(p.kinds, t)


def integ(p, ax, a, b):
    t = {}
    for e, c in p.t.items():
        k = e[ax]
        if p.kinds[ax] is None:
            w = (b**(k+1) - a**(k+1))/(k+1)
        elif k == 0:
            w = b - a
        else:
            w = 0
        f = e[:ax] + (0,) + e[ax+1:]
        t[f] = t.get(f, 0) + c*w
    return rc.Poly(p.kinds, t)


def skew(g, T):
    """90-degree rotation of the first index: Cartesian [[0,-1],[1,0]], and the same rotation sense in (phi, r) / (phi, theta) frames."""
    if g.name == 'cart2':
        return rc.tensor(T.shape, lambda i: T[(1-i[0],)+i[1:]]*(-1 if i[0] == 0 else 1))
    if g.name in ('disk', 'annulus'):
        return rc.tensor(T.shape, lambda i: T[(1-i[0],)+i[1:]]*(-1 if i[0] == 0 else 1))
    R = g.spec['radius']
    n = rc.tensor((3,), lambda i: rc.mono(g.kinds, i[0])*(1/R))
    return rc.tensor(T.shape, lambda i: rc.cross(n, T[(slice(None),)+i[1:]])[i[0]])
