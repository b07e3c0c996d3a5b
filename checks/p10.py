"""P10: symbolic manipulation preserves the meaning of expressions."""
import warnings
import numpy as np
import geoms as G
import refcalc as rc
import exprs as X

RULE = 'an expression tree with a choice of variables: distinct if the tree, geometry or choice differs; counted when at least one transformed expression was evaluated and compared'
MIN = {'split': 300, 'split-type': 60, 'expand': 200, 'replace': 200, 'replace-type': 40, 'frechet': 200, 'linearity': 600, 'simplify': 100, 'functions': 100, 'structure': 600, 'catalogue': 400}
BUDGET = {'quick': 400, 'thorough': 2400}
WORKERS = 8
CASE_S = 120
ASSUMPTIONS = ['Reference values of transformed expressions come from an independent polynomial calculus; derivatives of non-polynomial functions from finite differences of evaluations']
GEOS = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl']


def cases(tier, rng):
    out = []
    for i in range(6 if tier == 'quick' else 60):
        for geo in GEOS:
            s = X.wide_spec(rng, geo, deg=4 if geo in ('cart1', 'cart2') else 3)
            out.append({'what': 'trees', 'spec': s, 'i': i, 'n': 8 if geo in ('cart1', 'cart2') else 5})
    for i in range(3 if tier == 'quick' else 30):
        for geo in ('cart1', 'cart1', 'cart2', 'cart2', 'cart3'):
            out.append({'what': 'functions', 'spec': X.wide_spec(rng, geo, real=True, deg=3), 'i': i, 'n': 8})
    for i in range(1 if tier == 'quick' else 8):
        for geo in GEOS + ['cyl_annulus']:
            out.append({'what': 'catalogue', 'spec': X.wide_spec(rng, geo, deg=3), 'i': i, 'n': 1})
    return out


def run(case, ctx):
    spec = case['spec']
    if spec['g'] == 'ball':
        spec['shape'][2] = max(spec['shape'][2], spec['shape'][1]//2 + 2)
    if 'dealias' in spec:
        spec['dealias'] = [max(1.25, x) for x in spec['dealias']]
    g = G.build(spec)
    rng = ctx.rng()
    for j in range(case['n']):
        {'trees': tree, 'functions': functions, 'catalogue': catalogue}[case['what']](g, rng, ctx, j)


def value(x, g, rank, dist):
    """Grid values of an operand or number on the dealias grid, broadcast over constant directions, and its domain axes."""
    if not hasattr(x, 'evaluate'):
        return None
    f = x.evaluate()
    axes = tuple(i for i, b in enumerate(f.domain.full_bases) if b is not None)
    c = f.copy()
    c.change_scales(tuple(s if i in axes else 1 for i, s in enumerate(g.dealias)))
    return np.array(c['g'])


def dense(x, g, shape):
    if x is None:
        return np.zeros(shape)
    return np.broadcast_to(x, shape)


def tree(g, rng, ctx, j):
    import dedalus.public as d3
    # reductions and gradients of parts constant along their direction are not supported, so these only meet full fields
    sub = rng.random() < 0.5 and not g.name.startswith(('cyl', 'disk_cyl'))
    B = X.Builder(g, rng, maxrank=2 if g.name != 'cart1' else 1, spatial_reductions=not sub, sub=sub)
    rank = int(rng.integers(0, 2)) if g.n > 1 else 0
    n = B.gen(rank, depth=int(rng.integers(2, 5)))
    # parts of splits constant in some direction: their gradients and reductions are not supported
    if any(m.op in ('grad', 'lap', 'div', 'curl', 'interp', 'ave', 'integ') and any(q.op in ('addnum', 'interp', 'ave', 'integ') for q in m.nodes() if q is not m) for m in n.nodes()):
        return
    if not n.kids:
        return
    E = n.expr
    leaves = {l.key: l for l in B.leaves}
    used = sorted(n.leaves())
    keys = [k for k in used if rng.random() < 0.5] or [B.pick(used)]
    if rng.random() < 0.1:
        keys = used
    extra = [l for l in leaves if l not in used][:1]
    vars_ = [leaves[k].field for k in keys] + [leaves[k].field for k in extra]
    tol = {'annulus': 2e-5, 'shell': 2e-5, 'cyl_annulus': 2e-5}.get(g.name, 1e-7)
    text = f"{g.name}: {n.text()[:200]}"
    def order(m):
        return {'lap': 2, 'grad': 1, 'div': 1, 'curl': 1, 'deriv': 1}.get(m.op, 0) + max([order(q) for q in m.kids], default=0)
    tol *= 100.0**max(0, order(n) - 3)
    size = max(n.size(g, B.env), 1e-12)
    full = tuple(range(g.dim))

    def on_grid(T):
        return G.on_grid_sub(g, T, g.dealias, full)
    want = on_grid(n.ref(B.env))

    def same(mech, what, parts, T, s=None):
        """The sum of the parts (operands or numbers) against grid values."""
        got = np.zeros(T.shape, T.dtype)
        for p in parts:
            if hasattr(p, 'evaluate'):
                got = got + value(p, g, rank, g.dist)
            elif p != 0:
                got = got + p
        ctx.count(mech)
        err = np.max(np.abs(got - T), initial=0)
        s = max(size, np.max(np.abs(T), initial=0)) if s is None else s
        if not err <= tol*s:
            ctx.violation(mech, f"{text}: {what}: off by {err:.3g} (size {s:.3g})")

    depends = lambda e, f: hasattr(e, 'has') and e.has(f)
    # Structure
    for k, l in leaves.items():
        ctx.count('structure')
        ctx.require(E.has(l.field) == (k in used), 'structure', f"{text}: has({k}) is {E.has(l.field)}")
    at = {f.name for f in E.atoms(d3.Field) if f.name in leaves}
    ctx.require(at == set(used), 'structure', f"{text}: atoms {sorted(at)} instead of {used}")
    # Splitting by variables
    P, Q = E.split(*vars_)
    same('split', f"parts of split by {keys}", (P, Q), want)
    ctx.require(not any(depends(Q, f) for f in vars_), 'split', f"{text}: the part without {keys} contains them: {Q}")
    zero = {k: rc.scale(T, 0) for k, T in B.env.items()}
    if 'N' not in n.degs(keys):
        # the part without the variables is the value of the expression where they vanish
        same('split', f"part without {keys}", (Q,), on_grid(n.ref({**B.env, **{k: zero[k] for k in keys}})))
    # Splitting by kinds of operators
    kinds = {'lap': d3.Laplacian, 'grad': d3.Gradient, 'div': d3.Divergence, 'curl': d3.Curl, 'interp': d3.Interpolate, 'integ': d3.Integrate, 'deriv': d3.Differentiate, 'trace': d3.Trace}
    ops = sorted({m.op for m in n.nodes()} & set(kinds))
    # composite operators contain others
    ops = [o for o in ops if len(ops) == 1 or g.name in ('disk', 'annulus', 'sphere', 'ball', 'shell') or o in ('interp', 'integ')]
    if ops:
        op = B.pick(ops)
        P, Q = E.split(kinds[op])
        same('split-type', f"parts of split by {op}", (P, Q), want)
        ctx.require(not depends(Q, kinds[op]), 'split-type', f"{text}: the part without {op} contains it: {Q}")
    # Expansion
    x = E.expand(*vars_)
    same('expand', f"expansion over {keys}", (x,), want)
    # Linearity
    for ks in (keys, used, [B.pick(used)], extra):
        if not ks:
            continue
        vs = [leaves[k].field for k in ks]
        d = n.degs(ks)
        for affine in (False, True):
            ok = d == {1} or (affine and d <= {0, 1})
            class Bad(Exception):
                pass
            try:
                E.require_linearity(*vs, allow_affine=affine, error=Bad)
                got = True
            except Bad:
                got = False
            ctx.count('linearity')
            ctx.require(got == ok, 'linearity', f"{text}: {'affine' if affine else 'linear'} in {ks} {'accepted' if got else 'rejected'} (term degrees {d})")
        try:
            E.require_independent(*vs, error=Bad)
            got = True
        except Bad:
            got = False
        ctx.require(got == (not set(ks) & set(used)), 'linearity', f"{text}: independence of {ks} {'accepted' if got else 'rejected'}")
    # Substitution of a field by another field or by an expression
    k = B.pick(keys)
    lf = leaves[k]
    bases = lf.field.domain.bases
    new = g.dist.TensorField((g.cs,)*lf.rank, name='w', bases=bases)
    T = lf.gen(rng)
    lw = X.Leaf('w', new, lf.rank, lf.cost, lf.gen)
    lw.axes = lf.axes
    B.env['w'] = T
    B.write(lw)
    if rng.random() < 0.5:
        env = {**B.env, k: T}
        same('replace', f"replacing {k} by another field", (E.replace(lf.field, new),), on_grid(n.ref(env)), max(n.size(g, env), 1e-12))
    else:
        c = B.number()
        env = {**B.env, k: rc.add(T, B.env[k], c, 1)}
        same('replace', f"replacing {k} by an expression", (E.replace(lf.field, c*new + lf.field),), on_grid(n.ref(env)), max(n.size(g, env), 1e-12))
    # Substitution of a subexpression by its value
    subs = [m for m in n.nodes() if m.kids and m is not n]
    if subs:
        m = B.pick(subs)
        w = m.expr.evaluate().copy()
        same('replace', f"replacing {m.text()[:60]} by its value", (E.replace(m.expr, w),), want)
    same('replace', 'replacing the whole expression by twice itself', (E.replace(E, 2*E),), 2*want, 2*size)
    # Substitution of a kind of operator
    sub_ops = sorted({m.op for m in n.nodes()} & {'lap', 'grad', 'div', 'curl'})
    if sub_ops:
        op = B.pick(sub_ops)
        fn = getattr(d3, op)
        y = E.replace(kinds[op], lambda a: -3*fn(a))
        def ref(m, memo):
            if id(m) not in memo:
                v = B.env[m.leaf.key] if m.leaf else m._ref(*[ref(q, memo) for q in m.kids])
                memo[id(m)] = rc.scale(v, -3) if m.op == op else v
            return memo[id(m)]
        nops = sum(m.op == op for m in n.nodes())
        same('replace-type', f"replacing {op} by -3*{op}", (y,), on_grid(ref(n, {})), size*3.0**nops)
    # Linearisation
    X0 = {k: B.env[k] for k in keys}
    X1 = {k: leaves[k].gen(rng) for k in keys}
    perts, bgs = [], []
    use_bg = rng.random() < 0.4
    if use_bg:
        X0 = {k: leaves[k].gen(rng) for k in keys}
    for k in keys:
        l = leaves[k]
        for name, val, lst in (('p', X1[k], perts), ('b', X0[k], bgs)):
            f = g.dist.TensorField((g.cs,)*l.rank, name=name+k, bases=l.field.domain.bases)
            q = X.Leaf(name+k, f, l.rank, l.cost, l.gen)
            q.axes = l.axes
            B.env[name+k] = val
            B.write(q)
            lst.append(f)
    variables = [leaves[k].field for k in keys]
    D = E.frechet_differential(variables, perts, bgs if use_bg else None)
    h = np.cos(np.pi*(np.arange(9) + 0.5)/9)
    vals = []
    sizes = []
    for e in h:
        env = {**B.env, **{k: rc.add(X0[k], X1[k], 1, e) for k in keys}}
        vals.append(on_grid(n.ref(env)))
        sizes.append(n.size(g, env))
    V = np.linalg.inv(np.vander(h, increasing=True))[1]
    dF = np.tensordot(V, np.array(vals), axes=1)
    same('frechet', f"differential along {keys}", (D,), dF, 10*max(max(sizes), 1e-12))
    if hasattr(D, 'evaluate') and D.has(*perts):
        try:
            D.require_linearity(*perts)
        except Exception as ex:
            ctx.violation('frechet', f"{text}: differential along {keys} is not linear in the perturbations: {ex!r}")
    # Trivial factors and terms
    one = float(B.pick([1, 1.0]))
    forms = {'E*1': lambda: E*1, '1*E': lambda: 1*E, 'E+0': lambda: E+0, '0+E': lambda: 0+E, 'E/1': lambda: E/1, '-(-E)': lambda: -(-E), 'E+0*E': lambda: E+0*E, 'E-E*0+0*(E+E)': lambda: E-E*0+0*(E+E),
             'sum([E, -E, E])': lambda: sum([E, -E, E]), '+E': lambda: +E, 'E-0': lambda: E-0}
    if rank == 0:
        forms['E**1'] = lambda: E**1
    for name in (rng.choice(sorted(forms), 2)):
        try:
            y = forms[name]()
        except TypeError as ex:
            if name == '+E':
                continue
            raise
        same('simplify', name, (y,), want)
    same('simplify', '0*E', (0*E,), 0*want)
    ctx.state(f"{g.name} {sorted(set(m.op for m in n.nodes()))}")


def functions(g, rng, ctx, j):
    """Pointwise trees with general functions: transformed expressions against evaluations of the original."""
    import dedalus.public as d3
    import scipy.special as scp
    B = X.Builder(g, rng, derivs=False, sub=g.name.startswith('cart'))
    fields = []
    tag = []
    for i in range(3):
        f = g.dist.Field(name=f'f{i}', bases=g.bases)
        f.preset_scales(g.dealias)
        fields.append(f)
    base = [rng.uniform(0.25, 0.75, f['g'].shape) for f in fields]
    for f, b in zip(fields, base):
        f.preset_scales(g.dealias)
        f['g'] = b
    u, v, w = fields
    arg = {np.arccosh: lambda x: 2 + x, np.log: lambda x: x, np.sign: lambda x: x}
    inner = [('u', lambda u, v: u, u), ('u*v', lambda u, v: u*v, u*v), ('(u+v)/2', lambda u, v: (u+v)/2, (u+v)/2), ('u**2', lambda u, v: u**2, u**2), ('sin(u)', lambda u, v: np.sin(u), np.sin(u))]
    funcs = sorted(d3.UnaryGridFunction.ufunc_derivatives, key=lambda f: f.__name__)
    name, a, A = B.pick(inner)
    fn = B.pick(funcs + ['pow', 'npow', 'own'])
    shift = 2 if fn is np.arccosh else 0
    if fn == 'pow' or fn == 'npow':
        p = B.pick([3, 0.5, -1, -1.5, 2.5, 1.0, 2])
        F, f = lambda x: x**p, None
        op = (A + shift)**p
        fname = f'**{p}'
    elif fn == 'own':
        def own(x, out):
            np.multiply(x, x, out=out)
            out += np.sin(x)
        F = lambda x: x*x + np.sin(x)
        op = d3.UnaryGridFunction(own, A, deriv=lambda x: 2*x + np.cos(x))
        fname = 'own'
    else:
        F = fn
        op = fn(A + shift)
        fname = fn.__name__
    outer = [('w*F', lambda F, w: w*F, lambda F, w: w*F), ('F+w', lambda F, w: F+w, lambda F, w: F + w), ('F**2-w*F', lambda F, w: F**2 - w*F, lambda F, w: F**2 - w*F), ('cos(F*w)', lambda F, w: np.cos(F*w), lambda F, w: np.cos(F*w)),
             ('(F+w)*(F-2*w)', lambda F, w: (F+w)*(F-2*w), lambda F, w: (F+w)*(F-2*w))]
    oname, of, oop = B.pick(outer)
    E = oop(op, w)
    ref = lambda u, v, w: of(F(a(u, v) + shift), w)
    text = f"{g.name}: {oname} with F={fname}({name})"
    T = ref(*base)
    size = np.max(np.abs(T)) + 1
    mask = None

    def grid(x):
        f = x.evaluate()
        c = f
        if c.layout.grid_space.all() and tuple(c.scales) == tuple(g.dealias):
            return np.array(c.data)
        c = f.copy(); c.change_scales(g.dealias)
        return np.array(c['g'])

    def reset():
        for f, b in zip(fields, base):
            f.preset_scales(g.dealias)
            f['g'] = b

    def same(what, parts, want, s=size, tol=1e-9):
        got = 0
        for p in parts:
            reset()
            if hasattr(p, 'evaluate'):
                got = got + grid(p)
            else:
                got = got + p
        ctx.count('functions')
        err = np.max(np.abs(got - want))
        if not err <= tol*s:
            ctx.violation('functions', f"{text}: {what}: off by {err:.3g} (size {s:.3g})")
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        same('value', (E,), T)
        vs = [f for f in fields if rng.random() < 0.5] or [u]
        names = [f.name for f in vs]
        P, Q = E.split(*vs)
        same(f'parts of split by {names}', (P, Q), T)
        ctx.require(not (hasattr(Q, 'has') and Q.has(*vs)), 'functions', f"{text}: part without {names} contains them")
        same(f'expansion over {names}', (E.expand(*vs),), T)
        # replace u by a product of itself
        z = g.dist.Field(name='z', bases=g.bases)
        zb = rng.uniform(0.25, 0.75, base[0].shape)
        z.preset_scales(g.dealias)
        z['g'] = zb
        k = int(rng.integers(3))
        data = list(base)
        data[k] = zb
        ER = E.replace(fields[k], z)
        z.preset_scales(g.dealias)
        z['g'] = zb
        same(f'replacing f{k}', (ER,), ref(*data))
        # linearisation
        perts = []
        pb = [rng.uniform(-1, 1, base[0].shape) for _ in vs]
        for f, b in zip(vs, pb):
            q = g.dist.Field(name='p'+f.name, bases=g.bases)
            perts.append(q)
        D = E.frechet_differential(vs, perts)
        def at(e):
            d = list(base)
            for f, b in zip(vs, pb):
                i = [f is x for x in fields].index(True)
                d[i] = d[i] + e*b
            return ref(*d)
        h = 1e-3
        # sixth-order central differences
        dF = (45*(at(h) - at(-h)) - 9*(at(2*h) - at(-2*h)) + (at(3*h) - at(-3*h)))/(60*h)
        if hasattr(D, 'evaluate'):
            reset()
            for q, b in zip(perts, pb):
                q.preset_scales(g.dealias)
                q['g'] = b
            got = grid(D)
        else:
            got = D
        ctx.count('frechet')
        ctx.count('functions')
        err, s = np.max(np.abs(got - dF)), np.max(np.abs(dF)) + size
        if not err <= 1e-5*s:
            ctx.violation('functions', f"{text}: differential along {names} off by {err:.3g} (size {s:.3g})")
        # never linear in what is inside of the function
        class Bad(Exception):
            pass
        for affine in (False, True):
            if fname in ('**1', '**1.0') and oname in ('F+w', 'w*F') :
                continue
            inside = [u] + ([v] if 'v' in name else [])
            try:
                E.require_linearity(*inside, allow_affine=affine, error=Bad)
                ctx.violation('linearity', f"{text}: accepted as {'affine' if affine else 'linear'} in {[f.name for f in inside]}")
            except Bad:
                pass
            ctx.count('linearity')
        for affine in (False, True):
            ok = oname == 'w*F' or (affine and oname in ('F+w', 'F**2-w*F'))
            try:
                E.require_linearity(w, allow_affine=affine, error=Bad)
                got = True
            except Bad:
                got = False
            ctx.require(got == ok, 'linearity', f"{text}: {'affine' if affine else 'linear'} in w {'accepted' if got else 'rejected'}")
    ctx.state(f"functions {oname} {fname} {name}")


def catalogue(g, rng, ctx, j):
    """Every linear operator offered in a geometry, applied to a combination of two fields."""
    import dedalus.public as d3
    import dedalus.core.operators as O
    import linexpr
    name = g.name
    nc = len(g.coords)
    ops = []
    add = lambda label, rank, f: ops.append((label, rank, f))
    for r in (0, 1):
        add('grad', r, d3.grad)
        add('lap', r, d3.lap)
        if not (r and name == 'sphere'):
            add('num', r, lambda a: 3*a)
        add('neg', r, lambda a: -a)
        add('convert', r, lambda a: O.convert(a, d3.lap(a).domain.bases))
    if nc > 1:
        add('div', 1, d3.div)
        if name != 'sphere':
            add('div', 2, d3.div)
            add('trace', 2, d3.trace)
        add('transpose', 2, d3.transpose)
    if nc == 3 and g.dim == 3:
        add('curl', 1, d3.curl)
    if name in ('disk', 'annulus', 'sphere', 'cart2'):
        add('skew', 1, d3.skew)
    if name == 'sphere':
        add('mulcosine', 0, O.MulCosine)
        add('ell', 0, lambda a: O.SphereEllProduct(a, g.cs, lambda l, r: l + 1))
        add('ave', 0, lambda a: d3.Average(a, g.cs))
        add('integ', 0, lambda a: d3.Integrate(a, g.cs))
    if name in ('ball', 'shell'):
        add('radial', 1, d3.radial)
        add('angular', 1, d3.angular)
        add('ell', 0, lambda a: O.SphericalEllProduct(a, g.cs, lambda l: l + 1))
        add('integ', 0, lambda a: d3.Integrate(a, g.cs))
    if name in ('disk', 'annulus'):
        # components are taken of edge fields
        add('radial', 1, lambda a: d3.radial(d3.Interpolate(a, g.coords[1], edge)))
        add('azimuthal', 1, lambda a: d3.azimuthal(d3.Interpolate(a, g.coords[1], edge)))
        edge = g.spec['radius'] if name == 'disk' else g.spec['radii'][1]
        add('integ', 0, lambda a: d3.Integrate(a, g.cs))
        add('ave', 0, lambda a: d3.Average(a, g.cs))
    if name.startswith('cart'):
        for i, c in enumerate(g.coords):
            add('deriv', 0, lambda a, c=c: d3.Differentiate(a, c))
            add('integ', 0, lambda a, c=c: d3.Integrate(a, c))
            add('ave', 0, lambda a, c=c: d3.Average(a, c))
            add('comp', 1, lambda a, c=c: d3.CartesianComponent(a, 0, c) if hasattr(d3, 'CartesianComponent') else d3.comp(a, index=0, comp=c))
            lo, hi = G.extent(g, i)
            add('interp', 0, lambda a, c=c, lo=lo, hi=hi: d3.Interpolate(a, c, lo + 0.3*(hi-lo)))
    for c, bases, pos, b in linexpr.edges(g):
        for p in pos:
            add('boundary', 0, lambda a, c=c, p=p: d3.Interpolate(a, c, p))
            if name in ('ball', 'shell', 'disk', 'annulus'):
                add('boundary', 1, lambda a, c=c, p=p: d3.Interpolate(a, c, p))
    tol = {'annulus': 2e-6, 'shell': 2e-6, 'cyl_annulus': 2e-6}.get(g.name, 1e-9)

    def fields(rank, n):
        out = []
        for i in range(n):
            f = g.dist.TensorField((g.cs,)*rank, name=f'q{i}', bases=g.bases)
            sc = G.norm_scales(g, g.dealias)
            f.preset_scales(sc)
            f['g'] = G.on_grid(g, G.random_tensor(g, rng, rank, nterms=6), sc)
            out.append(f)
        return out

    def val(e):
        f = e.evaluate().copy()
        axes = tuple(i for i, b in enumerate(f.domain.full_bases) if b is not None)
        f.change_scales(tuple(s if i in axes else 1 for i, s in enumerate(g.dealias)))
        return np.array(f['g'])

    for label, rank, op in ops:
        u, v, p = fields(rank, 3)
        text = f"{name}: {label} of rank {rank}"
        try:
            alone = [val(op(f)) for f in (u, v, p)]
        except NotImplementedError:
            continue
        U, V, P = alone
        size = sum(np.max(np.abs(x), initial=0) for x in alone) + 1e-6
        def same(what, parts, want):
            got = 0
            for q in parts:
                got = got + (val(q) if hasattr(q, 'evaluate') else q)
            ctx.count('catalogue')
            err = np.max(np.abs(got - want), initial=0)
            if not err <= tol*size:
                ctx.violation('catalogue', f"{text}: {what}: off by {err:.3g} (size {size:.3g})")
        E = op(u + 2*v) - 3*op(v)
        same('value', (E,), U - V)
        A, B = E.split(u)
        same('part with', (A,), U)
        same('part without', (B,), -V)
        ctx.require(not (hasattr(B, 'has') and B.has(u)), 'catalogue', f"{text}: part without a field contains it")
        A, B = op(u).split(u)
        same('part with, alone', (A,), U)
        same('part without, alone', (B,), 0*U)
        A, B = op(u).split(v)
        same('part with, absent', (A,), 0*U)
        same('part without, absent', (B,), U)
        same('expanded', (E.expand(u),), U - V)
        same('expanded over both', (E.expand(u, v),), U - V)
        same('substituted', (E.replace(u, p),), P - V)
        same('substituted by a sum', (E.replace(u, p + v),), P)
        same('removed', (E.replace(u, 0),), -V)
        same('differential', (E.frechet_differential([u], [p]),), P)
        same('differential in both', (E.frechet_differential([u, v], [p, u]),), P - U)
        same('differential in an absent field', (op(u).frechet_differential([v], [p]),), 0*P)
        same('reinitialised', (E.reinitialize(ncc=True, ncc_vars=[u, v]),), U - V)
        if label not in ('num', 'neg'):
            M, L = (O.TimeDerivative(op(u)) + op(v)).split(O.TimeDerivative)
            ctx.require(M.has(O.TimeDerivative) and M.has(u) and not L.has(u) and not L.has(O.TimeDerivative), 'catalogue', f"{text}: wrong split by time derivatives: {M} and {L}")
            same('undifferentiated in time', (M.replace(O.TimeDerivative, lambda a: 2*a),), 2*U)
            M, L = op(O.TimeDerivative(u) + v).split(O.TimeDerivative)
            same('undifferentiated in time inside', (M.replace(O.TimeDerivative, lambda a: 2*a),), 2*U)
            same('without time derivatives', (L,), V)
        class Bad(Exception):
            pass
        try:
            E.require_linearity(u, v, error=Bad)
        except Bad:
            ctx.violation('catalogue', f"{text}: a linear expression was rejected")
        if not rank:
            ctx.raises(lambda: op(u*v).require_linearity(u, v, error=Bad), 'catalogue', f"{text}: a product accepted as linear", ok=(Bad,))
        ctx.state(f"{name} {label} {rank}")
