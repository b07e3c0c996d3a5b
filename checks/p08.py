"""P08: products, functions and tensor algebra act pointwise exactly."""
import numpy as np
import exprs as X
import geoms as G
import refcalc as rc

RULE = ("A case is one random geometry with random resolved fields (scalars, vectors, tensors, full or partial domains): random expression trees of sums, products, "
        "dot/cross products, powers, traces, transposes, skews, components, then universal and user functions, local-frame components, and dealiased products of "
        "full-bandwidth fields. Non-trivial if at least one evaluated expression was compared.")
MIN = {'comparisons': 600, 'trees': 250, 'functions': 60, 'components': 40, 'dealias': 30, 'mixed': 400}
BUDGET = {'quick': 250, 'thorough': 2400}
ASSUMPTIONS = ['polynomial operands resolved by the truncation for exact comparisons; functions compared on the grid where they are evaluated']


def cases(tier, rng):
    out = []
    for i in range(3 if tier == 'quick' else 40):
        for geo in G.CART + G.CURV:
            real = bool((i + len(out)) % 2)
            out.append({'spec': X.wide_spec(rng, geo, real=real), 'mode': 'trees', 'i': i})
            if i < 2 or tier != 'quick':
                out.append({'spec': X.wide_spec(rng, geo, real=not real), 'mode': 'other', 'i': i})
                out.append({'spec': G.random_spec(rng, geo, real=real, deg=4, dealias=1.5), 'mode': 'dealias', 'i': i})
        for geo in ('jac', 'disk', 'annulus', 'ball', 'shell'):
            for real in (True, False):
                out.append({'mode': 'mixed', 'geo': geo, 'real': real, 'i': i})
    return out


def mixed(ctx, case, rng):
    """Sums of fields on bases of the same family with different sizes, derivative levels, or azimuthal symmetry."""
    import dedalus.public as d3
    geo = case['geo']
    dt = np.float64 if case['real'] else np.complex128
    pick = lambda *a: a[int(rng.integers(len(a)))]
    if geo == 'jac':
        x = d3.Coordinate('x')
        dist = d3.Distributor(x, dtype=dt)
        al = pick(0, 1)
        nn = [int(n) for n in rng.integers(4, 24, 2)]
        bs = [d3.Jacobi(x, n, a=a, b=b, a0=al, b0=0, bounds=(-0.5, 1.5)) for n, a, b in zip(nn, (al, pick(al, al+1)), (0, pick(0, 1, 2)))]
        c = rng.standard_normal((2, min(nn)))
        fs = [dist.Field(bases=b) for b in bs]
        vals = lambda k, X: np.polynomial.polynomial.polyval(X/2, c[k])
        sizes = nn
        grids = lambda f: dist.local_grids(*f.domain.bases)
    else:
        n3 = geo in ('ball', 'shell')
        cs = d3.SphericalCoordinates('phi', 'theta', 'r') if n3 else d3.PolarCoordinates('phi', 'r')
        dist = d3.Distributor(cs, dtype=dt)
        kw = {'radii': (1, 2)} if geo in ('shell', 'annulus') else {'radius': 1.5}
        shape = (8, 6, int(rng.integers(8, 12))) if n3 else (8, int(rng.integers(8, 12)))
        cls = {'disk': d3.DiskBasis, 'annulus': d3.AnnulusBasis, 'ball': d3.BallBasis, 'shell': d3.ShellBasis}[geo]
        B = cls(cs, shape, dt, k=pick(0, 1), **kw)
        B0 = cls(cs, shape, dt, **kw)
        f0 = dist.Field(bases=B)
        c = rng.standard_normal((2, 3))
        def vals(k, *X):
            r = X[-1]
            st = np.sin(X[1]) if n3 else 1
            v = c[k, 0] + c[k, 1]*r**2
            return v + c[k, 2]*r*st*np.cos(X[0]+k) if k == 0 else v + 0*X[0]*(X[1] if n3 else 1)
        fs = [f0, None]
        grids = lambda f: dist.local_grids(*f.domain.bases)
        sizes = shape
    for k, f in enumerate(fs):
        if f is not None:
            f['g'] = vals(k, *grids(f))
    if fs[1] is None:
        if n3 or pick(0, 1):
            # An azimuthal (spherical) average: a field on the symmetric part of the basis
            h = dist.Field(bases=B0)
            h['g'] = vals(1, *grids(h))
            fs[1] = d3.Average(h, cs.S2coordsys if n3 else cs['phi']).evaluate().copy()
        else:
            fs[1] = dist.Field(bases=B0.radial_basis)
            fs[1]['g'] = vals(1, *grids(fs[1]))
    for lay in ('cc', 'gg', 'cg', 'gc'):
        for order in (0, 1):
            for sign in (1, -1):
                for f, l in zip(fs, lay):
                    f.change_scales(1)
                    f[l]
                a, b = fs if order == 0 else fs[::-1]
                out = (a + b if sign > 0 else a - b).evaluate()
                out.change_scales(1)
                X_ = grids(out)
                va, vb = vals(0, *X_), vals(1, *X_)
                want = (va + sign*vb) if order == 0 else (vb + sign*va)
                ctx.count('mixed')
                ctx.state('mixed', geo, case['real'], sizes, lay, order)
                ctx.close(out['g'], np.broadcast_to(want, out['g'].shape), 1e-10, f'mixed-sum:{geo}', f'{sizes} {lay} {order} {sign}', scale=np.abs(va).max()+np.abs(vb).max())


def compare(ctx, g, n, env, mech, tol=1e-9):
    order = derivative_order(n)
    if order:       # conditioning of repeated derivatives (20 radial modes in annulus and shell)
        base = 1e-8 if g.name in ('annulus', 'shell', 'cyl_annulus') else 1e-9
        tol = base*8**(order-1)
    want = n.ref(env)
    s = n.size(g, env)
    out = G.ev(n.expr)
    ctx.state(g.name, n.op, n.rank, g.spec['real'], n.text()[:60])
    G.check_field(ctx, g, out, want, tol, f'{mech}:{g.name}', n.text()[:200], scale=s)


def derivative_order(n):
    own = {'grad': 1, 'div': 1, 'curl': 1, 'lap': 2, 'deriv': 1}.get(n.op, 0)
    return own + max([derivative_order(k) for k in n.kids], default=0)


def run(case, ctx):
    rng = ctx.rng()
    if case['mode'] == 'mixed':
        return mixed(ctx, case, rng)
    g = G.build(case['spec'])
    if case['mode'] == 'trees':
        trees(ctx, g, rng)
    elif case['mode'] == 'other':
        functions(ctx, g, rng)
        components(ctx, g, rng)
    else:
        dealias(ctx, g, rng)


def trees(ctx, g, rng):
    b = X.Builder(g, rng, derivs=False)
    for k in range(10 if ctx.tier == 'quick' else 16):
        b.leaves, b.env = (b.leaves, b.env) if rng.random() < 0.7 else ([], {})
        b.derivs = rng.random() < 0.3
        n = b.gen(int(rng.integers(0, b.maxrank+1)), depth=int(rng.integers(1, 4)))
        for l in b.leaves:
            if rng.random() < 0.5:
                b.write(l, scales=None if rng.random() < 0.7 else 1)
                l.field.change_scales(1 if rng.random() < 0.5 else G.norm_scales(g, g.dealias))
                l.field['cg'[int(rng.integers(2))]]
        ctx.count('trees')
        compare(ctx, g, n, b.env, 'tree')


def functions(ctx, g, rng):
    """Universal / user functions, fractional powers and arithmetic on their results, on the grid."""
    import dedalus.public as d3
    from scipy import special as scp
    b = X.Builder(g, rng, derivs=False, sub=False)
    sc = G.norm_scales(g, g.dealias)
    real = g.dtype == np.float64
    fns = [np.exp, np.sin, np.cos, np.tanh, np.sinh, np.cosh, np.arctan, np.square, np.exp2, np.absolute, np.arcsinh, np.tan, np.sign, scp.erf]
    pos = [np.sqrt, np.log, np.log2, np.log10, np.arccosh]
    unit = [np.arcsin, np.arccos, np.arctanh]
    for k in range(6):
        n = b.gen(0, depth=2)
        v = G.on_grid(g, n.ref(b.env), sc)
        amp = max(n.size(g, b.env, scales=sc), 1e-3)
        which = int(rng.integers(3 if real else 1))
        if which == 0:
            fn = b.pick(fns if real else [np.exp, np.sin, np.cos, np.tanh, np.sinh, np.square, np.arctan])
            e, w = n.expr/(2*amp), v/(2*amp)
        elif which == 1:
            fn = b.pick(pos)
            e, w = 1.7 + n.expr/(2*amp), 1.7 + v/(2*amp)
        else:
            fn = b.pick(unit)
            e, w = n.expr/(1.5*amp), v/(1.5*amp)
        want = fn(w)
        if fn is np.sign and np.min(np.abs(w)) < 1e-9:
            continue
        ctx.count('functions')
        out = fn(e).evaluate() if (fn is not scp.erf) else d3.UnaryGridFunction(fn, e).evaluate()
        out.change_scales(sc)
        ctx.state(g.name, fn.__name__, real)
        tol = 1e-9 if fn is not np.arccosh else 1e-7
        ctx.close(np.broadcast_to(out['g'], want.shape), want, tol, f'function:{g.name}', f'{fn.__name__} of {n.text()}', scale=max(np.abs(want).max(), 1))
        # pointwise products of the result, without leaving the grid
        m = b.leaf(b.pick([0, 1]), 1 if not b.sphere else 2)
        mv = G.on_grid(g, m.ref(b.env), sc)
        e2 = fn(e)*m.expr if rng.random() < 0.5 else m.expr*fn(e)
        if fn is not np.sign:
            out = e2.evaluate()
            ctx.close(np.array(out['g']) if tuple(out.scales) == tuple(sc) else np.array(out[sc_layout(out, sc)]), want*mv, tol, f'function-product:{g.name}', f'{fn.__name__}*field', scale=max(np.abs(want).max()*np.abs(mv).max(), 1e-3))
        # powers
        p = b.pick([2, 3, 0.5, -1, 1.5, -0.5, 4, 0.25]) if real else b.pick([2, 3, 4, -1])
        w2 = 1.7 + v/(2*amp)
        out = ((1.7 + n.expr/(2*amp))**p).evaluate()
        ctx.count('functions')
        out.change_scales(sc)
        ctx.close(np.broadcast_to(out['g'], w2.shape), w2**p, 1e-9, f'power:{g.name}', f'power {p}', scale=np.abs(w2**p).max())
    # User functions of several fields, in grid and coefficient layouts
    x, y = b.leaf(0, 2), b.leaf(1, 2)
    xv, yv = [G.on_grid(g, q.ref(b.env), sc) for q in (x, y)]
    fx, fy = x.expr, y.expr
    for f in (fx, fy):
        f.change_scales(sc)
        f['c']
    gf = d3.GeneralFunction(g.dist, fy.domain, fy.tensorsig, g.dtype, 'g', lambda p, q, c=1: c*np.cos(p['g'])*q['g'], args=[fx, fy], kw={'c': 1.5})
    for rep in range(2):
        out = gf.evaluate()
        out.change_scales(sc)
        ctx.count('functions')
        ctx.close(out['g'], 1.5*np.cos(xv)*yv, 1e-8, f'general-function:{g.name}', f'evaluation {rep}', scale=max(np.abs(yv).max(), 1e-3)) if tuple(out.scales) == tuple(sc) else None
        b.fill(x.leaf)
        xv = G.on_grid(g, x.ref(b.env), sc)
        if rep == 0:
            fx.change_scales(sc), fy.change_scales(sc)


def sc_layout(out, sc):
    out.change_scales(sc)
    return 'g'


def components(ctx, g, rng):
    import dedalus.public as d3
    sc = G.norm_scales(g, g.dealias)
    name = g.name
    b = X.Builder(g, rng, derivs=False, sub=False, maxrank=2)

    def both(f, e, take, label):
        """A component of field f (evaluated from either space) equals a slice of its grid data."""
        v = None
        for lay in 'cg':
            f.change_scales(sc)
            v = np.array(f['g']) if v is None else v
            f[lay]
            out = e().evaluate()
            out.change_scales(sc)
            ctx.count('components')
            ctx.state(name, label, lay, g.spec['real'])
            ctx.close(out['g'], take(v), 1e-10, f'component:{name}', f'{label} from {lay}', scale=np.abs(v).max())

    # every component of vectors and 2-tensors, by coordinate and index
    for rank in (1, 2):
        T = G.random_tensor(g, rng, rank, nterms=8)
        f = G.make_field(g, rank)
        G.set_field(g, f, T)
        for index in range(rank):
            pre = (slice(None),)*index
            if name in G.CART:
                for c in range(g.D):
                    both(f, lambda: d3.comp(f, index=index, comp=g.coords[c]), lambda v: v[pre+(c,)], f'comp{c} index {index} rank {rank}')
            elif name in ('ball', 'shell', 'disk', 'annulus'):
                ax = g.dim - 1
                et = d3.Interpolate(f, g.coords[ax], G.extent(g, ax)[1])
                ev = np.array(edge_grid(et.evaluate(), sc))
                which = ((d3.radial, 2), (d3.angular, slice(0, 2))) if g.dim == 3 else ((d3.radial, 1), (d3.azimuthal, 0), (d3.angular, 0))
                for cls, i in which:
                    for ix in (index, index - rank):
                        e = et.evaluate()
                        for lay in 'cg':
                            e[lay]
                            out = cls(e if rng.random() < 0.5 else et, index=ix).evaluate()
                            out.change_scales(sc)
                            ctx.count('components')
                            ctx.state(name, cls.__name__, ix, rank, g.spec['real'])
                            ctx.close(out['g'], ev[pre+(i,)], 1e-9, f'component:{name}', f'edge {cls.__name__} index {ix} rank {rank}', scale=np.abs(ev).max())
            elif name in ('cyl_disk', 'cyl_annulus', 'disk_cyl'):
                for cs_, sl in ((g.cs.coordsystems[0], slice(0, g.cs.coordsystems[0].dim)), (g.cs.coordsystems[1], slice(g.cs.coordsystems[0].dim, 3))):
                    e = d3.comp(f, index=index, comp=cs_)
                    for lay in 'cg':
                        f.change_scales(sc)
                        v = np.array(f['g'])
                        f[lay]
                        out = e.evaluate()
                        out.change_scales(sc)
                        ctx.count('components')
                        w = v[pre+(sl,)]
                        got = np.array(out['g'])
                        ctx.close(got.reshape(w.shape) if got.size == w.size else got, w, 1e-10, f'component:{name}', f'{sl} index {index} rank {rank}', scale=np.abs(v).max())
        if rank == 2:
            both(f, lambda: d3.transpose(f), lambda v: np.swapaxes(v, 0, 1), 'transpose')
            if name != 'sphere':
                both(f, lambda: d3.trace(f), lambda v: np.trace(v), 'trace')
            both(f, lambda: d3.TransposeComponents(f, indices=(1, 0)), lambda v: np.swapaxes(v, 0, 1), 'transpose indices')
        if name in ('cart2', 'disk', 'annulus', 'sphere'):
            sgn = -1 if name == 'cart2' else 1
            for index in range(rank):
                def sk(v):
                    v = np.moveaxis(v, index, 0)
                    return np.moveaxis(np.array([sgn*v[1], -sgn*v[0]]), 0, index)
                both(f, lambda: d3.skew(f, index=index), sk, f'skew index {index} rank {rank}')
    # Third-rank transposes and dot products with chosen indices (Cartesian)
    if name in ('cart2',):
        T = G.random_tensor(g, rng, 3, nterms=5)
        f = G.make_field(g, 3)
        G.set_field(g, f, T)
        for ij in ((0, 1), (0, 2), (1, 2), (2, 0)):
            both(f, lambda: d3.TransposeComponents(f, indices=ij), lambda v: np.swapaxes(v, *ij), f'transpose {ij} rank 3')


def edge_grid(f, sc):
    f.change_scales(sc)
    return f['g']


def dealias(ctx, g, rng):
    """Quadratic products of full-bandwidth fields on 3/2 grids equal the truncated exact product (computed on a 3x grid)."""
    import dedalus.public as d3
    name = g.name
    if name in ('annulus', 'shell', 'cyl_annulus') and g.basis.k:
        return      # multiplication by r**k factors makes radial products non-polynomial
    fine = (3,)*g.dim
    for pair in ((0, 0), (0, 1), (1, 1)):
        fs = []
        for r in pair:
            f = G.make_field(g, r)
            f.fill_random('c', seed=int(rng.integers(1 << 30)))
            # decaying coefficients keep the comparison well scaled but leave every mode excited
            fs.append(f)
        a, b = fs
        e = a*b if pair != (1, 1) else d3.dot(a, b)
        out = e.evaluate()
        got = np.array(out['c'])
        a.change_scales(fine), b.change_scales(fine)
        if pair == (1, 1):
            v = np.einsum('i...,i...->...', a['g'], b['g'])
        else:
            v = a['g']*b['g']
        ref = g.dist.TensorField(out.tensorsig, bases=out.domain.bases)
        ref.change_scales(fine)
        ref['g'] = v
        ctx.count('dealias')
        ctx.state(name, 'dealias', pair, g.spec['real'])
        ctx.close(got, np.array(ref['c']), 1e-9, f'dealias:{name}', f'product of ranks {pair}', scale=np.abs(v).max())
