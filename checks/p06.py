"""P06: interpolation, integration, averages and lifts against closed forms and independent quadrature."""
import numpy as np
import geoms as G
import refcalc as rc

RULE = ("A case is one random geometry with random resolved tensor fields; interpolations (interior points, edges, axes, poles, named positions, call syntax, several "
        "coordinates), integrals and averages (every supported set of coordinates) and lifts are evaluated and compared. Non-trivial if something was compared.")
MIN = {'comparisons': 1000, 'interp': 500, 'integ': 120, 'ave': 120, 'lift': 40, 'norms': 25}
BUDGET = {'quick': 200, 'thorough': 2400}


def cases(tier, rng):
    out = []
    for i in range(4 if tier == 'quick' else 60):
        for geo in G.CART + G.CURV:
            for real in (True, False):
                out.append({'spec': G.random_spec(rng, geo, real=real), 'i': i})
    return out


def run(case, ctx):
    import dedalus.public as d3
    spec = case['spec']
    g = G.build(spec)
    rng = ctx.rng()
    name = g.name
    names = G.axis_names(g)
    sc = G.norm_scales(g, g.dealias)
    tol = 1e-9
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    for rank in ([0, 1, 2] if g.dim < 3 else [0, int(rng.integers(1, 3))]):
        T = G.random_tensor(g, rng, rank)
        f = G.make_field(g, rank)
        G.set_field(g, f, T)
        s0 = G.tmax(T, g)

        def disturb():
            f.change_scales(pick([1, sc]))
            f[pick('cg')]

        def compare(out, want, mech, msg, tol=tol, scale=s0):
            if isinstance(out, (int, float, complex)):
                got = np.full(want.shape, out)
            else:
                if tuple(out.scales) != tuple(sc):
                    out.change_scales(sc)
                got = np.array(out['g'])
            if got.shape != want.shape and got.ndim == want.ndim:
                # Outputs that are constant along an axis may be stored with one point or repeated
                try:
                    want = np.broadcast_to(want, np.broadcast_shapes(got.shape, want.shape))
                    got = np.broadcast_to(got, want.shape)
                except ValueError:
                    pass
            ctx.state(name, mech, rank, spec['real'], msg.split('|')[0])
            ctx.close(got, want, tol, f'{mech}:{name}', msg, scale=scale)

        # Interpolation along every coordinate
        for ax, c in enumerate(g.coords):
            a, b = G.extent(g, ax)
            pos = [a + (b-a)*float(rng.uniform(0.02, 0.98)), a, b]
            if names[ax] == 'phi':
                pos = [float(rng.uniform(0, 2*np.pi)), 0.]
            if names[ax] == 'theta':
                pos = [float(rng.uniform(0.1, 3)), 0., np.pi]
            for p in pos:
                disturb()
                out = G.ev(d3.Interpolate(f, c, p))
                ctx.count('interp')
                compare(out, G.fixed_at(g, T, sc, {ax: p}), f'interp-{names[ax]}', f'position {p:.6g} along {names[ax]} rank {rank}')
            # Named positions and call syntax
            if name in G.CART and g.kinds[ax] is None or (name in ('cyl_disk', 'cyl_annulus', 'disk_cyl') and names[ax] == 'z' and g.kinds[2] is None):
                for word, p in (('left', a), ('right', b), ('center', (a+b)/2)):
                    out = G.ev(f(**{names[ax]: word}))
                    ctx.count('interp')
                    compare(out, G.fixed_at(g, T, sc, {ax: p}), f'interp-{names[ax]}', f'{word} along {names[ax]} rank {rank}')
            else:
                out = G.ev(f(**{names[ax]: pos[0]}))
                ctx.count('interp')
                compare(out, G.fixed_at(g, T, sc, {ax: pos[0]}), f'interp-{names[ax]}', f'call syntax along {names[ax]} rank {rank}')
        # Several coordinates at once
        if name in G.CART and g.dim > 1:
            pts = {ax: float(rng.uniform(*G.extent(g, ax))) for ax in range(g.dim)}
            out = G.ev(f(**{names[ax]: p for ax, p in pts.items()}))
            ctx.count('interp')
            compare(out, G.fixed_at(g, T, sc, pts), 'interp-multi', f'all coordinates rank {rank}')
        if name in ('cyl_disk', 'cyl_annulus', 'disk_cyl'):
            az, ar = names.index('z'), names.index('r')
            pts = {az: float(rng.uniform(*G.extent(g, az))), ar: float(rng.uniform(*G.extent(g, ar)))}
            out = G.ev(f(z=pts[az], r=pts[ar]))
            ctx.count('interp')
            compare(out, G.fixed_at(g, T, sc, pts), 'interp-multi', f'z then r, rank {rank}')
        # Integrals and averages
        vol = 1.
        ranges = {'disk': [(0, 1)], 'annulus': [(0, 1)], 'ball': [(0, 1, 2)], 'shell': [(0, 1, 2)], 'sphere': []}.get(name)
        todo = []       # (kind, axes, coordinate argument)
        cs = g.cs
        if name in G.CART:
            import itertools
            for n in range(1, g.dim+1):
                for sub in itertools.combinations(range(g.dim), n):
                    arg = tuple(g.coords[i] for i in sub)
                    arg = pick([arg, list(arg), tuple(names[i] for i in sub)] + ([arg[0], names[sub[0]]] if n == 1 else []) + ([cs, None] if n == g.dim and rank == 0 else [None] if n == g.dim else []))
                    if arg is cs and rank:
                        arg = None
                    todo += [('integ', sub, arg), ('ave', sub, arg)]
        elif rank == 0:
            if name in ('disk', 'annulus', 'ball', 'shell'):
                todo += [('integ', tuple(range(g.dim)), pick([cs, None])), ('ave', tuple(range(g.dim)), pick([cs, None])) if name in ('disk', 'annulus') else None]
            if name in ('cyl_disk', 'cyl_annulus', 'disk_cyl'):
                z = names.index('z')
                pol = tuple(i for i in range(3) if i != z)
                cp = g.basis.coordsys
                todo += [(k, a, c) for k in ('integ', 'ave') for a, c in (((z,), g.coords[z]), (pol, cp), ((0, 1, 2), pick([cs, None, (cp, g.coords[z]), (g.coords[z], cp)])))]
            if name == 'sphere':
                todo += [('ave', (0, 1), cs)]
            if name in ('ball', 'shell'):
                todo += [('ave', (0, 1), cs.S2coordsys)]
        elif name in ('cyl_disk', 'cyl_annulus', 'disk_cyl'):
            z = names.index('z')
            todo += [(k, (z,), g.coords[z]) for k in ('integ', 'ave')]
        if 'phi' in names:
            todo.append(('ave', (names.index('phi'),), g.coords[names.index('phi')]))
        for item in todo:
            if item is None:
                continue
            kind, axes, arg = item
            disturb()
            fn = d3.Integrate if kind == 'integ' else d3.Average
            expr = fn(f, arg) if arg is not None else fn(f)
            out = G.ev(expr)
            ctx.count(kind)
            want = G.integral(g, T, axes, sc, average=(kind == 'ave'))
            meas = 1. if kind == 'ave' else abs(np.prod([G.quad(g, ax)[1].sum() for ax in axes]))
            compare(out, want, f'{kind}-' + ''.join(names[i] for i in axes), f'{kind} over {axes} given {type(arg).__name__} rank {rank}', scale=s0*meas)
        if name in G.CART or name in ('disk', 'annulus', 'ball', 'shell'):
            norms(ctx, d3, g, rng, T, f, rank, tol)
        # Operand untouched
        G.check_field(ctx, g, f, T, 1e-10, f'operand:{name}', 'operand afterwards')
    lifts(ctx, g, rng)


def norms(ctx, d3, g, rng, T, f, rank, tol):
    """L2 norms and normalization against quadrature of the squared magnitude."""
    # Only for products that the bases resolve
    sq = np.conj(f)*f if rank == 0 else d3.dot(np.conj(f), f) if rank == 1 else d3.trace(d3.dot(d3.trans(np.conj(f)), f))
    out = sq.evaluate()
    axes = range(g.dim)
    gr, ws = [], []
    for ax in axes:
        x, w = G.quad(g, ax)
        gr.append(x.reshape([-1 if i == ax else 1 for i in axes]))
        ws.append(w.reshape([-1 if i == ax else 1 for i in axes]))
    weight = np.prod(np.broadcast_arrays(*ws), axis=0)
    val = np.sum(np.abs(G.at(g, T, gr).reshape((-1,) + weight.shape))**2, axis=0) if rank else np.abs(G.at(g, T, gr))**2
    total, vol = np.sum(val*weight), np.sum(weight)
    sc = G.norm_scales(g, 2.3)
    out['c']
    out.change_scales(sc)
    fine = G.at(g, T, G.grids(g, sc))
    want = np.sum(np.abs(fine.reshape((-1,) + fine.shape[rank:]))**2, axis=0) if rank else np.abs(fine)**2
    if np.max(np.abs(out['g'] - want)) > 1e-9*np.max(want):
        return
    volume = bool(rng.integers(2)) if g.name not in ('ball', 'shell') else False
    f.change_scales([1, G.norm_scales(g, g.dealias)][int(rng.integers(2))])
    f['cg'[int(rng.integers(2))]]
    expected = np.sqrt(total/vol if volume else total)
    ctx.count('norms')
    ctx.close(np.array(f.allreduce_L2_norm(normalize_volume=volume)), np.array(expected), 10*tol, f'l2:{g.name}', f"L2 norm of a rank {rank} field, normalized by volume: {volume}", scale=expected)
    h = f.copy()
    h['cg'[int(rng.integers(2))]]
    h.normalize(normalize_volume=volume)
    a, b = np.array(h['c']), np.array(f['c'])/expected
    ctx.close(a, b, 10*tol, f'normalize:{g.name}', f"normalized rank {rank} field", scale=max(np.max(np.abs(b)), 1e-300))


def lifts(ctx, g, rng):
    import dedalus.public as d3
    spec, name = g.spec, g.name
    real = spec['real']
    def fill(f):
        # band-limited random data in coefficient space through the grid
        f.preset_scales(1)
        d = rng.normal(size=f['g'].shape)
        f['g'] = d if real else d + 1j*rng.normal(size=d.shape)
        f['c']
        return f
    if name in G.CART:
        ax = int(rng.integers(g.dim))
        if g.kinds[ax] is not None:
            return
        for rank in (0, 1):
            others = tuple(b for i, b in enumerate(g.bases) if i != ax)
            t = fill(g.dist.TensorField((g.cs,)*rank, bases=others))
            n = -int(rng.integers(1, min(4, g.bases[ax].size)))
            out = d3.Lift(t, g.bases[ax], n).evaluate()
            ctx.count('lift')
            c, tc = np.array(out['c']), np.array(t['c'])
            want = np.zeros(c.shape, dtype=c.dtype)
            ix = [slice(None)]*c.ndim
            N = c.shape[rank+ax]
            ix[rank+ax] = slice(N+n, N+n+1)
            want[tuple(ix)] = tc
            ctx.close(c, want, 1e-12, f'lift:{name}', f'Lift n={n} axis {ax} rank {rank}', scale=max(np.abs(tc).max(), 1))
        return
    if name == 'sphere':
        return
    # Curvilinear: the lifted mode is the n-th from the end for every azimuthal / spherical-harmonic index
    b = g.basis
    edge = b.S1_basis(radius=spec['radii'][1] if 'radii' in spec else spec['radius']) if name not in ('ball', 'shell') else b.S2_basis(radius=spec['radii'][1] if 'radii' in spec else spec['radius'])
    bases = (edge,) if 'cyl' not in name else ((edge, g.bz) if name == 'disk_cyl' else (g.bz, edge))
    if name in ('ball', 'shell', 'disk', 'annulus', 'cyl_disk', 'cyl_annulus', 'disk_cyl'):
        t = fill(g.dist.Field(bases=bases))
        n = -int(rng.integers(1, 3))
        rad = G.axis_names(g).index('r')
        # Lifting for these bases is defined through problem matrices: observe it in a trivial problem u - Lift(t) = 0
        u = g.dist.Field(bases=g.bases)
        prob = d3.LBVP([u], namespace={})
        prob.add_equation((u - d3.Lift(g.dist.Field(bases=bases), b, n), 0)) if False else None
        s = g.dist.Field(bases=bases, name='s')
        prob = d3.LBVP([u, s])
        prob.add_equation((u + d3.Lift(s, b, n), 0))
        prob.add_equation((s, t))
        solver = prob.build_solver()
        solver.solve()
        c, tc = np.array(u['c']), np.array(t['c'])
        N = c.shape[rad]
        ix = [slice(None)]*c.ndim
        ix[rad] = slice(N+n, N+n+1)
        got = c[tuple(ix)]
        rest = c.copy()
        rest[tuple(ix)] = 0
        ctx.count('lift')
        ctx.close(rest, np.zeros(rest.shape), 1e-10, f'lift:{name}', f'Lift n={n}: other modes', scale=max(np.abs(tc).max(), 1))
        # modes excluded by the triangular truncation are dropped
        got = np.where(np.abs(got) > 1e-12, got, -tc)
        ctx.close(got, -tc, 1e-10, f'lift:{name}', f'Lift n={n}: lifted mode', scale=max(np.abs(tc).max(), 1))
