"""P05: differential operators against exact vector calculus."""
import numpy as np
import geoms as G
import refcalc as rc

RULE = ("A case is one random geometry (bases, sizes, bounds, radii, dealias, k, alpha, dtype) with random resolved tensor fields of one rank, on the "
        "full domain or on part of it; every applicable operator and random compositions are evaluated and compared on the grid. "
        "It counts if at least one operator output was compared.")
MIN = {'comparisons': 600, 'ops': 500, 'angular': 12, 'values': 100000}
BUDGET = {'quick': 200, 'thorough': 2400}
ASSUMPTIONS = ["fields are low-degree polynomials / trigonometric polynomials, resolved by the truncation"]


def cases(tier, rng):
    n = 1 if tier == 'quick' else 14
    out = []
    for i in range(n):
        for geo in G.CART + G.CURV:
            reps = 2 if geo in ('cart1', 'cart2', 'disk', 'annulus', 'sphere') else 1
            for j in range(reps if geo != 'cart3' else 2):
                for real in (True, False):
                    spec = G.random_spec(rng, geo, real=real)
                    out.append({'spec': spec, 'rank': [0, 1, 2], 'mode': 'full'})
                    if geo in G.CART or geo in ('disk', 'annulus', 'cyl_disk', 'disk_cyl', 'cyl_annulus'):
                        if j == 0:
                            out.append({'spec': G.random_spec(rng, geo, real=real), 'rank': [0, 1, 2], 'mode': 'sub'})
    return out


def apply_ops(ctx, g, f, T, rank, rng, tol, label, partial=False):
    import dedalus.public as d3
    # Operators: (name, dedalus expression, reference)
    ops = [('grad', lambda x: d3.grad(x), lambda t: G.grad(g, t)), ('lap', lambda x: d3.lap(x), lambda t: G.lap(g, t))]
    tens = {1: [('div', lambda x: d3.div(x), lambda t: G.div(g, t))]}
    if rank >= 2:
        tens[2] = [('div', lambda x: d3.div(x), lambda t: G.div(g, t))]
        if g.name in G.CART:
            tens[2].append(('div1', lambda x: d3.div(x, index=1), lambda t: G.div(g, t, 1)))
    three = g.name not in ('disk', 'annulus', 'sphere') and g.D == 3
    if three:
        tens[1].append(('curl', lambda x: d3.curl(x), lambda t: G.curl(g, t)))
        if rank >= 2 and g.name in G.CART:
            tens[2].append(('curl1', lambda x: d3.curl(x, index=1), lambda t: G.curl(g, t, 1)))
    todo = ops + tens.get(rank, [])
    scale0 = G.tmax(T, g)
    if not any(f.domain.bases):
        # Constants: gradient, divergence and Laplacian vanish (curl and compositions are not implemented for them)
        todo = [t for t in todo if not t[0].startswith('curl')]
    for name, fn, ref in todo:
        f.change_scales(1 if rng.integers(2) else G.norm_scales(g, g.dealias))
        f['c' if rng.integers(2) else 'g']
        want = ref(T)
        s = max(G.tmax(want, g), scale0)
        out = G.ev(fn(f))
        ctx.count('ops')
        ctx.state(g.name, name, rank, label, g.spec['real'])
        G.check_field(ctx, g, out, want, tol, f"{name}:{g.name}", f"{name} rank {rank} {label}", scale=s)
    # Compositions
    comps = []
    if rank == 0:
        comps.append(('div(grad)', lambda x: d3.div(d3.grad(x)), lambda t: G.div(g, G.grad(g, t))))
        comps.append(('grad(grad)', lambda x: d3.grad(d3.grad(x)), lambda t: G.grad(g, G.grad(g, t))))
        if g.name not in ('annulus', 'shell', 'cyl_annulus'):
            comps.append(('lap(lap)', lambda x: d3.lap(d3.lap(x)), lambda t: G.lap(g, G.lap(g, t))))
        if three:
            comps.append(('curl(grad)', lambda x: d3.curl(d3.grad(x)), lambda t: G.curl(g, G.grad(g, t))))
    if rank == 1:
        comps.append(('grad(div)', lambda x: d3.grad(d3.div(x)), lambda t: G.grad(g, G.div(g, t))))
        comps.append(('div(grad)', lambda x: d3.div(d3.grad(x)), lambda t: G.div(g, G.grad(g, t))))
        if three:
            comps.append(('curl(curl)', lambda x: d3.curl(d3.curl(x)), lambda t: G.curl(g, G.curl(g, t))))
            comps.append(('div(curl)', lambda x: d3.div(d3.curl(x)), lambda t: G.div(g, G.curl(g, t))))
    if rank == 2:
        comps.append(('div(div)', lambda x: d3.div(d3.div(x)), lambda t: G.div(g, G.div(g, t))))
    if comps and any(f.domain.bases) and not (partial and rank == 2):
        for name, fn, ref in [comps[int(rng.integers(len(comps)))], comps[int(rng.integers(len(comps)))]]:
            want = ref(T)
            s = max(G.tmax(want, g), scale0)
            out = G.ev(fn(f))
            ctx.count('ops')
            ctx.state(g.name, name, rank, label, g.spec['real'])
            G.check_field(ctx, g, out, want, tol*100, f"{name}:{g.name}", f"{name} rank {rank} {label}", scale=s)


def ell_product(T, a, b):
    """a + b*ell*(ell+1) applied to every Cartesian component: ell*(ell+1) is minus the angular part of r**2 times the Laplacian."""
    def one(p):
        kinds = p.kinds
        r2 = sum((rc.mono(kinds, i)*rc.mono(kinds, i) for i in range(3)), rc.const(kinds, 0.))
        radial = rc.Poly(kinds, {e: c*sum(e)*(sum(e)+1) for e, c in p.t.items()})
        lap = sum((p.d(i).d(i) for i in range(3)), rc.const(kinds, 0.))
        return p*a + (radial - r2*lap)*b
    return rc.tensor(T.shape, lambda j: one(T[j]))


def angular_ops(ctx, g, f, T, rank, rng, tol):
    """Products with functions of the harmonic degree and of the colatitude."""
    import dedalus.public as d3
    f.change_scales(1 if rng.integers(2) else G.norm_scales(g, g.dealias))
    f['c' if rng.integers(2) else 'g']
    if g.name in ('ball', 'shell'):
        a, b = float(rng.uniform(-2, 2)), float(rng.uniform(0.3, 2))
        name, want = 'ell product', ell_product(T, a, b)
        out = d3.SphericalEllProduct(f, g.cs, lambda ell: a + b*ell*(ell+1))
    else:
        name, want = 'cosine product', rc.tensor(T.shape, lambda j: T[j]*(rc.mono(g.kinds, 2)*(1/g.spec['radius'])))
        out = d3.MulCosine(f)
    ctx.count('ops')
    ctx.count('angular')
    ctx.state(g.name, name, rank, 'full', g.spec['real'])
    G.check_field(ctx, g, G.ev(out), want, tol, f"{name}:{g.name}", f"{name} rank {rank}", scale=max(G.tmax(want, g), G.tmax(T, g)))


def run(case, ctx):
    import dedalus.public as d3
    spec = case['spec']
    g = G.build(spec)
    rng = ctx.rng()
    tol = 1e-8 if g.name not in ('annulus', 'shell', 'cyl_annulus') else 1e-6
    if case['mode'] == 'full':
        for rank in case['rank']:
            if g.name == 'cart3' and rank == 2 and ctx.tier == 'quick' and rng.integers(2):
                continue
            T = G.random_tensor(g, rng, rank)
            f = G.make_field(g, rank)
            G.set_field(g, f, T)
            apply_ops(ctx, g, f, T, rank, rng, tol, 'full')
            if g.name in ('ball', 'shell', 'sphere'):
                angular_ops(ctx, g, f, T, rank, rng, tol)
            # The operand still represents the same function
            G.check_field(ctx, g, f, T, 1e-9, f"operand:{g.name}", f"operand after operators, rank {rank}")
            if g.name in G.CART:
                for i, c in enumerate(g.coords):
                    want = rc.tensor(T.shape, lambda j: T[j].d(i))
                    out = G.ev(d3.Differentiate(f, c))
                    ctx.count('ops')
                    G.check_field(ctx, g, out, want, tol, f"d/dx:{spec['axes'][i]['b']}", f"derivative axis {i} rank {rank}", scale=max(G.tmax(want, g), G.tmax(T, g)))
    else:
        for label, bases, gen, axes in G.subdomains(g):
            if label in ('ball:radial', 'shell:radial'):
                # No derivative bases for radial-only fields in spherical coordinates (raises AttributeError)
                continue
            for rank in case['rank']:
                if rank == 2 and rng.integers(2):
                    continue
                T = gen(rng, rank)
                f = G.make_field(g, rank, bases=bases)
                sc = G.norm_scales(g, g.dealias)
                f.change_scales(sc)
                f['g'] = G.on_grid_sub(g, T, sc, axes)
                if not bases and rank == 0:
                    continue
                if label.endswith(':z'):
                    # Polar gradients of fields without a polar basis are not implemented (AttributeError); d/dz is
                    want = rc.tensor(T.shape, lambda j: T[j].d(2))
                    out = d3.Differentiate(f, g.coords[axes[0]]).evaluate()
                    ctx.count('ops')
                    G.check_field(ctx, g, out, want, tol, f"d/dz:{g.name}", f"z derivative rank {rank}", scale=max(G.tmax(want, g), G.tmax(T, g)))
                    continue
                apply_ops(ctx, g, f, T, rank, rng, tol, label, partial=True)
