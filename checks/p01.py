"""P01: spectral transforms against closed-form functions and independently evaluated spectral sums."""
import numpy as np
from scipy.special import eval_jacobi, gammaln, roots_jacobi
import geoms as G
import refcalc as rc

RULE = ("A case is either a group of one-dimensional transforms (basis kind, size, grid scales, library, axis position, dtype, dirty buffers) compared with "
        "independently evaluated spectral sums, or one random multidimensional geometry with tensor fields moved function -> coefficients -> other grids, "
        "round trips of random coefficients and grids, and sparsity of single-mode functions. Non-trivial if at least one array was compared.")
MIN = {'comparisons': 1500, 'values': 500000, 'forward': 300, 'backward': 300, 'curvilinear_fields': 60}
BUDGET = {'quick': 200, 'thorough': 2400}


def cases(tier, rng):
    out = []
    n1, n2 = (5, 1) if tier == 'quick' else (60, 15)
    for kind in ('RF', 'CF', 'J'):
        for i in range(n1 + (n1 if kind == 'J' else 0)):
            out.append({'mode': '1d', 'kind': kind, 'i': i})
    for i in range(n2):
        for geo in ['cart2', 'cart3'] + G.CURV:
            for real in (True, False):
                for big in (False, True):
                    s = G.random_spec(rng, geo, real=real)
                    if big and 'shape' in s:
                        s['shape'] = [2*s['shape'][0]] + [2*n for n in s['shape'][1:]]
                        if geo in ('disk', 'annulus', 'cyl_disk', 'cyl_annulus', 'disk_cyl'):
                            s['shape'][1] = max(s['shape'][1]//2 + 4, 12)
                        if geo in ('ball', 'shell'):
                            s['shape'][2] = max(s['shape'][2]//2 + 3, 12, s['shape'][1]//2 + 2)
                    elif big and geo in G.CART:
                        continue
                    out.append({'mode': 'nd', 'spec': s, 'big': big})
    # more azimuthal than colatitudinal modes, which the library only warns about
    for real, shape in [(False, (8, 3)), (False, (14, 6)), (True, (12, 5)), (True, (24, 8)), (True, (16, 5)), (True, (20, 5))]:
        out.append({'mode': 'over', 'real': real, 'shape': shape})
    return out


# One-dimensional reference

def jac_norm(n, a, b):
    if n == 0:
        return np.exp(((a+b+1)*np.log(2) + gammaln(a+1) + gammaln(b+1) - gammaln(a+b+2))/2)
    return np.exp(((a+b+1)*np.log(2) - np.log(2*n+a+b+1) + gammaln(n+a+1) + gammaln(n+b+1) - gammaln(n+1) - gammaln(n+a+b+1))/2)


def jac_polys(M, a, b, x):
    """Orthonormal Jacobi polynomials, by an explicit formula."""
    return np.array([eval_jacobi(n, a, b, x)/jac_norm(n, a, b) for n in range(M)])


def ref_1d(kind, M, p):
    """functions(x in native coordinates) -> (M, len(x)) values of the basis functions in coefficient order; None-entries are zero."""
    if kind == 'RF':
        def fns(x, K):
            out = np.zeros((M, len(x)))
            for k in range(0, (M-1)//2+1):
                if k <= K:
                    out[2*k] = np.cos(k*x)
                    if k > 0:
                        out[2*k+1] = -np.sin(k*x)
            return out
    elif kind == 'CF':
        def fns(x, K):
            KM = (M-1)//2
            out = np.zeros((M, len(x)), dtype=complex)
            for k in range(-KM, KM+1):
                if abs(k) <= K:
                    out[k % M] = np.exp(1j*k*x)
            return out
    else:
        def fns(x, K):
            out = jac_polys(M, p['a'], p['b'], x)
            out[K+1:] = 0
            return out
    return fns


def run_1d(case, ctx):
    import dedalus.public as d3
    from dedalus.tools.config import config
    from mpi4py import MPI
    kind = case['kind']
    rng = ctx.rng()
    for rep in range(4):
        # Domain: the basis sits on one of D axes
        config['transforms']['dealias_before_converting'] = str(bool(rng.integers(2)))   # read when a transform plan is built
        D = int(rng.integers(1, 4))
        axis = int(rng.integers(D))
        real = True if kind == 'RF' else (False if kind == 'CF' else bool(rng.integers(2)))
        dtype = np.float64 if real else np.complex128
        if kind in ('RF', 'CF'):
            M = int(rng.choice([2, 4, 6, 8, 10, 16, 18, 32]))
            libs = ['matrix', 'scipy', 'fftw'] + (['fftpack', 'fftw_hc'] if kind == 'RF' else [])
            p = {}
        else:
            M = int(rng.choice([1, 2, 3, 5, 6, 8, 9, 16, 17, 24]))
            a0, b0 = [(-.5, -.5), (-.5, -.5), (0, 0), (.5, .5), (0, .5), (1, 0), (-.5, .5)][int(rng.integers(7))]
            da, db = [(0, 0), (1, 1), (2, 2), (0, 1), (2, 0)][int(rng.integers(5))]
            p = dict(a=a0+da, b=b0+db, a0=a0, b0=b0)
            libs = ['matrix'] + (['scipy_dct', 'fftw_dct'] if (a0, b0) == (-.5, -.5) else [])
        bounds = (float(rng.uniform(-2, 0)), float(rng.uniform(0.3, 3)))
        scales = sorted(set([1, 1.5, 2, float(np.round(rng.uniform(1, 3), 3)), float(np.round(rng.uniform(0.3, 1), 3)), 0.5, 1/M]))
        fns = ref_1d(kind, M, p)
        mults = [int(rng.integers(1, 4)) for _ in range(D)]
        for lib in libs:
            cs = d3.CartesianCoordinates(*'xyz'[:D])
            dist = d3.Distributor(cs, dtype=dtype, comm=MPI.COMM_SELF)
            if kind == 'RF':
                basis = d3.RealFourier(cs.coords[axis], M, bounds, dealias=2, library=lib)
            elif kind == 'CF':
                basis = d3.ComplexFourier(cs.coords[axis], M, bounds, dealias=2, library=lib)
            else:
                basis = d3.Jacobi(cs.coords[axis], M, bounds, p['a'], p['b'], a0=p['a0'], b0=p['b0'], dealias=2, library=lib)
            bases = [None]*D
            bases[axis] = basis
            others = [i for i in range(D) if i != axis]
            for o in others:
                # Legendre on the other axes keeps them out of the comparison (fields are arbitrary there)
                if rng.integers(2):
                    bases[o] = d3.Legendre(cs.coords[o], mults[o], (0, 1))
            f = dist.Field(bases=[b for b in bases if b is not None])
            f2 = dist.TensorField((cs,), bases=[b for b in bases if b is not None])
            for fld in (f, f2):
                rank = len(fld.tensorsig)
                ax = axis + rank
                for s in scales:
                    N = len(basis.global_grid(dist, s).ravel())
                    sc = [1]*D
                    sc[axis] = s
                    # Independent native grid
                    x = np.ravel(basis.global_grid(dist, s))
                    if kind in ('RF', 'CF'):
                        xn = 2*np.pi*np.arange(N)/N
                        K = min((N-1)//2, (M-1)//2)
                        want_x = bounds[0] + (bounds[1]-bounds[0])*np.arange(N)/N
                    else:
                        if (p['a0'], p['b0']) == (-.5, -.5):
                            xn = -np.cos(np.pi*(np.arange(N)+.5)/N)
                        else:
                            xn = np.sort(roots_jacobi(N, p['a0'], p['b0'])[0]) if N > 1 else np.array([(p['b0']-p['a0'])/(p['a0']+p['b0']+2)])
                        K = min(N, M) - 1
                        want_x = bounds[0] + (bounds[1]-bounds[0])*(xn+1)/2
                    if abs(N - s*M) >= 1 and M > 1:
                        ctx.violation('grid-size', f"{N} grid points for size {M} at scale {s}")
                    ctx.close(x, want_x, 1e-12, f'grid:{kind}', f'grid M={M} s={s}', scale=np.max(np.abs(want_x))+1)
                    F = fns(xn, K)
                    # Backward: arbitrary coefficients (dirty, including modes the grid cannot hold)
                    fld.preset_scales(sc)
                    fld['g'] = rng.normal(size=fld['g'].shape) * 7
                    fld.change_scales([1]*D)
                    shape = fld['c'].shape
                    c = rng.normal(size=shape) + (0 if real else 1j*rng.normal(size=shape))
                    c /= np.reshape(1 + np.arange(M)**2, [M if i == ax else 1 for i in range(len(shape))]) if kind == 'J' else 1
                    if kind in ('RF',):
                        # sine part of k = 0 is not a mode
                        ix = [slice(None)]*len(shape); ix[ax] = 1
                        c[tuple(ix)] = 0
                    if kind == 'CF' and M % 2 == 0:
                        ix = [slice(None)]*len(shape); ix[ax] = M//2
                        c[tuple(ix)] = 0
                    # only the tested axis: leave the others in coefficient space
                    layout = dist.coeff_layout if D == 1 else None
                    fld['c'] = c
                    fld.change_scales(sc)
                    g = np.array(fld['g'])
                    want = np.moveaxis(np.tensordot(c, F, axes=([ax], [0])), -1, ax)
                    for o in others:
                        if bases[o] is not None:
                            xo = roots_jacobi(mults[o], 0, 0)[0] if mults[o] > 1 else np.array([0.])
                            want = np.moveaxis(np.tensordot(want, jac_polys(mults[o], 0, 0, np.sort(xo)), axes=([o+rank], [0])), -1, o+rank)
                    ctx.count('backward')
                    ctx.state(kind, lib, M, N, D, axis, rank, str(p))
                    ctx.close(g, want, 3e-12*max(M, 4), f'backward:{kind}:{lib}', f'M={M} N={N} {p} D={D} axis={axis} rank={rank}', scale=max(np.max(np.abs(want)), 1e-3))
                    # Forward: function resolved on this grid
                    c2 = c.copy()
                    ix = [slice(None)]*len(shape)
                    if kind == 'RF':
                        ix[ax] = slice(2*(K+1), None)
                    elif kind == 'CF':
                        ix[ax] = [k for k in range(M) if min(k, M-k) > K]
                    else:
                        ix[ax] = slice(K+1, None)
                    c2[tuple(ix)] = 0
                    # Dirty the buffer with another field state first
                    fld['c'] = rng.normal(size=shape)
                    fld['g'] = want
                    got = np.array(fld['c'])
                    ctx.count('forward')
                    ctx.close(got, c2, 3e-12*max(M, N, 4), f'forward:{kind}:{lib}', f'M={M} N={N} {p} D={D} axis={axis} rank={rank}', scale=max(np.max(np.abs(c2)), 1e-3))
                    # Forward: unresolved data is projected as documented (quadrature on the given grid)
                    if kind in ('RF', 'CF') and D == 1 and rank == 0:
                        d = rng.normal(size=N) + (0 if real else 1j*rng.normal(size=N))
                        fld.change_scales(sc)
                        fld['g'] = d
                        got = np.array(fld['c'])
                        if kind == 'CF':
                            w = F.conj() @ d / N
                        else:
                            w = 2 * F @ d / N
                            w[0] /= 2
                        ctx.count('forward')
                        ctx.close(got, w, 1e-12*max(M, N, 4), f'projection:{kind}:{lib}', f'M={M} N={N}', scale=1.)


def run_nd(case, ctx):
    spec = case['spec']
    g = G.build(spec)
    rng = ctx.rng()
    name = g.name
    dsc = G.norm_scales(g, g.dealias)
    one = (1,)*g.dim
    ups = [one, dsc, tuple(float(np.round(rng.uniform(1, 2), 2)) for _ in range(g.dim)), (2,)*g.dim]
    if name in G.CART:
        ups = [one, (1.5,)*g.dim, tuple(float(np.round(rng.uniform(1, 2), 2)) for _ in range(g.dim))]
    ranks = [0, 1, 2] if g.dim < 3 or rng.integers(2) else [0, int(rng.integers(1, 3))]
    if name in G.CART:
        ranks = [0, 1]
    for rank in ranks:
        T = G.random_tensor(g, rng, rank)
        f = G.make_field(g, rank)
        tol = 1e-11
        # Function on one grid -> coefficients -> function on other grids
        for s1 in ups[:3]:
            f.preset_scales(s1)
            f['g'] = G.on_grid(g, T, s1)
            ctx.count('curvilinear_fields')
            c1 = np.array(f['c'])
            for s2 in [ups[int(rng.integers(len(ups)))], one]:
                ctx.state(name, rank, str(s1), str(s2), spec['real'])
                G.check_field(ctx, g, f, T, tol, f'function:{name}', f'rank {rank} from scales {s1} to {s2}', scales=s2)
                f['c']
            ctx.close(np.array(f['c']), c1, tol, f'coeff-stability:{name}', f'coefficients after visiting grids, rank {rank}', scale=max(np.max(np.abs(c1)), 1e-8))
        # Down-sampled grids that still resolve the function
        if case['big'] or name in G.CART:
            if case['big']:
                lo = tuple([0.5]*g.dim) if name not in ('cyl_disk', 'cyl_annulus', 'disk_cyl', 'ball', 'shell', 'disk', 'annulus') else None
                if lo is None:
                    lo = [0.5]*g.dim
                    radial = {'disk': 1, 'annulus': 1, 'ball': 2, 'shell': 2, 'cyl_disk': 2, 'cyl_annulus': 2, 'disk_cyl': 1}[name]
                    lo[radial] = 1
                    if 'cyl' in name:
                        lo[2 if name == 'disk_cyl' else 0] = 1
                G.check_field(ctx, g, f, T, tol, f'downsampled:{name}', f'rank {rank} at scales {lo}', scales=tuple(lo))
                ctx.close(np.array(f['c']), c1, tol, f'downsampled-coeff:{name}', f'rank {rank} at scales {lo}', scale=max(np.max(np.abs(c1)), 1e-8))
                ctx.count('downsampled')
                # Coarser than the modes a random field holds: what comes back is a truncation of what went in
                ctx.count('curvilinear_fields')
        # Random data: projection is idempotent, linear, and independent of the grid it is observed on
        f.preset_scales(one)
        d1 = rng.normal(size=f['g'].shape) + (0 if spec['real'] else 1j*rng.normal(size=f['g'].shape))
        d2 = rng.normal(size=d1.shape) + (0 if spec['real'] else 1j*rng.normal(size=d1.shape))
        def coeffs(d, s):
            f.preset_scales(s)
            f['g'] = d
            return np.array(f['c'])
        cA, cB = coeffs(d1, one), coeffs(d2, one)
        cs = max(np.max(np.abs(cA)), np.max(np.abs(cB)), 1e-8)
        ctx.close(coeffs(2*d1 - 0.5*d2, one), 2*cA - 0.5*cB, 1e-11, f'linear:{name}', f'forward rank {rank}', scale=cs)
        # The projection's coefficients may be amplified by conversions for k > 0: tolerate accordingly
        t = 1e-9 if spec.get('k', 0) or any(a.get('da', 0) + a.get('db', 0) + a.get('alpha', 0) > 1 for a in spec.get('axes', [])) else 1e-10
        if name not in G.CART:
            for s in ups:
                f['c'] = cA
                f.change_scales(s)
                ga = np.array(f['g'])
                ctx.close(coeffs(ga, s), cA, t, f'roundtrip:{name}', f'c->g->c at scales {s}, rank {rank}', scale=cs)
                f['c'] = cB
                f.change_scales(s)
                gb = np.array(f['g'])
                f['c'] = 3*cA - cB
                f.change_scales(s)
                ctx.close(np.array(f['g']), 3*ga - gb, 1e-10, f'linear:{name}', f'backward rank {rank}', scale=max(np.max(np.abs(ga)), np.max(np.abs(gb))))
            # Coarse grids: every coefficient either survives or is dropped
            if spec.get('k', 0) == 0 and case['big']:
                s = tuple(float(rng.choice([1, 0.5, 0.3, 0.7])) for _ in range(g.dim))
                if 'cyl' in name:
                    s = tuple(1. if (i == (2 if name == 'disk_cyl' else 0)) else v for i, v in enumerate(s))
                if name in ('sphere', 'ball', 'shell', 'disk'):
                    f['c'] = cA
                    f.change_scales(s)
                    gs = np.array(f['g'])
                    back = coeffs(gs, s)
                    miss = np.minimum(np.abs(back), np.abs(back - cA))
                    ctx.count('truncations')
                    ctx.close(miss, np.zeros(miss.shape), 1e-9, f'truncation:{name}', f'c->coarse g->c at scales {s}, rank {rank}: coefficients neither kept nor dropped', scale=cs)
                    # and what was observed on the coarse grid is that truncated function
                    f['c'] = back
                    f.change_scales(s)
                    ctx.close(np.array(f['g']), gs, 1e-9, f'truncation:{name}', f'coarse grid values of the truncated function, scales {s}', scale=np.max(np.abs(gs)))
    if name in ('sphere', 'disk', 'ball') and spec.get('alpha', 0) == 0 and spec.get('k', 0) == 0:
        sparsity(g, spec, rng, ctx)


def sparsity(g, spec, rng, ctx):
    """Single basis functions have a single coefficient (two for real azimuthal data), all at distinct places."""
    from scipy.special import lpmv
    f = G.make_field(g, 0)
    seen = {}
    grids = G.grids(g, 1)
    phi = grids[0]
    d = spec['deg']
    modes = []
    for m in range(0, d+1):
        if g.name == 'sphere':
            for l in range(m, d+1):
                modes.append(((m, l), lpmv(m, l, np.cos(grids[1]))))
        elif g.name == 'disk':
            r = grids[1]/spec['radius']
            for n in range(0, (d-m)//2+1):
                modes.append(((m, n), r**m*eval_jacobi(n, 0, m, 2*r**2-1)))
        else:
            r = grids[2]/spec['radius']
            for l in range(m, d+1):
                for n in range(0, (d-l)//2+1):
                    modes.append(((m, l, n), lpmv(m, l, np.cos(grids[1]))*r**l*eval_jacobi(n, 0, l+.5, 2*r**2-1)))
    for key, prof in modes:
        m = key[0]
        az = [np.cos(m*phi), np.sin(m*phi)] if spec['real'] else [np.exp(1j*m*phi), np.exp(-1j*m*phi)]
        for j, a in enumerate(az if m else az[:1]):
            f.preset_scales(1)
            f['g'] = prof*a
            c = np.abs(f['c'])
            big = np.argwhere(c > 1e-9*max(c.max(), 1e-30))
            ctx.count('modes')
            where = tuple(map(tuple, big.tolist()))
            if ctx.require(len(where) == 1, f'sparsity:{g.name}', f"mode {key} (part {j}) has coefficients at {where[:6]}"):
                ctx.require(seen.setdefault(where[0], (key, j)) == (key, j), f'sparsity:{g.name}', f"modes {key} and {seen[where[0]]} share a coefficient")


def run_over(case, ctx):
    import dedalus.public as d3
    dtype = np.float64 if case['real'] else np.complex128
    cs = d3.S2Coordinates('phi', 'theta')
    dist = d3.Distributor(cs, dtype=dtype)
    b = d3.SphereBasis(cs, tuple(case['shape']), dtype=dtype, dealias=(1, 1))
    phi, theta = dist.local_grids(b)
    u = dist.Field(bases=b)
    data = 1 + np.cos(theta) + np.sin(theta)*np.cos(phi)
    u['g'] = data
    try:
        u['c']
        got = np.array(u['g'])
    except ValueError as e:
        if 'broadcast' not in str(e) and 'matmul' not in str(e):
            raise
        ctx.violation('sphere-azimuth-overresolved', f"SphereBasis of shape {case['shape']} {dtype.__name__}: {e}")
        return
    ctx.count('overresolved')
    ctx.close(got, data*np.ones_like(got), 1e-11, 'overresolved', f"sphere of shape {case['shape']}: round trip of a function of degree 1")


def run(case, ctx):
    {'1d': run_1d, 'nd': run_nd, 'over': run_over}[case['mode']](case, ctx)
