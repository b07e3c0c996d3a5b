"""Builds the geometries of the code under test from JSON specs, with an embedding into flat space.

Each geometry knows its Cartesian coordinates and unit vectors at every local grid point, so that exact
polynomial / trigonometric tensor fields (refcalc) can be written onto, and compared with, its fields.
"""

import numpy as np
import refcalc as rc

CURV = ['disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'cyl_annulus', 'disk_cyl']
CART = ['cart1', 'cart2', 'cart3']
JAC = ['ChebT', 'ChebU', 'ChebV', 'Leg', 'Ultra', 'Jac']


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def random_axis(rng, real, kind=None, nmin=6, nmax=14, dealias=None):
    kind = kind or pick(rng, ['F', 'F', 'ChebT', 'ChebU', 'Leg', 'Ultra', 'Jac'])
    N = int(rng.integers(nmin//2, nmax//2+1))*2 if kind == 'F' else int(rng.integers(nmin, nmax+1))
    a = float(np.round(rng.uniform(-2, 1), 2))
    ax = {'b': kind, 'N': N, 'bounds': [a, float(np.round(a + rng.uniform(0.7, 3), 2))],
          'dealias': dealias if dealias is not None else pick(rng, [1, 1.5, 2])}
    if kind == 'Ultra':
        ax['alpha'] = pick(rng, [0.5, 1, 1.5, 2])
        ax['alpha0'] = pick(rng, [0, 0, 0.5])
        if ax['alpha0'] > ax['alpha'] or (ax['alpha']-ax['alpha0']) % 1:
            ax['alpha0'] = ax['alpha']
    if kind == 'Jac':
        ax['a'] = pick(rng, [-0.5, 0, 0.5, 1])
        ax['b_'] = pick(rng, [-0.5, 0, 0.5, 1])
        ax['da'] = pick(rng, [0, 1, 2])
        ax['db'] = pick(rng, [0, 1, 2])
    if kind in ('ChebT',) or (kind == 'Ultra' and ax['alpha0'] == 0):
        ax['lib'] = pick(rng, [None, 'scipy_dct', 'fftw_dct', 'matrix'])
    if kind == 'F':
        ax['lib'] = pick(rng, [None, 'scipy', 'fftw', 'matrix'] + (['fftpack', 'fftw_hc'] if real else []))
    return ax


def random_spec(rng, geo, real=None, deg=None, dealias=None, rmax=2, kinds=None, k=None):
    """JSON spec of a random geometry that resolves total polynomial degree spec['deg'] exactly (or spectrally)."""
    real = bool(rng.integers(2)) if real is None else real
    dl = lambda: dealias if dealias is not None else pick(rng, [1, 1.5, 2, 1.25])
    s = {'g': geo, 'real': real}
    if geo in CART:
        D = int(geo[-1])
        nmax = {1: 24, 2: 12, 3: 8}[D]
        s['axes'] = [random_axis(rng, real, kind=None if kinds is None else kinds[i], nmin=6, nmax=nmax, dealias=dealias) for i in range(D)]
        if D == 3:
            s['rh'] = bool(rng.integers(4) > 0)
        s['deg'] = [min(ax['N']-1, 6) if ax['b'] != 'F' else 0 for ax in s['axes']]
        s['kmax'] = [min((ax['N']-1)//2, 3) if ax['b'] == 'F' else 0 for ax in s['axes']]
        if deg is not None:
            s['deg'] = [min(deg, d) for d in s['deg']]
            s['kmax'] = [min(deg, d) for d in s['kmax']]
        return s
    d = int(rng.integers(2, 5)) if deg is None else deg
    s['deg'] = d
    s['rank'] = rmax        # tensor components in the local frame carry up to deg + rank in m and ell
    nphi = 4*((d + rmax)//2 + 1 + int(rng.integers(0, 2)))
    ntheta = max(d + rmax + 2, nphi//2 + 1) + int(rng.integers(0, 3))
    even = lambda n: n + (n % 2)
    s['dealias'] = [dl(), dl(), dl()]
    s['k'] = (pick(rng, [0, 0, 1, 2]) if k is None else k)
    s['azlib'] = pick(rng, [None, 'scipy', 'fftw', 'matrix'])
    if geo == 'sphere':
        s['shape'] = [nphi, ntheta]
        s['radius'] = float(np.round(rng.uniform(0.6, 2.5), 2))
    elif geo in ('disk', 'cyl_disk', 'disk_cyl'):
        s['shape'] = [nphi, d + 3 + int(rng.integers(0, 4))]
        s['radius'] = float(np.round(rng.uniform(0.6, 2.0), 2))
        s['alpha'] = pick(rng, [0, 0, 1])
    elif geo in ('annulus', 'cyl_annulus'):
        s['shape'] = [nphi, 20 + int(rng.integers(0, 5))]
        r0 = float(np.round(rng.uniform(0.7, 1.2), 2))
        s['radii'] = [r0, float(np.round(r0 + rng.uniform(0.5, 1.0), 2))]
        s['alpha'] = pick(rng, [[-0.5, -0.5], [0, 0]])
        s['rlib'] = pick(rng, [None, 'matrix']) if s['alpha'] != [-0.5, -0.5] else pick(rng, [None, 'matrix', 'scipy_dct', 'fftw_dct'])
    elif geo == 'ball':
        s['shape'] = [nphi, ntheta, d + 3 + int(rng.integers(0, 3))]
        s['radius'] = float(np.round(rng.uniform(0.6, 2.0), 2))
        s['alpha'] = pick(rng, [0, 0, 1])
    elif geo == 'shell':
        s['shape'] = [nphi, ntheta, 20 + int(rng.integers(0, 4))]
        r0 = float(np.round(rng.uniform(0.7, 1.2), 2))
        s['radii'] = [r0, float(np.round(r0 + rng.uniform(0.5, 1.0), 2))]
        s['alpha'] = pick(rng, [[-0.5, -0.5], [0, 0]])
        s['rlib'] = pick(rng, [None, 'matrix']) if s['alpha'] != [-0.5, -0.5] else pick(rng, [None, 'matrix', 'scipy_dct', 'fftw_dct'])
    if geo in ('cyl_disk', 'cyl_annulus', 'disk_cyl'):
        s['z'] = random_axis(rng, real, kind=pick(rng, ['F', 'F', 'ChebT', 'Leg']) if kinds is None else kinds[0], nmin=6, nmax=8, dealias=dealias)
        s['z']['lib'] = None
        s['kmax'] = 2
    return s


class Geo:
    pass


def make_axis(d3, coord, ax, dtype):
    b, lib = ax['b'], ax.get('lib')
    kw = dict(size=ax['N'], bounds=tuple(ax['bounds']), dealias=ax['dealias'])
    if lib:
        kw['library'] = lib
    if b == 'F':
        return d3.Fourier(coord, dtype=dtype, **kw)
    if b == 'RF':
        return d3.RealFourier(coord, **kw)
    if b == 'CF':
        return d3.ComplexFourier(coord, **kw)
    if b == 'Ultra':
        return d3.Ultraspherical(coord, alpha=ax['alpha'], alpha0=ax['alpha0'], **kw)
    if b == 'Jac':
        return d3.Jacobi(coord, a=ax['a']+ax['da'], b=ax['b_']+ax['db'], a0=ax['a'], b0=ax['b_'], **kw)
    return {'ChebT': d3.ChebyshevT, 'ChebU': d3.ChebyshevU, 'ChebV': d3.ChebyshevV, 'Leg': d3.Legendre}[b](coord, **kw)


def is_periodic(ax):
    return ax['b'] in ('F', 'RF', 'CF')


def build(spec, comm=None, mesh=None):
    import dedalus.public as d3
    from mpi4py import MPI
    g = Geo()
    g.spec, name = spec, spec['g']
    g.name = name
    g.dtype = dtype = np.float64 if spec['real'] else np.complex128
    comm = MPI.COMM_SELF if comm is None else comm
    dk = dict(dtype=dtype, comm=comm)
    if mesh is not None:
        dk['mesh'] = mesh
    two_pi = 2*np.pi
    dl = spec.get('dealias')
    lib = lambda key, arg: {arg: spec[key]} if spec.get(key) else {}
    if name in CART:
        D = int(name[-1])
        names = 'xyz'[:D]
        if D == 1:
            g.cs = d3.CartesianCoordinates('x')
        elif D == 3:
            g.cs = d3.CartesianCoordinates(*names, right_handed=spec.get('rh', True))
        else:
            g.cs = d3.CartesianCoordinates(*names)
        g.coords = g.cs.coords
        g.dist = d3.Distributor(g.cs, **dk)
        g.bases = tuple(make_axis(d3, c, ax, dtype) for c, ax in zip(g.coords, spec['axes']))
        g.kinds = tuple(two_pi/(ax['bounds'][1]-ax['bounds'][0]) if is_periodic(ax) else None for ax in spec['axes'])
        g.D = D
    else:
        g.D = 2 if name in ('disk', 'annulus') else 3
        if name in ('disk', 'annulus'):
            cp = g.cs = d3.PolarCoordinates('phi', 'r')
        elif name == 'sphere':
            g.cs = d3.S2Coordinates('phi', 'theta')
        elif name in ('ball', 'shell'):
            g.cs = d3.SphericalCoordinates('phi', 'theta', 'r')
        else:
            cz = d3.Coordinate('z')
            cp = d3.PolarCoordinates('phi', 'r')
            g.cs = d3.DirectProduct(cp, cz) if name == 'disk_cyl' else d3.DirectProduct(cz, cp)
        g.dist = d3.Distributor(g.cs, **dk)
        g.coords = g.cs.coords
        sh = tuple(spec['shape'])
        if name in ('disk', 'cyl_disk', 'disk_cyl'):
            b = d3.DiskBasis(cp, sh, dtype, radius=spec['radius'], k=spec['k'], alpha=spec['alpha'], dealias=tuple(dl[:2]), **lib('azlib', 'azimuth_library'))
        elif name in ('annulus', 'cyl_annulus'):
            b = d3.AnnulusBasis(cp, sh, dtype, radii=tuple(spec['radii']), k=spec['k'], alpha=tuple(spec['alpha']), dealias=tuple(dl[:2]), **lib('azlib', 'azimuth_library'), **lib('rlib', 'radius_library'))
        elif name == 'sphere':
            b = d3.SphereBasis(g.cs, sh, dtype, radius=spec['radius'], dealias=tuple(dl[:2]), **lib('azlib', 'azimuth_library'))
        elif name == 'ball':
            b = d3.BallBasis(g.cs, sh, dtype, radius=spec['radius'], k=spec['k'], alpha=spec['alpha'], dealias=tuple(dl), **lib('azlib', 'azimuth_library'))
        elif name == 'shell':
            b = d3.ShellBasis(g.cs, sh, dtype, radii=tuple(spec['radii']), k=spec['k'], alpha=tuple(spec['alpha']), dealias=tuple(dl), **lib('azlib', 'azimuth_library'), **lib('rlib', 'radius_library'))
        g.basis = b
        g.kinds = (None,)*g.D
        if 'cyl' in name:
            bz = make_axis(d3, cz, spec['z'], dtype)
            g.bz = bz
            g.bases = (b, bz) if name == 'disk_cyl' else (bz, b)
            if is_periodic(spec['z']):
                g.kinds = (None, None, two_pi/(spec['z']['bounds'][1]-spec['z']['bounds'][0]))
        else:
            g.bases = (b,)
    g.dim = g.dist.dim
    g.n = g.cs.dim
    g.dealias = tuple(sum((tuple(b.dealias) for b in g.bases), ()))
    g.tol = 1e-8 if name in ('annulus', 'shell', 'cyl_annulus') else 1e-9
    return g


def norm_scales(g, scales):
    return tuple([scales]*g.dim) if np.isscalar(scales) else tuple(scales)


def grids(g, scales):
    return g.dist.local_grids(*g.bases, scales=norm_scales(g, scales))


def embed(g, coords):
    """Cartesian coordinates and local unit vectors at given native coordinates (broadcastable arrays)."""
    name = g.name
    coords = [np.asarray(c, dtype=float) for c in coords]
    one = np.ones(np.broadcast_shapes(*[c.shape for c in coords]))
    if name in CART:
        return [c*one for c in coords], np.array([[one*float(i == j) for j in range(g.D)] for i in range(g.D)])
    if name in ('disk', 'annulus'):
        phi, r = coords
        return [r*np.cos(phi)*one, r*np.sin(phi)*one], np.array([[-np.sin(phi)*one, np.cos(phi)*one], [np.cos(phi)*one, np.sin(phi)*one]])
    if name in ('sphere', 'ball', 'shell'):
        phi, theta = coords[:2]
        r = g.spec['radius'] if name == 'sphere' else coords[2]
        sp, cp, st, ct = np.sin(phi)*one, np.cos(phi)*one, np.sin(theta)*one, np.cos(theta)*one
        E = [[-sp, cp, 0*one], [ct*cp, ct*sp, -st], [st*cp, st*sp, ct]]
        if name == 'sphere':
            E = E[:2]
        return [r*st*cp, r*st*sp, r*ct], np.array(E)
    phi, r, z = coords if name == 'disk_cyl' else (coords[1], coords[2], coords[0])
    sp, cp = np.sin(phi)*one, np.cos(phi)*one
    ez, ep, er = [0*one, 0*one, one], [-sp, cp, 0*one], [cp, sp, 0*one]
    return [r*cp, r*sp, z*one], np.array([ep, er, ez] if name == 'disk_cyl' else [ez, ep, er])


def points(g, scales):
    return embed(g, grids(g, scales))


def cast(g, data):
    return np.ascontiguousarray(data.real) if g.dtype == np.float64 else data


def on_grid(g, T, scales):
    """Components of the reference tensor in the geometry's local frame on its local grid."""
    xs, E = points(g, scales)
    return cast(g, rc.to_frame(rc.evaluate(T, xs), E))


def at(g, T, coords):
    xs, E = embed(g, coords)
    return cast(g, rc.to_frame(rc.evaluate(T, xs), E))


def random_tensor(g, rng, rank, deg=None, **kw):
    s = g.spec
    real = s['real']
    if g.name in CART:
        d, k = list(s['deg']), list(s['kmax'])
        if deg is not None:
            d, k = [min(deg, x) for x in d], [min(deg, x) for x in k]
        T = rc.random_tensor(rng, g.kinds, rank, d, kmax=k, real=real, nterms=kw.get('nterms', 14))
    else:
        d = s['deg'] if deg is None else min(deg, s['deg'])
        if 'cyl' in g.name:
            kz = s['kmax'] if deg is None else min(deg, s['kmax'])
            if g.kinds[2] is None:
                T = rc.random_tensor(rng, g.kinds, rank, d, real=real, nterms=kw.get('nterms', 14))
            else:
                T = rc.random_tensor(rng, g.kinds, rank, d, kmax=[0, 0, kz], real=real, nterms=kw.get('nterms', 14))
        else:
            T = rc.random_tensor(rng, g.kinds, rank, d, real=real, nterms=kw.get('nterms', 20))
    if g.name == 'sphere':
        T = project(g, T)
    return T


def make_field(g, rank=0, name=None, bases=None):
    return g.dist.TensorField((g.cs,)*rank, name=name, bases=g.bases if bases is None else bases)


def set_field(g, f, T, scales=None):
    scales = g.dealias if scales is None else scales
    f.change_scales(norm_scales(g, scales))
    f['g'] = on_grid(g, T, scales)
    return f


# Calculus on the geometry (flat, or intrinsic to the embedded sphere)

def sphere_P(g):
    R2 = g.spec['radius']**2
    x = [rc.mono(g.kinds, i) for i in range(3)]
    return rc.tensor((3, 3), lambda i: rc.const(g.kinds, float(i[0] == i[1])) - x[i[0]]*x[i[1]]*(1/R2))


def project(g, T):
    P = sphere_P(g)
    for k in range(T.ndim):
        T = np.moveaxis(rc.dot(P, np.moveaxis(T, k, 0)), 0, k)
    return T


def grad(g, T):
    return project(g, rc.grad(T)) if g.name == 'sphere' else rc.grad(T)


def div(g, T, index=0):
    if g.name == 'sphere':
        G = grad(g, np.moveaxis(T, index, 0))
        return rc.trace(G)
    return rc.div(T, index)


def lap(g, T):
    return div(g, grad(g, T)) if g.name == 'sphere' else rc.lap(T)


def handed(g):
    return -1 if (g.name == 'cart3' and not g.spec.get('rh', True)) else 1


def curl(g, T, index=0):
    return rc.curl(T, index, handed(g))


# Fields over part of the geometry's bases (constant, in the local frame, along the others)

def r2poly(g, rng, deg, axes, real):
    """Random polynomial in the sum of squares over the given axes (exponents of r**2 up to deg//2)."""
    s = sum((rc.mono(g.kinds, i)*rc.mono(g.kinds, i) for i in axes), rc.const(g.kinds, 0.))
    p, q = rc.const(g.kinds, 0.), rc.const(g.kinds, 1.)
    for k in range(deg//2 + 1):
        c = rng.normal() if real else rng.normal() + 1j*rng.normal()
        p = p + q*c
        q = q*s
    return p


def tensor_span(g, rng, rank, vecs, scal):
    """Random tensor: sum over all outer products of the given vector polynomials times scalars from scal()."""
    if rank == 0:
        return rc.tensor((), lambda i: scal())
    n = g.D
    import itertools
    T = None
    for combo in itertools.product(vecs, repeat=rank):
        V = combo[0]
        for v in combo[1:]:
            V = rc.outer(V, v)
        V = V*scal() if False else rc.tensor(V.shape, lambda i, V=V, s=scal(): V[i]*s)
        T = V if T is None else rc.add(T, V)
    return T


def subdomains(g):
    """(label, bases, generator(rng, rank) -> tensor, axes of dist present)."""
    real, spec = g.spec['real'], g.spec
    out = []
    mono = lambda i: rc.mono(g.kinds, i)
    zero = lambda: rc.const(g.kinds, 0.)
    vec = lambda *c: rc.tensor((g.D,), lambda i: c[i[0]])
    import itertools
    if g.name in CART:
        for r in range(g.D):
            for sub in itertools.combinations(range(g.D), r):
                def gen(rng, rank, sub=sub):
                    d = [x if i in sub else 0 for i, x in enumerate(spec['deg'])]
                    k = [x if i in sub else 0 for i, x in enumerate(spec['kmax'])]
                    return rc.random_tensor(rng, g.kinds, rank, d, kmax=k, real=real, nterms=8)
                out.append((f"{g.name}:{''.join('xyz'[i] for i in sub)}", tuple(g.bases[i] for i in sub), gen, sub))
        return out
    d = spec['deg']
    if g.name in ('disk', 'annulus', 'ball', 'shell'):
        # vectors whose local-frame components are axisymmetric
        n = g.D
        pos = vec(*[mono(i) for i in range(n)])
        rot = vec(-mono(1), mono(0), *([zero()] if n == 3 else []))
        def gen_r(rng, rank):
            vs = [pos, rot] if n == 2 else [pos]
            return tensor_span(g, rng, rank, vs, lambda: r2poly(g, rng, max(d - rank, 0), range(n), real))
        bases = (g.basis.radial_basis,)
        out.append((f"{g.name}:radial", bases, gen_r, (n-1,)))
        if n == 3:
            pass
    if g.name in ('cyl_disk', 'cyl_annulus', 'disk_cyl'):
        pos = vec(mono(0), mono(1), zero())
        rot = vec(-mono(1), mono(0), zero())
        ez = vec(zero(), zero(), rc.const(g.kinds, 1.))
        zs = lambda rng: rc.random_poly(rng, g.kinds, [0, 0, d] if g.kinds[2] is None else [0, 0, 0], kmax=[0, 0, spec['kmax']], real=real, nterms=5)
        def gen_b(rng, rank):
            t = rc.random_tensor(rng, g.kinds, rank, [d, d, 0], kmax=[0, 0, 0], real=real, nterms=10)
            for i in np.ndindex(t.shape):
                t[i] = rc.Poly(g.kinds, {e: c for e, c in t[i].t.items() if e[0]+e[1] <= d and e[2] == 0})
            return t
        def gen_z(rng, rank):
            return tensor_span(g, rng, rank, [ez], lambda: zs(rng))
        ax = {'disk_cyl': ((0, 1), (2,)), 'cyl_disk': ((1, 2), (0,)), 'cyl_annulus': ((1, 2), (0,))}[g.name]
        out.append((f"{g.name}:polar", (g.basis,), gen_b, ax[0]))
        out.append((f"{g.name}:z", (g.bz,), gen_z, ax[1]))
    return out


def on_grid_sub(g, T, scales, axes):
    """As on_grid, reduced to one point along axes where the field has no basis."""
    data = on_grid(g, T, scales)
    rank = data.ndim - g.dim
    ix = (slice(None),)*rank + tuple(slice(None) if i in axes else slice(0, 1) for i in range(g.dim))
    return np.ascontiguousarray(data[ix])


def check_field(ctx, g, out, T, tol, mech, msg, scales=None, scale=None, **kw):
    """Monitor: an evaluated field equals the reference tensor on the grid at the given scales."""
    scales = norm_scales(g, g.dealias if scales is None else scales)
    want = on_grid(g, T, scales)
    if isinstance(out, (int, float, complex)):
        return ctx.close(np.full(want.shape, out), want, tol, mech, msg, scale=scale, **kw)
    out.change_scales(scales)
    got = out['g']
    if got.ndim == want.ndim:
        try:
            got = np.broadcast_to(got, want.shape)
        except ValueError:
            pass
    return ctx.close(got, want, tol, mech, msg, scale=scale, **kw)


def tmax(T, g, scales=1):
    return max(float(np.max(np.abs(on_grid(g, T, scales)), initial=0)), 1e-12)


def ev(x):
    """Evaluate an expression (numbers evaluate to themselves)."""
    return x if isinstance(x, (int, float, complex)) else x.evaluate()


def fixed_at(g, T, scales, fixed):
    """Reference components with some native coordinates held at given values (axes of length one)."""
    gr = list(grids(g, scales))
    for ax, v in fixed.items():
        gr[ax] = np.full([1]*g.dim, float(v))
    return at(g, T, gr)


def axis_names(g):
    return {'cyl_disk': ['z', 'phi', 'r'], 'cyl_annulus': ['z', 'phi', 'r'], 'disk_cyl': ['phi', 'r', 'z'], 'disk': ['phi', 'r'], 'annulus': ['phi', 'r'],
            'sphere': ['phi', 'theta'], 'ball': ['phi', 'theta', 'r'], 'shell': ['phi', 'theta', 'r']}.get(g.name) or list('xyz'[:g.D])


def extent(g, ax):
    """Interval of a native coordinate."""
    n = axis_names(g)[ax]
    s = g.spec
    if n == 'phi':
        return 0., 2*np.pi
    if n == 'theta':
        return 0., np.pi
    if n == 'r':
        return tuple(s['radii']) if 'radii' in s else (0., s['radius'])
    if g.name in CART:
        return tuple(s['axes'][ax]['bounds'])
    return tuple(s['z']['bounds'])


def quad(g, ax, n=40):
    """Independent quadrature nodes and weights (with metric factor) along one native coordinate."""
    a, b = extent(g, ax)
    name = axis_names(g)[ax]
    periodic = name == 'phi' or (g.name in CART and g.kinds[ax] is not None) or (name == 'z' and 'cyl' in g.name and g.kinds[2] is not None)
    if periodic:
        x = a + (b-a)*(np.arange(n) + 0.37)/n
        w = np.full(n, (b-a)/n)
    else:
        t, w = np.polynomial.legendre.leggauss(n)
        x = a + (b-a)*(t+1)/2
        w = w*(b-a)/2
    if name == 'theta':
        t, w = np.polynomial.legendre.leggauss(n)
        x = np.arccos(-t)
    if name == 'r':
        w = w*x**(2 if g.name in ('ball', 'shell') else 1)
    return x, w


def integral(g, T, axes, scales, average=False):
    """Reference integral (or average) over native coordinate axes, on the remaining local grid axes (kept with length 1)."""
    gr = list(grids(g, scales))
    ws = {}
    for ax in axes:
        x, w = quad(g, ax)
        gr[ax] = x.reshape([-1 if i == ax else 1 for i in range(g.dim)])
        ws[ax] = w
    v = at(g, T, gr)
    rank = v.ndim - g.dim
    for ax in axes:
        w = ws[ax].reshape([-1 if i == ax else 1 for i in range(g.dim)])
        v = (v*w).sum(axis=rank+ax, keepdims=True)
        if average:
            v = v/ws[ax].sum()
    if g.name == 'sphere' and not average:
        v = v*g.spec['radius']**2
    return v
