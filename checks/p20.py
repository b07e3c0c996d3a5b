"""P20: adaptive timesteps follow the documented advective limit and flow properties report true extremes and averages."""
import os
import numpy as np
import geoms as G
import harness
import refcalc as rc
import p17

RULE = ("Runs of an initial value problem in every geometry, on 1-8 processes and several meshes, change the velocities by known functions between steps while a CFL tool (several velocities, expressions, frequencies and velocities with constant axes) and "
        "flow properties with random parameters and cadences are queried after random steps; each recommended timestep is compared with a simulation of the documented rule fed by limits computed from the known functions with independently written spacings, "
        "and each property with extremes, means and quadrature of the known functions at the evaluation it must report. Cached grid spacings are compared before and after.")
MIN = {'comparisons': 4000, 'timesteps': 700, 'recomputed': 200, 'clamped': 80, 'held_by_threshold': 10, 'frequencies': 150, 'properties': 1000, 'integrals': 150, 'mpi_runs': 12}
BUDGET = {'quick': 400, 'thorough': 2400}
WORKERS = 7
CASE_S = 200
ASSUMPTIONS = ["properties and frequencies are expressions (a bare field is referenced live by the in-memory handler)", "band-limited velocities; the advective limit of a velocity does not count axes on which that velocity is constant",
               "every resolved non-Fourier, non-Chebyshev axis has at least three grid points"]
GEOS = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus', 'prod']


def plan(rng, geo, n):
    spec = G.random_spec(rng, 'cart3' if geo == 'prod' else geo, deg=2 + int(rng.integers(2)))
    if geo == 'prod':
        spec['prod'] = int(rng.integers(3))
    if spec['g'] == 'ball':
        spec['shape'] = list(spec['shape'][:2]) + [max(spec['shape'][2], spec['shape'][1]//2 + 2)]
    if 'dealias' in spec:
        spec['dealias'] = [max(x, 1.25) for x in spec['dealias']]       # coarser curvilinear grids do not resolve every mode
    D = int(geo[-1]) if geo in G.CART else 2 if geo in ('disk', 'annulus', 'sphere') else 3
    m = p17.meshes(n, D)
    c = {'spec': spec, 'n': n, 'mesh': m[int(rng.integers(len(m)))] if n > 1 else None, 'steps': int(rng.integers(8, 18)) if n == 1 else 8}
    f = lambda *xs: xs[int(rng.integers(len(xs)))]
    c['cfl'] = dict(initial_dt=float(np.round(10**rng.uniform(-3, 0), 6)), cadence=f(1, 1, 2, 3, 5), safety=f(1., 0.3, 0.7, 2.5))
    dt = c['cfl']['initial_dt']
    if rng.random() < 0.5:
        c['cfl'].update(max_change=f(1.05, 1.5, 2.), min_change=f(0.3, 0.5, 0.9))
    if rng.random() < 0.3:
        c['cfl']['max_dt'] = dt*f(0.5, 1., 3., 100.)
    if rng.random() < 0.3:
        c['cfl']['min_dt'] = dt*f(0.01, 0.3, 1.)
    if rng.random() < 0.5:
        c['cfl']['threshold'] = f(0.05, 0.1, 0.4, 3.)
    c['vel'] = [f('u', 'u', '-2*u', 'u+v', 'v') for _ in range(f(1, 1, 2))]
    c['sub'] = int(rng.integers(10)) if geo in G.CART and geo != 'cart1' and rng.random() < 0.5 else None
    c['freq'] = bool(rng.random() < 0.35)
    c['cad'] = f(1, 1, 2, 4)
    c['i0'] = f(0, 0, 0, 6, 13)
    c['zero'] = bool(rng.random() < 0.1)
    return c


def cases(tier, rng):
    out = []
    for i in range(7 if tier == 'quick' else 60):
        for geo in GEOS:
            out.append(dict(plan(rng, geo, 1), kind='run', i=i))
    for i in range(1 if tier == 'quick' else 8):
        for j, geo in enumerate(GEOS[1:] + ['cart2', 'cart3', 'cart2', 'cart3']):
            out.append(dict(plan(rng, geo, [2, 4, 3, 8, 2, 6][(i + j) % 6]), kind='mpi', i=i))
    return out


def run(case, ctx):
    p = dict(case, key=[ctx.seed, str(case)])
    if case['n'] == 1:
        from mpi4py import MPI
        res = [ranks(MPI.COMM_SELF, p, ctx.scratch)]
    else:
        res = ctx.mpirun(case['n'], 'ranks', p, hang='P20')
        if res is None:
            return
        ctx.count('mpi_runs')
    for r in res:
        for k, v in r['counts'].items():
            ctx.count(k, v)
        for m, msg in r['viol']:
            ctx.violation(m, msg)
        for st in r['states']:
            ctx.state(*st)


# Independent limits

def axis_freq(g, ax, comp, grid, scale, N):
    """Contribution of one interval axis: |u| over the nominal spacing (flat arrays along the axis, broadcast by the caller)."""
    L = ax['bounds'][1] - ax['bounds'][0]
    n = N
    if G.is_periodic(ax):
        return np.abs(comp)*n/(L*ax['dealias'])
    if ax['b'] == 'ChebT' or (ax['b'] == 'Jac' and ax['a']+ax['da'] == -0.5 and ax['b_']+ax['db'] == -0.5) or (ax['b'] == 'Ultra' and ax['alpha'] == 0):
        # nodes cos(theta): spacing sin(theta) pi/n
        c = (2*grid - sum(ax['bounds']))/L
        return np.abs(comp)/(ax['dealias']*L/2*np.sqrt(1 - c**2)*np.pi/n)
    raise KeyError


def node_spacing(x):
    """Second-order finite difference of node positions with respect to their index."""
    x = np.asarray(x, dtype=float).ravel()
    d = np.empty_like(x)
    d[1:-1] = (x[2:] - x[:-2])/2
    d[0] = -1.5*x[0] + 2*x[1] - 0.5*x[2]
    d[-1] = 1.5*x[-1] - 2*x[-2] + 0.5*x[-3]
    return d


def limit(g, V):
    """Advective frequency of local-frame components V on the local dealias grid."""
    spec = g.spec
    names = G.axis_names(g)
    sc = g.dealias
    out = 0
    grids = G.grids(g, sc)
    gglob = [np.ravel(x) for b in g.bases for x in (b.global_grids(g.dist, tuple(b.dealias)) if b.dim > 1 else [b.global_grid(g.dist, b.dealias[0])])]
    dx = []
    for i in range(g.dim):
        # local part of the node spacing, located through the grid values
        x, X = np.ravel(grids[i]), gglob[i]
        d = node_spacing(X)[[int(np.argmin(np.abs(X - v))) for v in x]] if X.size > 2 and x.size else np.zeros(x.size)
        dx.append(d.reshape([-1 if k == i else 1 for k in range(g.dim)]))
    def line(i, ax):
        try:
            return axis_freq(g, ax, V[i], grids[i], sc[i], gglob[i].size)
        except KeyError:
            return np.abs(V[i])/(dx[i]*ax['dealias'])
    if g.name in G.CART:
        for i, ax in enumerate(spec['axes']):
            out = out + line(i, ax)
        return out
    nphi = spec['shape'][0]
    mmax = (nphi - 1)//2
    if g.name == 'sphere':
        L = spec['shape'][1] - (2 if spec['real'] else 1)     # the highest degree kept
        return np.sqrt(np.abs(V[0])**2 + np.abs(V[1])**2)*np.sqrt(L*(L+1))/spec['radius']
    if g.name in ('ball', 'shell'):
        L = spec['shape'][1] - (2 if spec['real'] else 1)     # the highest degree kept
        R = spec['radius'] if g.name == 'ball' else grids[2]
        return np.sqrt(np.abs(V[0])**2 + np.abs(V[1])**2)*np.sqrt(L*(L+1))/R + np.abs(V[2])/(dx[2]*sc[2])
    ip, ir = names.index('phi'), names.index('r')
    R = spec['radius'] if 'radius' in spec else grids[ir]
    out = np.abs(V[ip])*mmax/R + np.abs(V[ir])/(dx[ir]*sc[ir])
    if 'z' in names:
        iz = names.index('z')
        out = out + line(iz, spec['z'])
    return out


# Runs

def build(spec, comm, mesh):
    if 'prod' not in spec:
        return G.build(spec, comm=comm, mesh=mesh)
    import dedalus.public as d3
    g = G.Geo()
    g.spec, g.name, g.D = spec, 'cart3', 3
    g.dtype = np.float64 if spec['real'] else np.complex128
    k = spec['prod']
    if k == 0:
        a, z = d3.CartesianCoordinates('x', 'y'), d3.Coordinate('z')
        g.cs = d3.DirectProduct(a, z)
        g.coords = (*a.coords, z)
    elif k == 1:
        x, b = d3.Coordinate('x'), d3.CartesianCoordinates('y', 'z')
        g.cs = d3.DirectProduct(x, b)
        g.coords = (x, *b.coords)
    else:
        g.coords = tuple(d3.Coordinate(c) for c in 'xyz')
        g.cs = d3.DirectProduct(*g.coords)
    g.dist = d3.Distributor(g.cs, dtype=g.dtype, comm=comm, mesh=mesh)
    g.bases = tuple(G.make_axis(d3, c, ax, g.dtype) for c, ax in zip(g.coords, spec['axes']))
    g.kinds = tuple(2*np.pi/(ax['bounds'][1]-ax['bounds'][0]) if G.is_periodic(ax) else None for ax in spec['axes'])
    g.dim, g.n = 3, 3
    g.dealias = tuple(sum((tuple(b.dealias) for b in g.bases), ()))
    g.tol = 1e-9
    return g


def ranks(comm, p, outdir):
    import dedalus.public as d3
    import warnings
    from mpi4py import MPI
    warnings.simplefilter('ignore')
    rep = p17.Report(comm)
    rng = harness.rng_for(*p['key'])
    g = build(p['spec'], comm, None if p['mesh'] is None else tuple(p['mesh']))
    real = p['spec']['real']
    u, v, f, h = G.make_field(g, 1, 'u'), G.make_field(g, 1, 'v'), G.make_field(g, 0, 'f'), G.make_field(g, 0, 'h')
    fields = {'u': u, 'v': v, 'f': f, 'h': h}
    T = {}
    fine = [max(1.5, x) for x in g.dealias]
    sub = None
    if p['sub'] is not None:
        subs = [s for s in G.subdomains(g) if s[3]]
        label, bases, gen, axes = subs[p['sub'] % len(subs)]
        sub = fields['w'] = g.dist.VectorField(g.cs, name='w', bases=bases)
    size = 10**rng.uniform(-1, 1)
    # complex speeds on spheres: see the 'complex-speed' finding
    flat = dict(p['spec'], real=True) if g.name in ('sphere', 'ball', 'shell') else p['spec']
    def tensor(rank):
        keep, g.spec = g.spec, flat
        try:
            return G.random_tensor(g, rng, rank, nterms=8)
        finally:
            g.spec = keep
    def draw(name, scale):
        if name == 'w':
            t = gen(rng, 1)
            T[name] = times(scale, t)
            sub.change_scales(tuple(s if i in axes else 1 for i, s in enumerate(g.dealias)))
            sub['g'] = G.on_grid_sub(g, T[name], g.dealias, axes)
        else:
            T[name] = times(scale, tensor(1 if name in 'uv' else 0))
            G.set_field(g, fields[name], T[name], fine)
    for n in fields:
        draw(n, size if n in ('u', 'v', 'w') else 1.)
    prob = d3.IVP(list(fields.values()), namespace={})
    for x in fields.values():
        prob.add_equation((d3.dt(x), 0))
    solver = prob.build_solver(['RK111', 'SBDF1', 'RK222', 'CNAB2'][int(rng.integers(4))])
    solver.initial_iteration = solver.iteration = p['i0']
    kw = p['cfl']
    spac0 = spacings(g)
    cfl = d3.CFL(solver, **kw)
    exprs = {'u': lambda: u, '-2*u': lambda: -2*u, 'u+v': lambda: u + v, 'v': lambda: v}
    vels = list(dict.fromkeys(p['vel']))
    for e in vels:
        cfl.add_velocity(exprs[e]())
    if sub is not None:
        cfl.add_velocity(sub)
    if p['freq']:
        cfl.add_frequency(3*f)
    flow = d3.GlobalFlowProperty(solver, cadence=p['cad'])
    g1 = [1.]*g.dim
    props = {'a': (2*f + 1, lambda: plus(times(2, T['f']), 1, g)), 'b': (-f, lambda: times(-1, T['f'])), 'c': (f - 3*h, lambda: arr(T['f'] - times(3, T['h'])))}
    integ = g.name != 'sphere'
    pre = {n: bool(rng.integers(2)) and integ for n in props}
    if not real:
        props = {}
    for n, (op, _) in props.items():
        flow.add_property(op, n, precompute_integral=pre[n])
    def extreme(data, fn, empty, op):
        return comm.allreduce(fn(data) if data.size else empty, op=op)
    def frequency():
        comps = {'u': lambda: T['u'], '-2*u': lambda: times(-2, T['u']), 'u+v': lambda: arr(T['u'] + T['v']), 'v': lambda: T['v']}
        tot = sum(limit(g, G.on_grid(g, comps[e](), g.dealias)) for e in vels)
        if sub is not None:
            W = G.on_grid(g, T['w'], g.dealias)
            for i in range(g.dim):
                if i not in axes:
                    W[i] = 0
            tot = tot + limit(g, W)
        if p['freq']:
            tot = tot + np.abs(3*G.on_grid(g, T['f'], g.dealias))
        return extreme(np.abs(tot), np.max, -np.inf, MPI.MAX)
    tol = 1e-6 if g.name in ('annulus', 'shell', 'cyl_annulus') else 1e-7
    stored = kw['initial_dt']
    fresh = last = None
    tag = f"{p['spec']['g']} {'real' if real else 'complex'} {kw}"
    rep.state(p['spec']['g'], real, kw['cadence'], p['n'], len(vels), sub is not None, p['freq'])
    for step in range(p['steps']):
        it = solver.iteration
        if rng.random() < 0.7 or step == 0:
            s = size*10**rng.uniform(-0.7, 0.7)
            for n in fields:
                if n in ('u', 'v', 'w') and p['zero'] and step == 4:
                    s = 0.
                draw(n, s if n in ('u', 'v', 'w') else 1.)
        if it % kw['cadence'] == 0 or step == 0:
            fresh = frequency()
        if props and (it % p['cad'] == 0 or step == 0):
            last = {n: (t(), ) for n, (_, t) in props.items()}
            used = set()
        solver.step(0.25)
        either = None
        if rng.random() < 0.85:
            if it % kw['cadence'] == 0 and it > p['i0']:
                new = kw['safety']/fresh if fresh else np.inf
                free = new
                new = min(new, kw.get('max_dt', np.inf), kw.get('max_change', np.inf)*stored)
                new = max(new, kw.get('min_dt', 0.), kw.get('min_change', 0.)*stored)
                rep.count('recomputed')
                rep.count('clamped', new != free)
                gap = abs(new - stored) - kw.get('threshold', 0.)*stored
                if abs(gap) < 1e-9*stored and kw.get('threshold'):
                    either = new        # on the threshold to rounding
                elif gap > 0:
                    stored = new
                else:
                    rep.count('held_by_threshold')
            got = cfl.compute_timestep()
            if either is not None and abs(got - either) <= tol*either:
                stored = either
            rep.count('timesteps')
            rep.require(got == stored or abs(got - stored) <= tol*abs(stored), 'timestep', f"{tag}: {got!r} instead of {stored!r} at iteration {it+1}")
            every = comm.allgather(float(got))
            rep.require(len(set(every)) == 1, 'timestep-ranks', f"{tag}: {every}")
            if got != stored and np.isfinite(got):
                stored = float(got)      # rounding must not accumulate
        if rng.random() < 0.7 and last is not None:
            for n, (t,) in last.items():
                data = G.on_grid(g, t, g1)
                sc = G.tmax(t, g) if comm.size == 1 else extreme(np.abs(data), np.max, 0., MPI.MAX)
                want = {'max': extreme(data, np.max, -np.inf, MPI.MAX), 'min': extreme(data, np.min, np.inf, MPI.MIN),
                        'grid_average': comm.allreduce(np.sum(data), op=MPI.SUM)/comm.allreduce(data.size, op=MPI.SUM)}
                if integ:
                    quads = [G.quad(g, ax) for ax in range(g.dim)]
                    want['volume_integral'] = total(g, t, quads)
                    sc2 = sc*abs(np.prod([w.sum() for _, w in quads]))
                if n in used:
                    # integrating a stored grid leaves it on the dealias grid, through coefficients
                    want = {'volume_integral': want['volume_integral']}
                if integ and not pre[n]:
                    used.add(n)
                for q, val in want.items():
                    got = getattr(flow, q)(n)
                    rep.count('integrals' if q == 'volume_integral' else 'properties')
                    s = sc2 if q == 'volume_integral' else sc
                    rep.require(abs(got - val) <= 10*tol*max(s, 1e-12), 'property-' + q, f"{tag}: {q} of {n} is {got!r} instead of {val!r} at iteration {it+1} (cadence {p['cad']}, precomputed {pre[n]})")
    # the operator itself, over the whole grid
    w = G.make_field(g, 1)
    t = tensor(1)
    op = d3.AdvectiveCFL(w, g.cs)
    for _ in range(2):
        for name in ('once', 'again'):
            G.set_field(g, w, t, fine)
            out = op.evaluate()
            want = limit(g, G.on_grid(g, t, g.dealias))
            out.change_scales(g.dealias)
            rep.close(np.asarray(out['g']), want if not np.isrealobj(out['g']) else want, tol, 'frequency', f"{tag}: AdvectiveCFL {name}")
            rep.count('frequencies')
        t = times(-2., t)
    if not real and g.name in ('sphere', 'ball', 'shell'):
        w.change_scales(g.dealias)
        w['g'] = 0
        w['g'][0] = 1
        w['g'][1] = 1j
        got = np.array(op.evaluate()['g'])
        want = limit(g, np.array(w['g']))
        rep.require(np.allclose(got, want), 'complex-speed', f"{tag}: frequency {np.abs(got).max() if got.size else 0:.3g} of a velocity (1, 1j), expected {np.abs(want).max() if want.size else 0:.3g}")
    for a, b in zip(spac0, spacings(g)):
        rep.require(np.array_equal(a, b), 'spacing-cache', f"{tag}: a grid spacing changed")
    return rep.out


def arr(x):
    if isinstance(x, np.ndarray):
        return x
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def times(c, T):
    return arr(T*c) if T.shape else arr(T[()]*c)


def plus(T, c, g):
    return arr(T[()] + rc.const(g.kinds, float(c)))


def total(g, T, quads):
    gr = [x.reshape([-1 if i == ax else 1 for i in range(g.dim)]) for ax, (x, _) in enumerate(quads)]
    v = G.at(g, T, gr)
    for ax, (_, w) in enumerate(quads):
        v = v*w.reshape([-1 if i == ax else 1 for i in range(g.dim)])
    return float(np.real(v.sum()))


def spacings(g):
    out = []
    for b in g.bases:
        if b.dim == 1:
            if b.size*b.dealias[0] >= 3:
                out.append(np.array(b.local_grid_spacing(g.dist, b.dealias[0])))
        else:
            out += [np.array(b.local_grid_spacing(g.dist, i, scales=b.dealias)) for i in range(b.dim)]
    return out
