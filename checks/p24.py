"""P24: requests the library cannot honour raise, and leave everything else usable."""
import os
import numpy as np
import geoms as G
import harness
import exprs as X

RULE = ("A case builds one geometry with fields, an initial-value solver mid-run and a linear boundary value problem, then makes requests of a catalogue of invalid requests in random order: operands that do not match (rank, bases, bounds, distributor, data type), operators that do "
        "not apply, bad layouts/scales/shapes/data, bad bases/distributors, equations that are nonlinear, time-dependent, affine, higher order, too large, of the wrong type or undefined, systems that are not square, bad solver/timestepper/handler/checkpoint arguments. "
        "The rejection monitor requires an exception at the latest on evaluation or solver construction; after every few rejections the after-state monitor compares every field, and evaluates, solves and steps the valid objects next to a twin that saw no invalid request. Non-trivial if requests were rejected.")
MIN = {'rejections': 1500, 'after_states': 150, 'steps': 100, 'solves': 50, 'distinct_requests': 150}
BUDGET = {'quick': 250, 'thorough': 1500}
CASE_S = 150
EVERY = 8
GEOS = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl']


def cases(tier, rng):
    out = []
    for i in range(2 if tier == 'quick' else 16):
        for geo in GEOS + ['cart1', 'cart2', 'cart3']:
            s = G.random_spec(rng, geo, deg=2)
            if geo == 'ball':
                s['shape'][2] = max(s['shape'][2], s['shape'][1]//2 + 2)
            if 'dealias' in s:
                s['dealias'] = [max(1.25, x) for x in s['dealias']]
            if geo in G.CART:
                # at least one bounded direction
                s['axes'][-1] = G.random_axis(rng, s['real'], kind=['ChebT', 'ChebU', 'Leg', 'Jac'][int(rng.integers(4))], nmin=6, nmax=10)
                s['deg'][-1], s['kmax'][-1] = 2, 0
            out.append({'spec': s, 'i': i})
    for i in range(12 if tier == 'quick' else 60):
        geo = [x for x in GEOS if x != 'cart1'][int(rng.integers(len(GEOS) - 1))]
        s = G.random_spec(rng, geo, deg=2)
        if geo == 'ball':
            s['shape'][2] = max(s['shape'][2], s['shape'][1]//2 + 2)
        if 'dealias' in s:
            s['dealias'] = [max(1.25, x) for x in s['dealias']]
        if geo in G.CART:
            s['axes'][-1] = G.random_axis(rng, s['real'], kind=['ChebT', 'ChebU', 'Leg', 'Jac'][int(rng.integers(4))], nmin=6, nmax=10)
            s['deg'][-1], s['kmax'][-1] = 2, 0
        out.append({'spec': s, 'i': i, 'n': [2, 3, 2, 4][i % 4]})
    return out


class Env:
    pass


def build(spec, seed, comm=None):
    """Geometry, fields and solvers, the same every time."""
    import dedalus.public as d3
    rng = harness.rng_for(seed, str(spec))
    e = Env()
    e.g = g = G.build(spec, comm)
    e.d3 = d3
    e.u = G.make_field(g, 0, 'u')
    e.w = G.make_field(g, 0, 'w')
    e.v = G.make_field(g, 1, 'v')
    e.T = G.make_field(g, 2, 'T')
    e.c = g.dist.Field(name='c')
    e.fields = [e.u, e.w, e.v, e.T, e.c]
    for f in e.fields:
        fill_global(g, f, rng, comm)
    e.q = G.make_field(g, 0, 'q')
    e.p = G.make_field(g, 0, 'p')
    e.f = G.make_field(g, 0, 'f')
    fill_global(g, e.f, rng, comm)
    e.fields += [e.q, e.p, e.f]
    # a problem without boundary conditions, to step and to solve
    e.ivp = d3.IVP([e.q], namespace={'q': e.q, 'u': e.u, 'f': e.f})
    e.ivp.add_equation('dt(q) + 2*q = f - q*q*q/(1 + q*q)')
    e.solver = e.ivp.build_solver('RK222')
    e.solver.stop_sim_time = 1e9
    e.handler = e.solver.evaluator.add_dictionary_handler(iter=1)
    e.handler.add_task(e.q*e.q, name='q2')
    e.lbvp = d3.LBVP([e.p], namespace={'p': e.p, 'f': e.f})
    e.lbvp.add_equation('3*p = f')
    e.lsolver = e.lbvp.build_solver()
    e.y = G.make_field(g, 0, 'y')
    e.s = dist_field(g, 's')
    e.evp = d3.EVP([e.y], eigenvalue=e.s, namespace={'y': e.y, 's': e.s})
    e.evp.add_equation('s*y + 2*y = 0')
    e.esolver = e.evp.build_solver()
    e.n = G.make_field(g, 0, 'n')
    e.n['g'] = 1
    e.nlbvp = d3.NLBVP([e.n], namespace={'n': e.n, 'f': e.f})
    e.nlbvp.add_equation('3*n = f')
    e.nsolver = e.nlbvp.build_solver()
    e.expr = d3.Add(e.u*e.w, d3.dot(e.v, e.v)) if g.cs.dim > 1 else e.u*e.w + 2*e.u
    return e


def fill_global(g, f, rng, comm):
    if comm is None:
        f['g'] = rng.standard_normal(f['g'].shape)
    else:
        f.fill_random('g', seed=int(rng.integers(10**6)))
    f['c']
    f['g']


def dist_field(g, name):
    return g.dist.Field(name=name)


def snapshot(e):
    return [(f.name, np.array(f['c'])) for f in e.fields]


# Systems are set up by the rank that holds them: the others learn nothing of a fault there
GROUPWISE = ('two equations of', 'no boundary', 'nothing on', 'undetermined', 'variable too many', 'equation twice', 'condition', 'right side larger', 'right side across', 'integral of vector', 'average of vector')


class Recorder:
    """Stand-in for the context on one of several ranks."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.counts, self.bad = {}, []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def require(self, ok, mech, msg):
        self.count('comparisons')
        if not ok:
            self.bad.append((mech, msg))
        return ok

    def close(self, a, b, tol, mech, msg, scale=1):
        d = np.max(np.abs(np.asarray(a) - np.asarray(b)), initial=0) if np.shape(a) == np.shape(b) else np.inf
        return self.require(d <= tol*scale, mech, f"{msg}: differs by {d}")


def ranks(comm, p, out):
    spec = p['spec']
    rng = harness.rng_for(*p['key'])
    e = build(spec, p['i'], comm)
    t = build(spec, p['i'], comm)
    scratch = os.path.join(out, f'r{comm.rank}')
    os.makedirs(scratch)
    rec = Recorder(scratch)
    reqs = [(n, fn) for n, fn in catalogue(e, rec) if not any(x in n for x in GROUPWISE)]
    # (ranks with nothing to work on may find nothing wrong)
    holds = comm.allgather(bool(min(e.v['c'].size, e.v['g'].size, len(e.solver.subproblems))))
    since = []
    for j, k in enumerate(rng.permutation(len(reqs))):
        name, fn = reqs[k]
        rec.count('requests')
        try:
            fn()
            err = None
        except Exception as x:
            err = type(x).__name__
        errs = comm.allgather(err)
        if None in [x for x, h in zip(errs, holds) if h]:
            rec.bad.append((f'accepted:{name}', f"{e.g.name}: '{name}' on {comm.size} ranks: {errs}"))
        else:
            rec.count('rejections')
        since.append(name)
        if j % EVERY == EVERY-1:
            after(e, t, rec, since)
            since = []
    return rec.counts, rec.bad


def run_ranks(case, ctx):
    res = ctx.mpirun(case['n'], 'ranks', dict(case, key=[ctx.seed, str(case['spec'])]), hang='P24', timeout=200)
    if res is None:
        return
    for r, (counts, bad) in enumerate(res):
        for k, n in counts.items():
            ctx.count(k if k != 'rejections' else 'rank_rejections', n)
        for mech, msg in bad:
            ctx.violation(mech, f"rank {r} of {case['n']}: {msg}")
    ctx.state('ranks', case['n'], case['spec']['g'])


def run(case, ctx):
    if 'n' in case:
        return run_ranks(case, ctx)
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    e = build(spec, case['i'])
    t = build(spec, case['i'])
    reqs = catalogue(e, ctx)
    names = [n for n, fn in reqs]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    order = rng.permutation(len(reqs))
    since = []
    for j, k in enumerate(order):
        name, fn = reqs[k]
        # start from any layout
        for f in e.fields:
            if rng.random() < 0.3:
                f[str(rng.choice(['g', 'c']))]
        ctx.count('requests')
        err = ctx.raises(fn, f'accepted:{name}', f"{e.g.name}: '{name}' was accepted without an error")
        ctx.state(e.g.name, name, type(err).__name__)
        # a request whose text does not even name its parts would test nothing
        assert not isinstance(err, NameError) or 'undefined' in name or 'unknown' in name, (name, err)
        since.append(name)
        if j % EVERY == EVERY-1 or j == len(order) - 1:
            after(e, t, ctx, since)
            since = []
    ctx.count('distinct_requests', len(reqs))


def after(e, t, ctx, since):
    what = f"{e.g.name} after {since}"
    ctx.count('after_states')
    for (n, a), (_, b) in zip(snapshot(e), snapshot(t)):
        if not ctx.close(a, b, 1e-8, 'data', f"{what}: data of {n}", scale=max(1, np.max(np.abs(b), initial=0))):
            # do not report the same damage again
            for f, (_, b2) in zip(e.fields, snapshot(t)):
                f['c'] = b2
    for x in (e, t):
        x.solver.step(1e-2)
        x.lsolver.solve()
        # (a rank may hold no subproblem)
        if x.esolver.subproblems:
            x.esolver.solve_dense(x.esolver.subproblems[0])
        x.nsolver.newton_iteration()
        x.val = x.expr.evaluate()
        x.val = np.array(x.val['g'])
    ctx.count('steps')
    ctx.count('solves')
    ctx.require(e.solver.iteration == t.solver.iteration and e.solver.sim_time == t.solver.sim_time, 'clock', f"{what}: iteration {e.solver.iteration} time {e.solver.sim_time} instead of {t.solver.iteration} {t.solver.sim_time}")
    ctx.close(np.array(e.q['c']), np.array(t.q['c']), 1e-8, 'step', f"{what}: step of the running solver", scale=max(1, np.max(np.abs(t.q['c']), initial=0)))
    ctx.close(np.array(e.p['c']), np.array(t.p['c']), 1e-8, 'solve', f"{what}: boundary value solution", scale=max(1, np.max(np.abs(t.p['c']), initial=0)))
    if e.esolver.subproblems:
        ctx.close(e.esolver.eigenvalues, t.esolver.eigenvalues, 1e-8, 'eigenvalues', f"{what}: eigenvalues")
    ctx.close(np.array(e.n['c']), np.array(t.n['c']), 1e-8, 'newton', f"{what}: Newton iteration", scale=max(1, np.max(np.abs(t.n['c']), initial=0)))
    ctx.close(e.val, t.val, 1e-8, 'evaluate', f"{what}: expression", scale=max(1, np.max(np.abs(t.val), initial=0)))
    ctx.require([k['name'] for k in e.handler.tasks] == [k['name'] for k in t.handler.tasks], 'tasks', f"{what}: tasks {[k['name'] for k in e.handler.tasks]}")
    ctx.require(len(e.ivp.equations) == len(t.ivp.equations) and len(e.lbvp.equations) == len(t.lbvp.equations), 'equations', f"{what}: equations of the valid problems changed")
    a, b = e.handler.fields['q2'], t.handler.fields['q2']
    ctx.close(np.array(a['g']), np.array(b['g']), 1e-8, 'task', f"{what}: task", scale=max(1, np.max(np.abs(b['g']), initial=0)))


def catalogue(e, ctx):
    d3, g, u, w, v, T, c = e.d3, e.g, e.u, e.w, e.v, e.T, e.c
    dist, cs = g.dist, g.cs
    real = np.dtype(g.dtype).kind == 'f'
    cart = g.name in G.CART
    one = cart and g.dim == 1
    name0 = g.coords[0].name
    R = []
    def add(name, fn):
        R.append((name, fn))
    from dedalus.core.operators import convert
    ev = lambda x: x.evaluate()
    scratch = ctx.scratch

    # Operands that do not match
    other = G.build(g.spec, dist.comm)
    ou = G.make_field(other, 0, 'ou')
    ou['g'] = 1
    odt = np.complex128 if real else np.float64
    add('sum of fields of two distributors', lambda: ev(u + ou))
    add('product of fields of two distributors', lambda: ev(u*ou))
    add('equation with two distributors', lambda: problem('LBVP', [e.p], [(e.p, ou)]))
    add('scalar plus vector', lambda: ev(u + v))
    add('vector minus scalar', lambda: ev(v - u))
    add('vector plus tensor', lambda: ev(v + T))
    if not cart:
        # (Cartesian vectors take a number as the constant vector of equal components)
        add('number plus vector', lambda: ev(v + 1))
        add('vector minus number', lambda: ev(2.5 - v))
    add('constant plus vector', lambda: ev(c + v))
    add('field plus text', lambda: ev(u + 'u'))
    add('field times text', lambda: ev(u*'2'))
    add('field times None', lambda: ev(u*None))
    add('field plus list', lambda: ev(u + [1, 2]))
    add('field to a field power', lambda: ev(u**w))
    add('number to a field power', lambda: ev(2**u))
    add('field to a text power', lambda: ev(u**'2'))
    add('dot of scalars', lambda: ev(d3.dot(u, w)))
    add('dot of scalar and vector', lambda: ev(d3.dot(u, v)))
    add('dot with number', lambda: ev(d3.dot(v, 2)))
    add('dot of vector and number', lambda: ev(d3.dot(3.0, v)))
    add('dot along missing index', lambda: ev(d3.DotProduct(v, v, indices=(1, 0))))
    add('dot along negative missing index', lambda: ev(d3.DotProduct(v, v, indices=(-2, 0))))
    add('cross of scalars', lambda: ev(d3.cross(u, w)))
    add('cross of tensors', lambda: ev(d3.cross(T, T)))
    if cs.dim != 3:
        add('cross of short vectors', lambda: ev(d3.cross(v, v)))
        add('curl of short vector', lambda: ev(d3.curl(v)))
    add('trace of scalar', lambda: ev(d3.trace(u)))
    add('trace of vector', lambda: ev(d3.trace(v)))
    add('transpose of scalar', lambda: ev(d3.transpose(u)))
    add('transpose of vector', lambda: ev(d3.transpose(v)))
    add('transpose of missing indices', lambda: ev(d3.transpose(T, indices=(0, 3))))
    add('transpose of one index', lambda: ev(d3.transpose(T, indices=(0, 0))))
    add('divergence of scalar', lambda: ev(d3.div(u)))
    add('divergence along missing index', lambda: ev(d3.div(v, index=1)))
    add('curl of scalar', lambda: ev(d3.curl(u)))
    add('skew of scalar', lambda: ev(d3.skew(u)))
    if cs.dim != 2:
        add('skew of other than plane vector', lambda: ev(d3.skew(v)))
    add('numpy function of two fields', lambda: ev(np.arctan2(u, w)))
    if not cart:
        add('integral of vector', lambda: ev(d3.integ(v)))
        add('average of vector', lambda: ev(d3.ave(v)))
    add('derivative along unknown name', lambda: ev(d3.Differentiate(u, 'nope')))
    add('derivative along number', lambda: ev(d3.Differentiate(u, 3)))
    add('interpolation along unknown name', lambda: ev(u(nope=0)))
    add('interpolation at unknown place', lambda: ev(d3.Interpolate(u, g.coords[-1], 'nowhere')))
    add('interpolation at None', lambda: ev(d3.Interpolate(u, g.coords[-1], None)))
    add('interpolation along number', lambda: ev(d3.Interpolate(u, 5, 0)))
    add('integral along unknown name', lambda: ev(d3.integ(u, 'nope')))
    add('average along unknown name', lambda: ev(d3.ave(u, 'nope')))
    add('derivative by foreign coordinate', lambda: ev(d3.Differentiate(u, d3.Coordinate('zz'))))
    add('gradient by foreign coordinates', lambda: ev(d3.grad(u, d3.CartesianCoordinates('a1', 'b1'))))
    add('divergence without argument', lambda: d3.div())
    add('gradient with unknown option', lambda: ev(d3.grad(u, nope=1)))
    if cart or g.n == 3 and g.name not in ('ball', 'shell'):
        add('radial component', lambda: ev(d3.radial(v)))
        add('azimuthal component', lambda: ev(d3.azimuthal(v)))
        vp = v
        for co in g.coords:
            vp = vp(**{co.name: 1.0 if co.name == 'r' else sum(g.spec['axes'][g.coords.index(co)]['bounds'])/2}) if cart and co is not g.coords[0] or co.name == 'r' else vp
        add('radial component of values at a place', lambda: ev(d3.radial(vp)))
        add('azimuthal component of values at a place', lambda: ev(d3.azimuthal(vp)))
    add('radial component of scalar', lambda: ev(d3.radial(u)))
    add('angular component of scalar', lambda: ev(d3.angular(u)))
    add('component of missing index', lambda: ev(d3.Component(v, index=1, comp=0)) if hasattr(d3, 'Component') else ev(d3.operators.Component(v, 1, cs)))
    lb = None
    if cart:
        lb = g.bases[-1]
    elif g.name in ('disk', 'annulus', 'ball', 'shell'):
        lb = g.bases[0]
    if lb is not None:
        edge = dist.Field(name='edge', bases=tuple(g.bases[:-1])) if cart else None
        if cart:
            N = lb.size
            add('lift onto a mode above the basis', lambda: ev(d3.lift(edge, lb, N)))
            add('lift onto a mode beyond the basis', lambda: ev(d3.lift(edge, lb, -N-1)))
            add('lift onto half a mode', lambda: ev(d3.lift(edge, lb, -1.5)))
            add('lift onto a named mode', lambda: ev(d3.lift(edge, lb, 'last')))
            add('lift of a full field', lambda: ev(d3.lift(u, lb, -1)))
            add('lift onto no basis', lambda: ev(d3.lift(edge, None, -1)))
        else:
            edge = dist.Field(name='edge', bases=lb.surface if g.name == 'ball' else lb.outer_surface if g.name == 'shell' else lb.edge if g.name == 'disk' else lb.outer_edge)
            edge['g'] = 1
            lk = lb.derivative_basis(1)
            N = lb.shape[-1]
            add('lift onto a positive mode', lambda: ev(d3.lift(edge, lk, 1)))
            add('lift onto mode zero', lambda: ev(d3.lift(edge, lk, 0)))
            add('lift onto a mode beyond the basis', lambda: ev(d3.lift(edge, lk, -N-1)))
            add('lift onto half a mode', lambda: ev(d3.lift(edge, lk, -1.5)))
            add('lift onto a named mode', lambda: ev(d3.lift(edge, lk, 'last')))
            add('lift of a full field', lambda: ev(d3.lift(u, lk, -1)))
            add('lift onto no basis', lambda: ev(d3.lift(edge, None, -1)))
    fcs = {1: lambda: d3.CartesianCoordinates('a1'), 2: lambda: d3.CartesianCoordinates('a1', 'b1'), 3: lambda: d3.CartesianCoordinates('a1', 'b1', 'c1')}[cs.dim]()
    add('vector over foreign coordinates', lambda: ev(d3.div(dist.VectorField(fcs, bases=g.bases))))
    def foreign():
        f = dist.VectorField(fcs, bases=g.bases)
        f['g'] = 1
        return f
    add('sum of vectors of two coordinate systems', lambda: ev(v + foreign()))
    add('numpy function with output', lambda: ev(np.sin(u, out=np.zeros(3))))
    add('outer numpy function', lambda: ev(np.multiply.outer(u, w)))
    add('numpy reduction', lambda: ev(np.add.reduce(u)))
    add('gradient of text', lambda: ev(d3.grad('u')))
    add('laplacian of None', lambda: ev(d3.lap(None)))
    add('derivative of list', lambda: ev(d3.Differentiate([1, 2], g.coords[0])))
    add('time derivative evaluated', lambda: ev(d3.dt(u)))
    # Bases that do not match
    if cart:
        J = [k for k, ax in enumerate(g.spec['axes']) if ax['b'] != 'F'][-1]
        co = g.coords[J]
        mk = lambda **kw: d3.Jacobi(co, **dict(dict(size=g.bases[J].size, bounds=g.bases[J].bounds, a=g.bases[J].a, b=g.bases[J].b, dealias=g.bases[J].dealias[0]), **kw))
        def with_basis(b):
            f = dist.Field(name='mis', bases=g.bases[:J] + (b,) + g.bases[J+1:])
            f['g'] = 1
            f['c']
            f['g']
            return f
        lo, hi = g.bases[J].bounds
        def mism(label, **kw):
            x = with_basis(mk(**kw))
            add(f'sum over {label}', lambda: ev(u + x))
            add(f'product over {label}', lambda: ev(u*x))
            add(f'equation over {label}', lambda: problem('LBVP', [e.p], [(e.p, x)]))
        x2 = with_basis(mk(size=g.bases[J].size + 2))
        add('product over different sizes', lambda: ev(u*x2))
        mism('different bounds', bounds=(lo, hi + 1))
        mism('different polynomials', a=g.bases[J].a + 1.5, b=g.bases[J].b + 1.5, a0=g.bases[J].a + 1.5, b0=g.bases[J].b + 1.5)
        F = d3.RealFourier if real else d3.ComplexFourier
        x = with_basis(F(co, size=8, bounds=(lo, hi)))
        add('sum of polynomials and waves', lambda: ev(u + x))
        add('product of polynomials and waves', lambda: ev(u*x))
        add('overlapping bases', lambda: dist.Field(bases=(g.bases[J], F(co, size=8, bounds=(lo, hi)))))
        add('negative size', lambda: with_basis(mk(size=-4)))
        add('zero size', lambda: with_basis(mk(size=0)))
        add('three bounds', lambda: with_basis(mk(bounds=(0, 1, 2))))
        add('no bounds', lambda: with_basis(mk(bounds=None)))
        add('equal bounds', lambda: with_basis(mk(bounds=(1, 1))))
        add('two dealias factors', lambda: with_basis(mk(dealias=(1, 1.5))))
        add('unknown transform library', lambda: with_basis(mk(library='nope')))
        add('waves of negative size', lambda: with_basis(F(co, size=-8, bounds=(0, 1))))
        add('waves of three bounds', lambda: with_basis(F(co, size=8, bounds=(0, 1, 2))))
        add('waves with equal bounds', lambda: with_basis(F(co, size=8, bounds=(2, 2))))
        add('waves with unknown library', lambda: with_basis(F(co, size=8, bounds=(0, 1), library='nope')))
        add('basis without coordinate', lambda: d3.ChebyshevT('x', size=8, bounds=(0, 1)))
        add('waves without coordinate', lambda: F('x', size=8, bounds=(0, 1)))
    elif g.name in ('disk', 'annulus', 'sphere', 'ball', 'shell'):
        b = g.bases[0]
        cls = {'disk': d3.DiskBasis, 'annulus': d3.AnnulusBasis, 'sphere': d3.SphereBasis, 'ball': d3.BallBasis, 'shell': d3.ShellBasis}[g.name]
        sh = tuple(b.shape)
        good = {'radius': getattr(b, 'radius', 1)} if g.name in ('disk', 'sphere', 'ball') else {'radii': tuple(b.radii)}
        mk = lambda shape=sh, coords=cs, **kw: fill(dist, cls(coords, shape, dtype=g.dtype, **dict(good, **kw)))
        sizes2 = tuple(s + (4 if k == 0 else 2) for k, s in enumerate(sh))
        def mism(label, **kw):
            x = mk(**kw)
            add(f'sum over {label}', lambda: ev(u + x))
            add(f'product over {label}', lambda: ev(u*x))
            add(f'equation over {label}', lambda: problem('LBVP', [e.p], [(e.p, x)]))
        mism('different sizes', shape=sizes2)
        if 'radii' in good:
            mism('different radii', radii=(good['radii'][0], good['radii'][1] + 1))
            add('reversed radii', lambda: mk(radii=good['radii'][::-1]))
            add('equal radii', lambda: mk(radii=(1, 1)))
            add('negative radii', lambda: mk(radii=(-1, 1)))
            add('three radii', lambda: mk(radii=(1, 2, 3)))
        else:
            mism('different radii', radius=good['radius'] + 1)
            add('negative radius', lambda: mk(radius=-1))
            if g.name != 'sphere':
                add('zero radius', lambda: mk(radius=0))
        add('short shape', lambda: mk(shape=sh[:-1]))
        add('long shape', lambda: mk(shape=sh + (4,)))
        add('odd azimuthal size', lambda: mk(shape=(sh[0] + 1,) + sh[1:]))
        add('wrong coordinates', lambda: mk(coords=d3.CartesianCoordinates(*[f'z{k}' for k in range(g.dim)])))
        add('long dealias', lambda: mk(dealias=(1,)*(g.dim + 1)))
        add('unknown azimuth library', lambda: mk(azimuth_library='nope'))
        add('overlapping bases', lambda: dist.Field(bases=(b, cls(cs, sizes2, dtype=g.dtype, **good))))
        if real and sh[0] > 4:
            add('azimuthal size not in fours', lambda: mk(shape=(sh[0] + 2,) + sh[1:]))
    # Coordinates and distributors
    add('repeated coordinate names', lambda: d3.CartesianCoordinates('x', 'x'))
    add('repeated polar names', lambda: d3.PolarCoordinates('r', 'r'))
    add('repeated sphere names', lambda: d3.S2Coordinates('p', 'p'))
    add('repeated spherical names', lambda: d3.SphericalCoordinates('p', 't', 'p'))
    xx = d3.Coordinate('xx')
    add('repeated coordinates', lambda: d3.DirectProduct(xx, xx))
    add('mesh of too many processes', lambda: d3.Distributor(cs, dtype=g.dtype, mesh=(7,)*max(1, g.dim - 1)))
    add('field without data type', lambda: d3.Distributor(cs).Field()['g'])
    add('field with foreign basis', lambda: fill(dist, d3.ChebyshevT(d3.Coordinate('qq'), size=8, bounds=(0, 1))))
    add('field with unknown data type', lambda: dist.Field(dtype='nope'))
    add('vector over text', lambda: dist.VectorField('x', bases=g.bases)['g'])
    add('field over text bases', lambda: dist.Field(bases='x'))
    add('coordinates of one name', lambda: d3.Distributor((d3.Coordinate('x'), d3.Coordinate('x')), dtype=g.dtype))
    # Layouts, scales, data
    f = u
    add('unknown layout', lambda: f['x'])
    add('unknown layout assigned', lambda: f.__setitem__('x', 1))
    add('layout number', lambda: f[99])
    add('change to unknown layout', lambda: f.change_layout('nope'))
    add('scale zero', lambda: f.change_scales(0))
    add('one scale zero', lambda: f.change_scales((1,)*(g.n - 1) + (0,)))
    add('scale text', lambda: f.change_scales('big'))
    add('negative scale', lambda: f.change_scales(-1))
    add('negative scale and grid', lambda: f['g', -2])
    add('scale nan', lambda: f.change_scales(np.nan))
    add('short scales', lambda: (f.change_scales((1.5,)*(g.n - 1)), f['g'])) if g.n > 1 else None
    add('long scales', lambda: (f.change_scales((1.5,)*(g.n + 1)), f['g']))
    gs, csz = f['g'].shape, f['c'].shape
    add('grid data too long', lambda: f.__setitem__('g', np.zeros(tuple(s + 1 for s in gs))))
    add('coefficients too long', lambda: f.__setitem__('c', np.zeros(tuple(s + 1 for s in csz))))
    add('grid data of other rank', lambda: f.__setitem__('g', np.zeros((3,) + gs)))
    add('vector data of other rank', lambda: v.__setitem__('g', np.zeros((v['g'].shape[0] + 1,) + gs)))
    add('grid data text', lambda: f.__setitem__('g', 'abc'))
    add('data at scales too long', lambda: f.__setitem__(('g', 2), np.zeros(tuple(3*s for s in gs))))
    add('global grid data too long', lambda: f.load_from_global_grid_data(np.zeros(tuple(2*s + 1 for s in gs))) if False else f.load_from_global_grid_data(np.zeros(tuple(s + 1 for s in gs) + (2,))))
    f = G.make_field(g, 0, 'scratch')
    f['g'] = 1
    add('random fill unknown distribution', lambda: f.fill_random('g', distribution='nope'))
    add('random fill unknown option', lambda: f.fill_random('g', seed=1, nope=3))
    add('filter with shape and scales', lambda: f.low_pass_filter(shape=gs, scales=0.5))
    add('filter at scale zero', lambda: f.low_pass_filter(scales=0))
    add('norm of rank 3', lambda: dist.TensorField((cs,)*3, bases=g.bases).allreduce_L2_norm()) if False else None
    add('load from missing file', lambda: f.load_from_hdf5(h5(os.path.join(scratch, 'none.h5')), 0))
    add('load missing task', lambda: f.load_from_hdf5(file_without(scratch), 0))
    if lb is not None and cart:
        add('conversion to lower bases', lambda: ev(convert(d3.Differentiate(u, lb.coord), (lb,))))
    # Problems
    e.t = dist.Field(name='t')
    ns = {'q': e.q, 'p': e.p, 'f': e.f, 'u': u, 'v': v, 'T': T, 'c': c, 't': e.t, 'np': np}
    def prob(kind, eqs, name, vars=None, ev=None, **kw):
        def fn():
            vs = vars or [e.p]
            P = {'IVP': d3.IVP, 'LBVP': d3.LBVP, 'NLBVP': d3.NLBVP}.get(kind)
            if kind == 'IVP':
                kw.setdefault('time', e.t)
            P = P(vs, namespace=ns, **kw) if P else d3.EVP(vs, eigenvalue=c, namespace=ns)
            for q in eqs:
                P.add_equation(q)
            s = P.build_solver('RK222') if kind == 'IVP' else P.build_solver()
            # systems that are not square are found when matrices are built
            if kind == 'IVP':
                s.step(1e-3)
            elif kind == 'NLBVP':
                s.newton_iteration()
            elif kind == 'LBVP':
                s.solve()
            else:
                s.solve_dense(s.subproblems[0])
        saved = {}
        def guarded():
            # valid parts of a bad request may write to its own variables
            vs = {x.name: x for x in (vars or [e.p])}
            keep = {k: np.array(x['c']) for k, x in vs.items()}
            try:
                fn()
            finally:
                for k, x in vs.items():
                    x.preset_scales(1)
                    x['c'] = keep[k]
        add(f'{kind}: {name}', guarded)
    for kind, L in [('IVP', 'dt(p) + p'), ('LBVP', 'p'), ('NLBVP', 'p'), ('EVP', 'c*p + p')]:
        R0 = '0' if kind == 'EVP' else 'f'
        prob(kind, [f'{L}'], 'no equals sign')
        prob(kind, [f'{L} = {R0} = {R0}'], 'two equals signs')
        prob(kind, [f'{L} = '], 'empty right side')
        prob(kind, [f' = {R0}'], 'empty left side')
        prob(kind, [f'{L} + = {R0}'], 'syntax error')
        prob(kind, [f'{L} + nope = {R0}'], 'undefined name')
        prob(kind, [f'{L} + nope(p) = {R0}'], 'undefined operator')
        prob(kind, [f'{L} = "f"'], 'text right side')
        prob(kind, [(e.p,)], 'one-sided tuple')
        prob(kind, [(e.p, 0, 1)], 'three-sided tuple')
        prob(kind, [5], 'number for an equation')
        prob(kind, [f'v*p + {L} = {R0}'], 'vector plus scalar')
        prob(kind, [f'v*p = {R0}' if kind != 'EVP' else 'v*p + c*p = 0'], 'vector equation of a scalar')
        prob(kind, [], 'no equations')
        prob(kind, [f'{L} = {R0}', f'{L} = {R0}'], 'an equation twice')
        prob(kind, [f'{L} = {R0}'], 'a variable too many', vars=[e.p, e.q])
        prob(kind, [f'{L} = {R0}'], 'text variables', vars=['p']) if False else None
        if kind != 'NLBVP':
            prob(kind, [f'{L} + p*p = {R0}'], 'product of variables on the left')
            prob(kind, [f'{L} + p**2 = {R0}'], 'square on the left')
            prob(kind, [f'{L} + sin(p) = {R0}' if False else f'{L} + np.sin(p) = {R0}'], 'function on the left')
            prob(kind, [f'{L} + 1 = {R0}'], 'constant on the left')
            prob(kind, [f'{L} + f = {R0}'], 'known field on the left')
        if kind != 'EVP':
            if cs.dim > 1:
                prob(kind, [f'{L} = v'], 'vector right side')
                prob(kind, [f'{L} = T'], 'tensor right side')
    big = e.p
    prob('IVP', ['dt(dt(p)) + p = f'], 'second time derivative')
    prob('IVP', ['dt(p)*p = f'], 'time derivative times variable')
    prob('IVP', ['dt(p)*dt(p) + p = f'], 'product of time derivatives')
    prob('IVP', ['dt(p*p) + p = f'], 'time derivative of a square')
    prob('IVP', ['dt(p) + p = dt(p)'], 'time derivative on the right')
    prob('IVP', ['dt(p) + t*p = f'], 'time-dependent coefficient on the left')
    prob('IVP', ['dt(p) + np.sin(t)*p = f'], 'time function on the left')
    prob('IVP', ['t*dt(p) + p = f'], 'time-dependent mass')
    # the same further inside an expression
    for L in ['dt(p + dt(p))', 'dt(2*dt(p))', 'dt(lap(dt(p)))', 'dt(f*dt(p))', 'lap(dt(dt(p)))', 'dt(3*(p - lap(dt(p))))']:
        prob('IVP', [f'{L} + p = f'], f'second time derivative within {L}')
    for L in ['dt(t*p)', 'lap(t*p)', 'f*(p + t*p)', 'lap(p + 2*t*p)', 'np.cos(3*t)*lap(p)', '(1 + t)*p', 'dt(lap(p)/(2 + t))']:
        prob('IVP', [f'dt(p) + {L} = f'], f'time-dependent left side {L}')
    for L in ['dt(p + f)', 'dt(p + 1)']:
        prob('IVP', [f'{L} + p = f'], f'known part on the left in {L}')
    for Rt in ['lap(dt(p))', 'f*dt(p)', 'f + lap(p + dt(p))', 'dt(f)', 'np.sin(dt(p))', 'p*p + 2*dt(p)**2']:
        prob('IVP', [f'dt(p) + p = {Rt}'], f'time derivative on the right in {Rt}')
    for kind, L0 in [('IVP', 'dt(p)'), ('LBVP', 'p'), ('EVP', 'c*p')]:
        R0 = '0' if kind == 'EVP' else 'f'
        for L in ['lap(p*p)', 'p*lap(p)', 'f*p*p', 'lap(p + f)', 'lap(p) + lap(f)', '2*(p + 1)', 'f*(p + f)', 'np.exp(lap(p))', '(f*p)**2', 'p/(1 + p)', 'p*(p + 1)', 'p**0.5', 'np.abs(f + p)']:
            prob(kind, [f'{L0} + {L} = {R0}'], f'left side not linear in {L}')
    for Rt in ['lap(p)', 'f + f*p', 'lap(f + p)', 'np.sin(p)', 'f*p**2', 'f + 0.5*(p - f)']:
        prob('LBVP', [f'3*p = {Rt}'], f'variable on the right in {Rt}')
    for L in ['lap(c*c*p)', 'c*lap(c*p)', 'c*(p + c*p)', 'p/(1 + c)', 'lap(p)*c**2', 'np.cos(c)*lap(p)', 'c**0.5*p']:
        prob('EVP', [f'p + {L} = 0'], f'eigenvalue not linear in {L}')
    prob('IVP', ['dt(p) + p = f'], 'time with bases', time=e.q)
    prob('IVP', ['dt(p) + p = f'], 'time of no kind', time=3)
    prob('LBVP', ['p = f*p'], 'variable on the right')
    prob('LBVP', ['p = p**2'], 'square of variable on the right')
    prob('EVP', ['c*p + p = f'], 'right side')
    prob('EVP', ['c*p + p = 1'], 'constant right side')
    prob('EVP', ['c*p + p = p'], 'variable right side')
    prob('EVP', ['c*c*p + p = 0'], 'square of the eigenvalue')
    prob('EVP', ['np.exp(c)*p + p = 0'], 'function of the eigenvalue')
    prob('EVP', ['c + p = 0'], 'eigenvalue alone')
    add('EVP: eigenvalue with bases', lambda: d3.EVP([e.p], eigenvalue=u))
    add('EVP: eigenvalue text', lambda: d3.EVP([e.p], eigenvalue='c'))
    add('EVP: no eigenvalue', lambda: d3.EVP([e.p]))
    e.cc = dist.Field(name='cc')
    ns['cc'] = e.cc
    for kind, L in [('IVP', 'dt(cc) + cc'), ('LBVP', 'cc'), ('NLBVP', 'cc')]:
        prob(kind, [f'{L} = f'], 'right side larger than left', vars=[e.cc])
        prob(kind, [f'{L} = 0', f'{L} = 0'], 'two equations of one constant', vars=[e.cc])
    if g.n > 1 and (cart or 'cyl' in g.name):
        # ... in some directions only
        ns['pl'] = e.pl = dist.Field(name='pl', bases=g.bases[-1:])
        for kind, L in [('IVP', 'dt(pl) + pl'), ('LBVP', 'pl'), ('NLBVP', 'pl')]:
            prob(kind, [f'{L} = f'], 'right side larger than left in one direction', vars=[e.pl])
        ns['pf'] = e.pf = dist.Field(name='pf', bases=g.bases[:1])
        for kind, L in [('IVP', 'dt(pl) + pl'), ('LBVP', 'pl'), ('NLBVP', 'pl')]:
            prob(kind, [f'{L} = pf'], 'right side across left', vars=[e.pl])
    prob('IVP', ['dt(p) + p = f', 'dt(q) + q = f + t*dt(p)'], 'time derivative on a later right', vars=[e.p, e.q])
    add('IVP: eigenproblem of time-dependent equation', lambda: timedep_evp(d3, e, ns))
    def cond(c):
        def fn():
            P = d3.LBVP([e.p], namespace=ns)
            P.add_equation('3*p = f', condition=c)
            P.build_solver().solve()
        return fn
    add('LBVP: condition of unknown name', cond('nope == 0'))
    add('LBVP: condition of syntax error', cond('n =='))
    add('LBVP: never true condition', cond('False'))
    add('LBVP: condition on one group', cond(f'n{name0} == 1')) if not (cart and g.spec['axes'][0]['b'] != 'F') else None
    if lb is not None or g.name == 'sphere':
        prob('LBVP', ['lap(p) = f'], 'no boundary conditions')
        prob('LBVP', ['lap(p) - lap(p) = f'], 'nothing on the left')
        prob('IVP', ['dt(p) + lap(p) = f', 'p = f'], 'an undetermined variable', vars=[e.p, e.q])
    # Solvers
    add('solver: unknown scheme', lambda: e.ivp.build_solver('RK999'))
    add('solver: no scheme', lambda: e.ivp.build_solver())
    add('solver: scheme object of no kind', lambda: e.ivp.build_solver(3))
    add('solver: unknown matrix solver', lambda: solve_with(e, d3, ns, matsolver='nope'))
    add('solver: unknown option', lambda: e.ivp.build_solver('RK222', nope=1))
    add('solver: step nan', lambda: e.solver.step(np.nan))
    add('solver: step inf', lambda: e.solver.step(np.inf))
    add('solver: step text', lambda: e.solver.step('dt'))
    add('solver: step None', lambda: e.solver.step(None))
    def evolve():
        s = e.ivp.build_solver('RK222')
        keep = np.array(e.q['c'])
        try:
            s.evolve(lambda: 0.01)
        finally:
            e.q['c'] = keep
    add('solver: evolve without end', evolve)
    def badstep(scheme, dt):
        s = e.ivp.build_solver(scheme)
        keep = np.array(e.q['c'])
        try:
            s.step(dt)
        finally:
            e.q['c'] = keep
    add('solver: multistep step zero', lambda: badstep('SBDF2', 0))
    add('eigensolver: state out of range', lambda: (e.esolver.solve_dense(e.esolver.subproblems[0]), e.esolver.set_state(10**6, e.esolver.subsystems[0])))
    add('eigensolver: state of text', lambda: e.esolver.set_state('a', e.esolver.subsystems[0]))
    add('eigensolver: foreign subsystem', lambda: e.esolver.set_state(0, 'a'))
    add('eigensolver: no subproblem', lambda: e.esolver.solve_dense(None))
    add('eigensolver: negative number of modes', lambda: e.esolver.solve_sparse(e.esolver.subproblems[0], N=-2, target=0))
    add('newton: damping text', lambda: e.nsolver.newton_iteration(damping='x'))
    def badhandler(**kw):
        s = e.ivp.build_solver('RK222')
        keep = np.array(e.q['c'])
        try:
            h = s.evaluator.add_dictionary_handler(**kw)
            h.add_task(e.q, name='q')
            for k in range(3):
                s.step(0.01)
        finally:
            e.q['c'] = keep
    add('handler: cadence text', lambda: badhandler(iter='often'))
    add('handler: time cadence text', lambda: badhandler(sim_dt='often'))
    add('solver: load missing file', lambda: e.solver.load_state(os.path.join(scratch, 'nope.h5')))
    add('solver: load file without fields', lambda: e.solver.load_state(file_without(scratch, close=True)))
    # Handlers
    evl = e.solver.evaluator
    add('handler: unknown write mode', lambda: evl.add_file_handler(os.path.join(scratch, 'h1'), mode='nope'))
    add('handler: folder is a file', lambda: evl.add_file_handler(file_without(scratch, close=True)))
    add('handler: unknown parallel method', lambda: evl.add_file_handler(os.path.join(scratch, 'h3'), parallel='nope'))
    add('handler: unknown option', lambda: evl.add_dictionary_handler(nope=1))
    add('handler: undefined task', lambda: e.handler.add_task('nope*q', name='bad'))
    add('handler: task of syntax error', lambda: e.handler.add_task('q +', name='bad'))
    add('handler: task at scale zero', lambda: e.handler.add_task(e.q, scales=0, name='bad'))
    add('handler: task in unknown layout', lambda: e.handler.add_task(e.q, layout='nope', name='bad'))
    e.handler.vars.update(bad_u=u, bad_v=v)
    add('handler: task that is ill-typed', lambda: e.handler.add_task('bad_u + bad_v', name='bad'))
    # Flow tools
    add('cfl: scalar velocity', lambda: d3.CFL(e.solver, 0.1).add_velocity(u))
    add('flow property: undefined', lambda: d3.GlobalFlowProperty(e.solver).add_property('nope', name='x'))
    add('flow property: never added', lambda: d3.GlobalFlowProperty(e.solver).max('x'))
    return [r for r in R if r is not None]


def problem(kind, vars, eqs):
    import dedalus.public as d3
    P = getattr(d3, kind)(vars)
    for q in eqs:
        P.add_equation(q)
    P.build_solver().solve()


def fill(dist, b):
    f = dist.Field(bases=b)
    f['g'] = 1
    f['c']
    f['g']
    return f


def h5(path):
    import h5py
    return h5py.File(path, 'r')


def file_without(scratch, close=False):
    import h5py
    p = os.path.join(scratch, 'without.h5')
    with h5py.File(p, 'w') as f:
        f.create_group('tasks')
        s = f.create_group('scales')
        s['sim_time'] = [0.0]
        s['iteration'] = [0]
        s['write_number'] = [1]
        s['timestep'] = [0.1]
        s['wall_time'] = [0.0]
    return p if close else h5py.File(p, 'r')


def timedep_evp(d3, e, ns):
    P = d3.IVP([e.q], namespace=ns, time=e.t)
    P.add_equation('dt(q) + q = t*q*q')
    P.build_EVP()


def solve_with(e, d3, ns, **kw):
    P = d3.LBVP([e.p], namespace=ns)
    P.add_equation('3*p = f')
    P.build_solver(**kw).solve()
