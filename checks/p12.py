"""P12: nonlinear solves are exact Newton iterations that reach true solutions."""
import numpy as np
import geoms as G

RULE = ("A case builds one random nonlinear boundary-value problem (intervals, periodic domains, coupled two-dimensional domains, radial disk/annulus/ball/shell problems, vector and algebraic systems; nonlinear terms on either side and in the conditions; "
        "forced so that a chosen function solves it), then iterates with random damping, interventions and re-solves. At each step the correction is put into centred differences of the independently evaluated equations, and the state update and counters are checked. "
        "Non-trivial if at least one Newton step was checked.")
MIN = {'steps': 400, 'converged': 60, 'damped': 100, 'linear': 10, 'interventions': 40}
BUDGET = {'quick': 240, 'thorough': 2400}
CASE_S = 200

KINDS = ['cheb', 'cheb', 'jacobi', 'fourier', 'plane', 'periodic2', 'disk', 'annulus', 'ball', 'shell', 'algebra', 'vector', 'const']


def cases(tier, rng):
    out = []
    for i in range(8 if tier == 'quick' else 100):
        for k in KINDS:
            out.append({'kind': k, 'real': bool(rng.integers(2)), 'linear': bool(i % 7 == 3), 'i': i})
    return out


class System:
    def __init__(self):
        self.vars, self.eqs, self.ns, self.star = [], [], {}, {}


def terms(rng, u, v, du, linear, dom):
    """Random nonlinear pointwise terms in u and v, with derivatives du (texts)."""
    if linear:
        return []
    c = lambda: f"{np.round(rng.uniform(-0.6, 0.6), 3)}"
    pool = [f"{u}**2", f"{u}*{v}", f"{u}**3", f"sin({u})", f"exp({u})*0.3", f"{u}*{du}", f"{v}*{u}**2", f"cos({v})*{u}", f"{du}**2", f"tanh({u})", f"sqrt(4 + {u}**2)"]
    return [f"{c()}*{t}" for t in G.sample(rng, pool, int(rng.integers(1, 4)))] if hasattr(G, 'sample') else [f"{c()}*{pool[k]}" for k in rng.permutation(len(pool))[:int(rng.integers(1, 4))]]


def split(rng, ts):
    """Spread signed terms over the two sides."""
    L = [t for t in ts if rng.random() < 0.5]
    return L, [t for t in ts if t not in L]


def build(case, rng):
    import dedalus.public as d3
    S = System()
    k, real, linear = case['kind'], case['real'], case['linear']
    dt = np.float64 if real else np.complex128
    S.dt = dt
    ns = S.ns
    ns.update({n: getattr(np, n) for n in ('sin', 'cos', 'exp', 'tanh', 'sqrt')})
    ns.update(lap=d3.lap, grad=d3.grad, div=d3.div, integ=d3.integ, dot=d3.dot, trace=d3.trace)
    U = lambda a=-0.5, b=0.5: float(np.round(rng.uniform(a, b), 3))
    S.kw = {}
    S.tol = 1e-4

    def var(name, b=None, cs=None):
        f = dist.VectorField(cs, name=name, bases=b) if cs is not None else dist.Field(name=name, bases=b)
        S.vars.append(f)
        ns[name] = f
        return f

    def forcing(name, b, cs=None):
        f = dist.VectorField(cs, name=name, bases=b) if cs is not None else dist.Field(name=name, bases=b)
        ns[name] = f
        return name

    def add(lin, non, f):
        """lin + non = f, spread over the sides."""
        L, R = split(rng, non)
        lhs = lin + ''.join(' + ' + t for t in L)
        rhs = f + ''.join(' - ' + t for t in R)
        S.eqs.append((lhs, rhs, f))
    if k in ('cheb', 'jacobi'):
        x = d3.Coordinate('x')
        S.dist = dist = d3.Distributor(x, dtype=dt)
        ax = G.random_axis(rng, real, kind='ChebT' if k == 'cheb' else G.pick(rng, ['ChebU', 'Leg', 'Ultra', 'Jac']))
        ax['N'], ax['dealias'] = 32, 2
        if ax.get('library'):
            ax.pop('library')
        xb = G.make_axis(d3, x, ax, dt)
        a, b = [float(v) for v in xb.bounds]
        u, v = var('u', xb), var('v', xb)
        for n in ('t1', 't2'):
            var(n)
        ns.update(dx=lambda A: d3.Differentiate(A, x), lift=lambda A, n: d3.Lift(A, xb.derivative_basis(2), n), lift1=lambda A: d3.Lift(A, xb.derivative_basis(1), -1))
        add("dx(dx(u)) + lift(t1,-1) + lift(t2,-2)", terms(rng, 'u', 'v', 'dx(u)', linear, 1), forcing('f1', xb))
        if rng.random() < 0.5:
            add(f"v + {U()}*u", terms(rng, 'u', 'v', 'dx(u)', linear, 1)[:1], forcing('f2', xb))
        else:
            var('t3')
            add("dx(v) + 0.2*u + lift1(t3)", terms(rng, 'v', 'u', 'u', linear, 1)[:2], forcing('f2', xb))
            add(f"v(x={a})", [] if linear or rng.random() < 0.5 else [f"{U()}*v(x={a})*u(x={b})"], forcing('g3', None))
        add(f"u(x={a})", [] if linear or rng.random() < 0.5 else [f"{U()}*u(x={a})**2"], forcing('g1', None))
        add(f"u(x={b}) + {U(0, .5)}*dx(u)(x={b})", [] if linear or rng.random() < 0.5 else [f"{U()}*u(x={b})**3", f"{U()}*sin(v(x={a}))"], forcing('g2', None))
        s = lambda: [U(), U(), U()]
        S.star = {'u': (lambda c: lambda x: c[0] + c[1]*np.sin(1.3*(x-a)/(b-a)) + c[2]*((x-a)/(b-a))**2)(s()), 'v': (lambda c: lambda x: c[0] + c[1]*np.cos((x-a)/(b-a)) + c[2]*((x-a)/(b-a))**3)(s())}
    elif k in ('fourier', 'periodic2'):
        D = 1 if k == 'fourier' else 2
        cs = d3.CartesianCoordinates(*'xz'[:D])
        S.dist = dist = d3.Distributor(cs, dtype=dt)
        F = d3.RealFourier if real else d3.ComplexFourier
        bs = tuple(F(c, size=24 if D == 1 else 10, bounds=(0.2, 0.2+2*np.pi), dealias=2) for c in cs.coords)
        S.kw['matrix_coupling'] = [True]*D
        u, v = var('u', bs), var('v', bs)
        ns.update(dx=lambda A: d3.Differentiate(A, cs['x']))
        add("lap(u) - 2*u", terms(rng, 'u', 'v', 'dx(u)', linear, D)[:2 if D == 2 else 3], forcing('f1', bs))
        add(f"v + {U()}*u", terms(rng, 'u', 'v', 'dx(u)', linear, D)[:1], forcing('f2', bs))
        a = 0.25 if D == 1 else 0.1
        c = [U(-a, a) for _ in range(6)]
        if D == 1:
            S.star = {'u': lambda x: c[0] + c[1]*np.sin(x) + c[2]*np.cos(2*x), 'v': lambda x: c[3] + c[4]*np.cos(x)}
        else:
            S.tol = 3e-2
            S.star = {'u': lambda x, z: c[0] + c[1]*np.sin(x) + c[2]*np.cos(x+z), 'v': lambda x, z: c[3] + c[4]*np.cos(z) + 0*x}
    elif k == 'plane':
        cs = d3.CartesianCoordinates('x', 'z')
        S.dist = dist = d3.Distributor(cs, dtype=dt)
        F = d3.RealFourier if real else d3.ComplexFourier
        bs = (F(cs['x'], size=8, bounds=(0, 2*np.pi), dealias=2), d3.ChebyshevT(cs['z'], size=12, bounds=(0, 1.5), dealias=2))
        S.kw['matrix_coupling'] = [True, True]
        u, v = var('u', bs), var('v', bs)
        var('t1', bs[0]), var('t2', bs[0])
        ns.update(dx=lambda A: d3.Differentiate(A, cs['x']), dz=lambda A: d3.Differentiate(A, cs['z']), lift=lambda A, n: d3.Lift(A, bs[1].derivative_basis(2), n))
        add("lap(u) + lift(t1,-1) + lift(t2,-2)", terms(rng, 'u', 'v', 'dz(u)', linear, 2)[:2], forcing('f1', bs))
        add(f"v + {U()}*u", terms(rng, 'u', 'v', 'dx(u)', linear, 2)[:1], forcing('f2', bs))
        add("u(z=0)", [], forcing('g1', bs[0]))
        add("u(z=1.5)", [] if linear or rng.random() < 0.5 else [f"{U()}*u(z=1.5)*v(z=0)"], forcing('g2', bs[0]))
        c = [U(-0.15, 0.15) for _ in range(6)]
        S.tol = 3e-2
        S.star = {'u': lambda x, z: c[0] + c[1]*z*np.sin(x) + c[2]*z**2, 'v': lambda x, z: c[3] + c[4]*np.cos(x)*(1-z) + c[5]*z**2}
    elif k in ('disk', 'annulus', 'ball', 'shell', 'const'):
        if k == 'const':
            k = 'ballv'
        sph = k in ('ball', 'shell', 'ballv')
        cs = d3.SphericalCoordinates('phi', 'theta', 'r') if sph else d3.PolarCoordinates('phi', 'r')
        S.dist = dist = d3.Distributor(cs, dtype=dt)
        n0 = (1, 1) if sph else (1,)
        R = float(np.round(rng.uniform(0.8, 1.5), 2))
        kw = dict(dtype=dt, dealias=(1,)*len(n0) + (2,))
        if k == 'disk':
            B = d3.DiskBasis(cs, shape=n0+(16,), radius=R, **kw)
        elif k in ('ball', 'ballv'):
            B = d3.BallBasis(cs, shape=n0+(16,), radius=R, **kw)
        else:
            R0 = R
            R = R + 0.8
            B = (d3.ShellBasis if sph else d3.AnnulusBasis)(cs, shape=n0+(20,), radii=(R0, R), **kw)
        two = k in ('annulus', 'shell')
        edge = lambda: (B.surface if sph else B.edge) if not two else (B.outer_surface if sph else B.outer_edge)
        ov = k == 'ballv'
        u = var('u', B)
        v = var('v') if ov else var('v', B)      # a constant unknown (eigenvalue-like parameter) closed by a scalar constraint
        var('t1', edge())
        if two:
            var('t2', edge())
        LB = B.derivative_basis(2) if two else B
        ns.update(lift=lambda A, n: d3.Lift(A, LB, n), R=R)
        add("lap(u) + lift(t1,-1)" + (" + lift(t2,-2)" if two else ""), terms(rng, 'u', 'v', '1', linear, 1)[:2 if k != 'ballv' else 3], forcing('f1', B))
        if ov:
            add(f"v + {U()}*integ(u)", [] if linear else [f"{U()}*integ(u**2)"], forcing('f2', None))
        else:
            add(f"v + {U()}*u", terms(rng, 'u', 'v', '1', linear, 1)[:1], forcing('f2', B))
        add(f"u(r={R})", [], forcing('g1', edge()))       # (nonlinear conditions on edges would couple azimuthal modes)
        if two:
            add(f"u(r={R0})", [], forcing('g2', B.inner_surface if sph else B.inner_edge))
        c = [U(-0.4, 0.4) for _ in range(4)]
        r_ = lambda *g: g[-1] + 0*sum(g[:-1])
        S.star = {'u': lambda *g: c[0] + c[1]*r_(*g)**2, 'v': (lambda: c[2]) if ov else (lambda *g: c[2] + c[3]*r_(*g)**2)}
        if two:
            S.tol = 1e-3
    elif k == 'algebra':
        cs = d3.CartesianCoordinates('x', 'z')
        S.dist = dist = d3.Distributor(cs, dtype=dt)
        vs = [var(n) for n in 'uvw']
        w2 = var('q', None, cs)
        for i, n in enumerate('uvw'):
            o = 'uvw'.replace(n, '')
            add(f"{n} + {U()}*{o[0]} + {U()}*{o[1]}", terms(rng, n, o[0], o[1], linear, 0), forcing('f'+n, None))
        add(f"q", [] if linear else [f"{U()}*u*q", f"{U()}*dot(q,q)*q"], forcing('fq', None, cs))
        c = [U() for _ in range(5)]
        S.star = {n: (lambda x: lambda: x)(c[i]) for i, n in enumerate('uvw')}
        S.star['q'] = lambda: (c[3], c[4])
    elif k == 'vector':
        cs = d3.CartesianCoordinates('x', 'z')
        S.dist = dist = d3.Distributor(cs, dtype=dt)
        b = d3.ChebyshevT(cs['z'], size=24, bounds=(0, 1), dealias=2)
        u = var('u', b, cs)
        var('p', b)
        var('t1', None, cs), var('t2', None, cs)
        ns.update(dz=lambda A: d3.Differentiate(A, cs['z']), lift=lambda A, n: d3.Lift(A, b.derivative_basis(2), n))
        ez = ns['ez'] = dist.VectorField(cs)
        ez['g'][1] = 1
        non = [] if linear else [t for t in (f"{U()}*dot(u,u)*u", f"{U()}*u*p", f"{U()}*dot(u,ez)*dz(u)", f"{U()}*dot(u,dz(u))*ez", f"{U()}*dot(u,dz(grad(u)))" if False else f"{U()}*p**2*ez") if rng.random() < 0.6]
        add("dz(dz(u)) + lift(t1,-1) + lift(t2,-2)", non, forcing('f1', b, cs))
        add(f"p + {U()}*dot(ez,u)", [] if linear else [f"{U()}*dot(u,u)"], forcing('f2', b))
        add("u(z=0)", [], forcing('g1', None, cs))
        add("u(z=1)", [] if linear or rng.random() < 0.5 else [f"{U()}*dot(u(z=1),ez)*u(z=0)"], forcing('g2', None, cs))
        c = [U() for _ in range(6)]
        S.star = {'u': lambda z: (c[0] + c[1]*np.sin(z), c[2] + c[3]*z**2), 'p': lambda z: c[4] + c[5]*z}
    S.case_kind = k
    return S


def set_fields(S, values, names):
    for n in names:
        f, fn = S.ns[n], values[n]
        f.preset_scales(1)
        g = []
        for b in f.domain.bases:
            g += [S.dist.local_grid(b)] if b.dim == 1 else list(S.dist.local_grids(b))
        d = fn(*g)
        if f.tensorsig:
            for i, x in enumerate(d):
                f['g'][i] = x
        else:
            f['g'] = d


def evaluate(S, text, vals=None):
    """Coefficients of a text, by the operators."""
    e = eval(text, {}, LateNS(S.ns, vals or {}))
    return e


class LateNS(dict):
    def __init__(self, a, b):
        super().__init__(a)
        self.update(b)


def coeffs(e, like):
    f = e.evaluate() if hasattr(e, 'evaluate') else None
    if f is None:
        return e
    f.change_scales(1)
    return f['c'].copy()


def residuals(S):
    """LHS - RHS of each equation, as the fields of the right-hand side's shape."""
    out = []
    for lhs, rhs, f in S.eqs:
        ns = dict(S.ns)
        e = eval(f"({lhs}) - ({rhs})", ns)
        q = e.evaluate()
        q.change_scales(1)
        out.append(q['c'].copy())
    return out


def gather(S, solver, data, F):
    """Collect equation data in the solver's own ordering of valid modes."""
    for f, d in zip(F, data):
        f.preset_layout('c')
        f['c'] = d
    return np.concatenate([sp.gather_outputs(F).ravel() for sp in solver.subproblems])


def run(case, ctx):
    import dedalus.public as d3
    rng = ctx.rng()
    S = build(case, rng)
    names = list(S.star)
    set_fields(S, S.star, names)
    for v in S.vars:
        if v.name.startswith('t'):
            v['g'] = 0
    # Forcing that makes the chosen functions a solution
    for lhs, rhs, f in S.eqs:
        F = S.ns[f]
        F['g'] = 0
    for (lhs, rhs, f), r in zip(S.eqs, [eval(f"({lhs}) - ({rhs})", dict(S.ns)) for lhs, rhs, f in S.eqs]):
        q = r.evaluate()
        q.change_scales(1)
        S.ns[f].change_scales(1)
        S.ns[f]['g'] = q['g']
    star = {v.name: v['c'].copy() for v in S.vars}
    P = d3.NLBVP(S.vars, namespace=S.ns)
    for lhs, rhs, f in S.eqs:
        P.add_equation(f"{lhs} = {rhs}")
        if __import__("os").environ.get("DBG"): print(lhs, '=', rhs)
    solver = P.build_solver(ncc_cutoff=1e-13, **S.kw)
    count = solver.evaluator.add_dictionary_handler(iter=1)
    count.add_task(S.vars[0], name='u', layout='c', scales=1)
    Fcopy = [f.copy() for f in solver.F]
    amp = max(max(np.max(np.abs(x), initial=0) for x in star.values()), 0.1)
    it = 0
    for rnd in range(2 if rng.random() < 0.4 else 1):
        # Initial guess
        close = 0.1*10**(-rng.uniform(0, 2))
        for v in S.vars:
            v.change_scales(1)
            v['c'] = star[v.name]
            if v.name in names:
                w = v.copy()
                w.fill_random('g', seed=int(rng.integers(1 << 30)))
                if w.domain.bases:
                    w.low_pass_filter(scales=0.15 if max(w['c'].shape) >= 20 else 0.3)
                m = np.max(np.abs(w['c']))
                if m > 0:
                    v['c'] += close*amp*w['c']/m
        errs, full = [], 0
        nsteps = 9 if ctx.tier == 'quick' else 12
        for s in range(nsteps):
            damping = float(np.round(rng.uniform(0.3, 1.2), 2)) if s < 3 and rng.random() < 0.5 else 1
            if s == 1 and rng.random() < 0.4:
                # Interventions: layouts, scales, other evaluations, changed state
                ctx.count('interventions')
                for v in S.vars:
                    if v.domain.bases and rng.random() < 0.7:
                        v.change_scales(float(rng.choice([1, 1.5, 2])))
                        v['g']
                (S.vars[0]*2).evaluate()
                if rng.random() < 0.5:
                    S.vars[0]['c'] *= 1.01
                if rng.random() < 0.5:
                    for p in solver.perturbations:
                        p['g'] = 0.3        # (left over junk)
            for v in S.vars:
                v['c']
            old = [v['c'].copy() for v in S.vars]
            R0 = residuals(S)
            if damping == 1:
                solver.newton_iteration() if rng.random() < 0.5 else solver.newton_iteration(damping=1)
            else:
                solver.newton_iteration(damping)
                ctx.count('damped')
            it += 1
            ctx.count('steps')
            if solver.iteration != it:
                ctx.violation('iteration', f"{solver.iteration} iterations counted after {it} steps")
            got = count['u']['c'] if hasattr(count['u'], '__getitem__') else None
            ctx.close(got, old[0], 1e-12, 'handler', 'state given to handlers at the start of the step', scale=amp)
            new = [v['c'].copy() for v in S.vars]
            pert = [p['c'].copy() for p in solver.perturbations]
            size = max(max(np.max(np.abs(o), initial=0) for o in old), max(np.max(np.abs(p), initial=0) for p in pert), 1e-8)
            for v, o, n, p in zip(S.vars, old, new, pert):
                ctx.close(n, o - damping*p, 1e-13, 'update', f"{v.name} after a step with damping {damping}", scale=size)
            # R(X0) = R'(X0).pert by centred differences of the equations themselves
            h = 1e-4/max(1, max(np.max(np.abs(p), initial=0) for p in pert)/amp) * (amp/max(max(np.max(np.abs(p), initial=0) for p in pert), 1e-14) if max(np.max(np.abs(p), initial=0) for p in pert) < amp else 1)
            h = min(h, 1e6)
            side = []
            for sgn in (1, -1):
                for v, o, p in zip(S.vars, old, pert):
                    v.preset_layout('c')
                    v['c'] = o + sgn*h*p
                side.append(residuals(S))
            D = [(a-b)/(2*h) for a, b in zip(*side)]
            for v, n in zip(S.vars, new):
                v['c'] = n
            r0 = gather(S, solver, R0, Fcopy)
            rd = gather(S, solver, D, Fcopy)
            sc = max(np.max(np.abs(r0), initial=0), np.max(np.abs(rd), initial=0), 1e-9*amp)
            err = np.max(np.abs(r0 - rd), initial=0)/sc
            ctx.count('comparisons'), ctx.count('values', r0.size)
            # (rounding of the differences)
            floor = 1e-11*max(1, np.max(np.abs(np.concatenate([x.ravel() for x in side[0]])), initial=0)/sc/h if h else 1)
            tiny = np.max(np.abs(r0), initial=0) < (1e-5 if S.tol > 5e-3 else 1e-6)*amp      # (corrections of the size of rounding)
            if not tiny and not err <= S.tol + floor:
                if __import__('os').environ.get('DBG'):
                    ctx.note = [str(np.round(x, 7)) for x in (r0, rd, r0-rd)]
                    raise RuntimeError('\n'.join(ctx.note))
                ctx.violation(f"newton:{S.case_kind}", f"step {s} (residual {np.max(np.abs(r0)):.2e}): the correction changes the linearized equations by {err:.2e} (relative) from the residual; equations {[(l, r) for l, r, f in S.eqs]}")
                return
            if damping == 1:
                full += 1
            e = max(np.max(np.abs(v['c'] - star[v.name]), initial=0) for v in S.vars if v.name in names)
            r = np.max(np.abs(gather(S, solver, residuals(S), Fcopy)))
            errs.append((e, r, damping, np.max(np.abs(r0), initial=0)))
            ctx.state(S.case_kind, case['real'], case['linear'], s)
            if case['linear'] and damping == 1:
                ctx.count('linear')
                if not r <= 1e-9*max(np.max(np.abs(r0)), amp):
                    ctx.violation('linear', f"a linear problem keeps a residual of {r:.2e} after a full step")
        # Contraction
        ctx.count('values')
        rs = [x[1] for x in errs]
        r0s = [x[3] for x in errs]
        if min(rs) < 1e-4*max(rs[0], 1e-6) or rs[0] < 1e-3:
            if rs[-1] < 1e-8*amp:
                ctx.count('converged')
            for i in range(1, len(rs)):
                if errs[i][2] == 1 and r0s[i] < 1e-4 and rs[i] > 0.3*r0s[i] and rs[i] > 1e-9*amp*max(1, errs[0][1]):
                    if S.tol < 1e-3:
                        ctx.violation('contraction', f"residuals {['%.1e' % x for x in rs]} do not contract quadratically (before steps {['%.1e' % x for x in r0s]}, damping {[x[2] for x in errs]}, {S.eqs})")
                    break
