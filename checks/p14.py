"""P14: time steps follow the documented scheme exactly."""
import numpy as np
import probs
import timeref as TR

RULE = ("A case integrates one problem with one scheme and a random history of step sizes (repeats, jumps, returns to earlier sizes), next to an independent statement of the scheme: "
        "in plain arithmetic for ODE/DAE systems, or on dense matrices with separately evaluated right-hand sides for PDEs. "
        "Non-trivial if at least three steps were compared.")
MIN = {'steps': 900, 'dt_changes': 300, 'runs': 80, 'evolves': 15}
BUDGET = {'quick': 240, 'thorough': 2400}
CASE_S = 200


def cases(tier, rng):
    out = []
    schemes = TR.MULTISTEP + TR.RK
    for i in range(2 if tier == 'quick' else 12):
        for s in schemes:
            out.append({'kind': 'ode', 'scheme': s, 'spec': probs.random_spec(rng, 'ode'), 'i': i})
    fams = [f for f in probs.names('ivp') if f != 'ode']
    k = 0
    for i in range(12 if tier == 'quick' else 60):
        for f in fams:
            out.append({'kind': 'pde', 'scheme': schemes[(k*5 + i) % len(schemes)], 'spec': probs.random_spec(rng, f, small=(tier == 'quick') or bool(i % 2)), 'i': i})
            k += 1
    for i in range(3 if tier == 'quick' else 12):
        out.append({'kind': 'evolve', 'spec': probs.random_spec(rng, 'ode'), 'i': i})
    return out


def dts(rng, n, k0):
    """A history of step sizes: constant runs, changes, returns, drifts, small and large jumps."""
    out, seen = [], [k0]
    while len(out) < n:
        r = rng.random()
        if out and rng.random() < 0.2:
            # nearly the last step
            d = float(rng.choice([-1, 1])*10**rng.uniform(-7, -3))
            for j in range(int(rng.integers(1, 5))):
                out.append(float(out[-1]*(1 + d)))
            out = out[:n]
            continue
        if r < 0.35 and out:
            k = out[-1]
        elif r < 0.55:
            k = seen[int(rng.integers(len(seen)))]
        else:
            k = float(k0*rng.choice([0.25, 0.5, 0.9, 1.0, 1.1, 1.7])*(1 + 0.2*rng.random()))
        out.append(k)
        seen.append(k)
    return out


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def options(rng):
    o = {}
    if rng.random() < 0.5:
        o['store_expanded_matrices'] = bool(rng.integers(2))
    if rng.random() < 0.3:
        o['matsolver'] = str(rng.choice(['SuperLUNaturalFactorizedTranspose', 'SuperLUColamdFactorized', 'SparseInverse', 'DenseInverse']))
    return o


def scheme_arg(rng, name):
    import dedalus.public as d3
    cls = getattr(d3, name)
    return name if rng.random() < 0.5 else cls


def run_ode(case, ctx):
    rng = ctx.rng()
    for rep in range(3):
        P = probs.build(dict(case['spec'], seed=int(rng.integers(1 << 30))))
        c = P.consts
        t0 = float(np.round(rng.uniform(-2, 2), 3)) if rng.random() < 0.5 else 0.
        late = rng.random() < 0.3
        if late:
            t0 = float(rng.choice([-1, 1])*rng.integers(1 << 13, 1 << 15))     # steps that are tiny next to the time
        P.ns['t']['g'] = t0
        M = np.array([[1, c['m1'], 0], [0, 1, 0], [0, 0, 0]], dtype=float)
        L = np.array([[c['a1'], c['a2'], c['a3']], [c['a4'], 0.7, 0], [c['a5'], -0.4, 1]])

        def F(X, t):
            u, v, w = X[0][:, 0]
            return [np.array([[c['n1']*u*v + c['n2']*np.sin(3*t)], [c['n3']*np.cos(u)*w + 0.3*t], [0]])]

        x0 = rng.uniform(-1, 1, 3)
        if not P.spec['real']:
            x0 = x0 + 1j*rng.uniform(-1, 1, 3)
        if rng.random() < 0.7:
            x0[2] = -c['a5']*x0[0] + 0.4*x0[1]      # otherwise inconsistent: the scheme still says what happens
        solver = P.ivp().build_solver(scheme_arg(rng, case['scheme']), **options(rng))
        for n, x in zip('uvw', x0):
            P.ns[n]['g'] = x
        if solver.sim_time != t0 or solver.iteration != 0:
            ctx.violation('initial-time', f"time field set to {t0}, the solver starts at sim_time {solver.sim_time}, iteration {solver.iteration}")
        ref = TR.Reference(case['scheme'], [M], [L], F, [x0[:, None]], t0)
        hist = dts(rng, 14, 0.1)
        if late:
            hist = [float(2.**np.round(np.log2(k))) for k in hist]      # (exact times)
        last = None
        for i, k in enumerate(hist):
            solver.step(k)
            ref.step(k)
            ctx.count('steps')
            ctx.count('dt_changes', int(last is not None and k != last))
            last = k
            got = np.array([P.ns[n]['g'].ravel()[0] for n in 'uvw'])
            sc = max(1., np.max(np.abs(ref.X[0])))
            if not np.isfinite(sc) or sc > 1e6:
                break
            ctx.state(case['scheme'], i, np.sign(k - (hist[i-1] if i else k)))
            ctx.close(got, ref.X[0][:, 0], 1e-10*(1 + i), f"ode:{case['scheme']}", f"step {i} of {hist[:i+1]}", scale=sc)
            clock(ctx, solver, P, ref, i)
        ctx.count('runs')


def clock(ctx, solver, P, ref, i):
    if solver.iteration != i+1:
        ctx.violation('iteration', f"iteration {solver.iteration} after {i+1} steps")
    ctx.close(np.array([solver.sim_time, np.real(P.ns['t']['g'].ravel()[0]) if P.ns['t']['g'].size else solver.sim_time]), np.array([ref.t, ref.t]), 1e-12, 'sim-time', f"step {i}", scale=max(1, abs(ref.t)))


def pde_reference(case, P2, solver2):
    """Dense blocks and separately evaluated right-hand sides from a twin."""
    sps = [sp for sp in solver2.subproblems if sp.size]
    M = [sp.M_min.toarray() for sp in sps]
    L = [sp.L_min.toarray() for sp in sps]
    state = solver2.state

    def put(X):
        for f in state:
            f.preset_scales(1)
            f['c'] = 0
        for sp, x in zip(sps, X):
            full = sp.pre_right @ x
            for j, ss in enumerate(sp.subsystems):
                ss.scatter(full[:, j], state)

    def F(X, t):
        put(X)
        P2.ns['t']['g'] = t
        rhs = []
        for eq in solver2.problem.eqs:
            f = eq['F'].evaluate() if hasattr(eq['F'], 'evaluate') else eq['F']
            f = f.copy()
            f.change_scales(1)
            f['c']
            rhs.append(f)
        out = []
        for sp in sps:
            cols = [np.concatenate([f['c'][ss.field_slices(f)].ravel() for f in rhs]) for ss in sp.subsystems]
            out.append(sp.pre_left @ np.array(cols).T)
        return out

    def get():
        X = []
        for f in state:
            f.change_scales(1)
            f['c']
        for sp in sps:
            cols = [np.concatenate([f['c'][ss.field_slices(f)].ravel() for f in state]) for ss in sp.subsystems]
            X.append(sp.pre_right_pinv @ np.array(cols).T)
        return X

    return M, L, F, put, get


def run_pde(case, ctx):
    rng = ctx.rng()
    P, P2 = probs.build(case['spec']), probs.build(case['spec'])
    opts = options(rng)
    kw = dict(P.solver_kw, **opts)
    solver = P.ivp().build_solver(scheme_arg(rng, case['scheme']), enforce_real_cadence=[1, 3, 100, None][int(rng.integers(4))], **kw)
    solver2 = P2.ivp().build_solver('SBDF1', **P.solver_kw)
    for p in (P, P2):
        p.set_initial()
    M, L, F, put, get = pde_reference(case, P2, solver2)
    ref = TR.Reference(case['scheme'], M, L, F, get())
    hist = dts(rng, 9, 0.01)
    last = None
    for i, k in enumerate(hist):
        solver.step(k)
        ref.step(k)
        put(ref.X)
        ctx.count('steps')
        ctx.count('dt_changes', int(last is not None and k != last))
        last = k
        worst = max(np.max(np.abs(f['c'])) if f['c'].size else 0 for f in P2.vars)
        if not np.isfinite(worst) or worst > 1e4:
            break
        for f, f2 in zip(P.vars, P2.vars):
            f2.change_scales(1)
            f.change_scales(1)
            sc = max(np.max(np.abs(f2['c'])) if f2['c'].size else 0, 1e-2*min(worst, 1) if not f.name.startswith('tau') else worst)
            # products truncated before or after a change of radial basis differ in annuli and shells
            tol = 1e-8
            if case['spec']['fam'] in ('annheat', 'shellconv'):
                tol = 1e-2 if f.name.startswith('tau') else 1e-4
            ctx.close(f['c'], f2['c'], tol, f"pde:{case['scheme']}", f"{case['spec']['fam']}: {f.name} at step {i} of {hist[:i+1]} with {opts}", scale=max(sc, 1e-6))
        ctx.state(case['scheme'], case['spec']['fam'], i)
        clock(ctx, solver, P, ref, i)
    ctx.count('runs')


def run_evolve(case, ctx):
    """Stopping criteria, counters and rejected steps."""
    rng = ctx.rng()
    for rep in range(6):
        P = probs.build(case['spec'])
        solver = P.ivp().build_solver(str(rng.choice(TR.MULTISTEP + TR.RK)))
        P.set_initial(0.1)
        ks = dts(rng, 60, 0.02)
        calls = []

        def next_dt():
            calls.append((solver.iteration, solver.sim_time))
            return ks[len(calls)-1]

        if rep == 0:
            try:
                solver.evolve(next_dt)
                ctx.violation('evolve-unbounded', 'evolve started without a stopping criterion')
            except ValueError:
                pass
            if calls:
                ctx.violation('evolve-unbounded', 'a step was requested without a stopping criterion')
        for bad in (np.nan, np.inf, -np.inf):
            it, st = solver.iteration, solver.sim_time
            try:
                solver.step(bad)
                ctx.violation('bad-dt', f"a step of {bad} was accepted")
            except ValueError:
                pass
            if (solver.iteration, solver.sim_time) != (it, st):
                ctx.violation('bad-dt', f"a rejected step of {bad} moved the clock")
        n_stop = int(rng.integers(0, 30)) if rng.random() < 0.7 else np.inf
        t_stop = float(rng.uniform(0, 0.6)) if rng.random() < 0.7 or n_stop == np.inf else np.inf
        if rng.random() < 0.3 and t_stop < np.inf:
            t_stop = float(np.sum(ks[:int(rng.integers(1, 20))]))    # on a step boundary to rounding
        exact = rng.random() < 0.4
        if exact:
            # steps whose sums carry no rounding, so that the time is reached exactly
            ks = [float(k) for k in rng.choice([1/64, 1/32, 1/128], len(ks))]
            if t_stop < np.inf:
                t_stop = float(np.sum(ks[:int(rng.integers(1, 20))]))
        solver.stop_iteration, solver.stop_sim_time = n_stop, t_stop
        solver.stop_wall_time = np.inf if rng.random() < 0.8 else 1e6
        solver.evolve(next_dt)
        t, n, times = 0., 0, [(0, 0.)]
        while t < t_stop and n < n_stop:
            t, n = t + ks[n], n + 1
            times.append((n, t))
        ctx.count('evolves')
        ctx.count('steps', n)
        near = not exact and min(abs(t_stop - x[1]) for x in times) < 1e-12
        if solver.iteration != n and not (near and abs(solver.iteration - n) <= 1):
            ctx.violation('evolve-stop', f"stopped at iteration {solver.iteration}, time {solver.sim_time}; the criteria ({n_stop} iterations, time {t_stop}) are first met at {n}, {t}")
        if len(calls) != solver.iteration:
            ctx.violation('evolve-steps', f"{len(calls)} step sizes requested for {solver.iteration} iterations")
        ctx.close(np.array([x[1] for x in calls]), np.array([x[1] for x in times[:len(calls)]]), 1e-12, 'evolve-clock', 'clock seen by the step function')
        if rep == 1:
            solver.stop_iteration = np.inf
            solver.stop_sim_time = np.inf
            solver.stop_wall_time = 0
            if solver.proceed:
                ctx.violation('wall-stop', 'proceeds past the wall stop time')
