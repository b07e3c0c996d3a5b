"""P16: output schedules fire exactly when due."""
import numpy as np
import geoms as G

RULE = ("A case runs one initial value problem with several scheduled handlers (cadences in iterations, simulation time, wall time on a virtual clock, custom conditions and combinations; dictionary, file and user-defined handlers) under a random sequence of "
        "step sizes, clock jumps, forced evaluations, handlers added on the way and restarts; the recorded firings are compared with an offline reference built from the definitions. Boundary-value solvers and several processes with skewed clocks are included. "
        "Non-trivial if some handler fired and some iteration was skipped.")
MIN = {'firings': 3000, 'schedules': 300, 'iterations': 4000, 'wall': 40, 'sim': 100, 'restarts': 10, 'mpi_runs': 2}
BUDGET = {'quick': 200, 'thorough': 1800}
CASE_S = 250
SCHEMES = ['SBDF1', 'SBDF2', 'SBDF3', 'CNAB2', 'MCNAB2', 'RK111', 'RK222', 'RK443', 'RKSMR', 'RKGFY']


def cases(tier, rng):
    out = [{'kind': 'ivp', 'i': i} for i in range(90 if tier == 'quick' else 1500)]
    out += [{'kind': 'bvp', 'i': i} for i in range(8 if tier == 'quick' else 60)]
    out += [{'kind': 'mpi', 'i': i} for i in range(3 if tier == 'quick' else 30)]
    return out


class Clock:
    """Stand-in for the time module of the solvers."""

    def __init__(self, now):
        self.now = now

    def time(self):
        return self.now

    def __getattr__(self, name):
        import time
        return getattr(time, name)


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def plan(rng, n):
    """Random handlers, steps, clock increments."""
    base = float(10**rng.uniform(-2, 0))
    style = str(rng.choice(['constant', 'random', 'jumpy', 'shrinking', 'binary']))
    if style == 'constant':
        dts = [base]*n
    elif style == 'random':
        dts = list(base*rng.uniform(0.3, 1.7, n))
    elif style == 'jumpy':
        dts = list(base*10**rng.uniform(-1.5, 0.7, n))
    elif style == 'binary':
        dts = list(rng.choice([base, base/2, base/4], n))
    else:
        dts = list(base*0.95**np.arange(n))
    T = sum(dts)
    t0 = float(rng.choice([0, 0, 0, 3.7, 0.5*base, 123.4, -2.3]))
    hs = []
    for k in range(int(rng.integers(3, 8))):
        h = {}
        what = rng.integers(6)
        if what in (0, 4):
            h['iter'] = int(rng.choice([1, 2, 3, 5, 7, 50]))
        if what in (1, 4, 5):
            h['sim_dt'] = float(rng.choice([base, 2*base, 0.5*base, base*np.pi, T/3, T/7, base*10, 0.1, 0.25]))
        if what in (2, 5):
            h['wall_dt'] = float(rng.choice([0.5, 1, 3.3, 10, 60]))
        if what == 3:
            h['custom'] = str(rng.choice(['late', 'odd', 'never', 'wall', 'big']))
        if what == 0 and rng.random() < 0.2:
            h = {}          # never scheduled
        h['at'] = 0 if rng.random() < 0.75 else int(rng.integers(n//2))
        h['type'] = str(rng.choice(['dict', 'user', 'file', 'dict']))
        hs.append(h)
    return dict(dts=[float(x) for x in dts], t0=t0, i0=int(rng.choice([0, 0, 0, 12, 101])), handlers=hs, scheme=str(rng.choice(SCHEMES)), clock=[float(x) for x in 10**rng.uniform(-3, 1.2, n+1)], style=style)


CUSTOM = {
    'late': lambda iteration, wall_time, sim_time, timestep: iteration % 4 == 3 and iteration > 6,
    'odd': lambda iteration, wall_time, sim_time, timestep: iteration % 2,
    'never': lambda **kw: False,
    'wall': lambda **kw: int(kw['wall_time']) % 3 == 0,
    'big': lambda **kw: kw['timestep'] > 0.1 or np.sin(7*kw['sim_time']) > 0.9,
}


def expected(h, rows):
    """Rows (iteration, wall, t, dt) at which a handler present for all of them is due."""
    due = set()
    if h.get('iter'):
        n = h['iter']
        for i, r in enumerate(rows):
            if i == 0 or r[0]//n != rows[i-1][0]//n:
                due.add(i)
    if h.get('wall_dt'):
        n = h['wall_dt']
        for i, r in enumerate(rows):
            if i == 0 or r[1]//n > rows[i-1][1]//n:
                due.add(i)
    if h.get('sim_dt'):
        s = h['sim_dt']
        t = np.array([r[2] for r in rows] + [rows[-1][2] + rows[-1][3]])
        k = np.round(t/s)
        frac = np.abs(t/s - np.floor(t/s) - 0.5)
        for q in np.unique(k):
            d = np.abs(t - q*s)
            i = int(np.argmin(d))
            o = np.sort(d)
            if k[i] != q or (len(o) > 1 and o[1] - o[0] < 1e-9*s) or frac[i] < 1e-9:
                # exactly half-way between two instants: either is acceptable
                if k[i] == q or frac[i] < 1e-9:
                    for j in np.where(d - o[0] < 1e-9*s)[0]:
                        if j < len(rows):
                            due.add(('maybe', int(j)))
                continue
            if i < len(rows):
                due.add(i)
    if h.get('custom'):
        for i, r in enumerate(rows):
            if CUSTOM[h['custom']](iteration=r[0], wall_time=r[1], sim_time=r[2], timestep=r[3]):
                due.add(i)
    return due


def execute(P, comm, outdir, skew=0.0):
    """Run a plan; returns rows and firings (per handler)."""
    import dedalus.public as d3
    import dedalus.core.solvers as S
    from dedalus.core.evaluator import Handler
    clock = Clock(1000.0 + skew)
    S.time = clock
    cs = d3.CartesianCoordinates('x', 'z')
    dist = d3.Distributor(cs, dtype=np.float64, comm=comm)
    if comm.size > 1:
        xb = d3.RealFourier(cs['x'], size=8, bounds=(0, 1))
        zb = d3.RealFourier(cs['z'], size=8, bounds=(0, 1))
        u = dist.Field(name='u', bases=(xb, zb))
    else:
        u = dist.Field(name='u')
    u['g'] = 1
    p = d3.IVP([u], namespace={'u': u})
    p.add_equation("dt(u) + 0.1*u = 0.3*u*u")
    solver = p.build_solver(P['scheme'])
    solver.sim_time = solver.initial_sim_time = P['t0']
    solver.iteration = solver.initial_iteration = P['i0']
    fired = [[] for _ in P['handlers']]
    values = [[] for _ in P['handlers']]
    objs = {}

    class User(Handler):
        def process(self, **kw):
            pass

    def add(k):
        h = P['handlers'][k]
        kw = {a: h[a] for a in ('iter', 'sim_dt', 'wall_dt') if a in h}
        if 'custom' in h:
            kw['custom_schedule'] = CUSTOM[h['custom']]
        ev = solver.evaluator
        if h['type'] == 'dict':
            o = ev.add_dictionary_handler(**kw)
        elif h['type'] == 'user':
            o = ev.add_handler(User(dist, {}, **kw))
        else:
            o = ev.add_file_handler(f"{outdir}/h{k}", **kw)
        o.add_task(1*u, name='u', layout='g')
        inner = o.process

        def process(**kw):
            fired[k].append((kw['iteration'], kw['wall_time'], kw['sim_time'], kw['timestep']))
            inner(**kw)
            out = o.tasks[0]['out']
            out.change_layout('g')
            values[k].append(float(out['g'].ravel()[0]) if out['g'].size else None)
        o.process = process
        objs[k] = o
    rows, us, forced = [], [], []
    fired_counts = []
    for n, dt in enumerate(P['dts']):
        clock.now += P['clock'][n]
        for k, h in enumerate(P['handlers']):
            if h['at'] == n:
                add(k)
        if n in P.get('force', {}):
            ks = [k for k in P['force'][n] if k in objs]
            before = [len(f) for f in fired]
            solver.evaluate_handlers([objs[k] for k in ks], dt=0.0)
            forced.append((n, ks, [len(f)-b for f, b in zip(fired, before)]))
            for k in ks:
                fired[k].pop(), values[k].pop()
        rows.append((int(solver.iteration), float(solver.wall_time), float(solver.sim_time), dt))
        u.change_scales(1)
        us.append(float(u['g'].ravel()[0]) if u['g'].size else None)
        solver.step(dt)
    return rows, fired, values, us, forced


def verify(P, rows, fired, values, us, forced, ctx, who=''):
    for n, ks, got in forced:
        ctx.count('forced')
        want = [1 if k in ks else 0 for k in range(len(P['handlers']))]
        if got != want:
            ctx.violation('forced', f"forced evaluation of handlers {ks} at step {n} ran {got}")
    for i in range(1, len(rows)):
        if rows[i][0] != rows[i-1][0] + 1 or abs(rows[i][2] - rows[i-1][2] - rows[i-1][3]) > 1e-12*max(1, abs(rows[i][2])):
            ctx.violation('clock', f"iteration and time go from {rows[i-1]} to {rows[i]}")
    ctx.count('iterations', len(rows))
    for k, h in enumerate(P['handlers']):
        mine = rows[h['at']:]
        due = expected(h, mine)
        maybe = {x[1] for x in due if isinstance(x, tuple)}
        sure = {x for x in due if not isinstance(x, tuple)}
        index = {r[0]: i for i, r in enumerate(mine)}
        got = [index.get(f[0]) for f in fired[k]]
        ctx.count('schedules'), ctx.count('firings', len(got)), ctx.count('comparisons', len(mine))
        for c in ('iter', 'sim_dt', 'wall_dt', 'custom'):
            if c in h:
                ctx.count({'sim_dt': 'sim', 'wall_dt': 'wall'}.get(c, c))
        ctx.state(P['style'], h['type'], *[c for c in ('iter', 'sim_dt', 'wall_dt', 'custom') if c in h])
        desc = {a: b for a, b in h.items() if a not in ('type',)}
        if len(set(got)) != len(got):
            ctx.violation('twice', f"{who}handler {desc} written twice for one iteration: {fired[k][:10]}")
        missing = sorted(sure - set(got))
        extra = sorted(set(got) - sure - maybe)
        if missing or extra:
            kinds = '+'.join(c for c in ('iter', 'sim_dt', 'wall_dt', 'custom') if c in h) or 'none'
            ctx.violation(f"schedule:{kinds}", f"{who}handler {desc} ({h['type']}), starting at t={mine[0][2]:.6g}, iteration {mine[0][0]}: not written at {[mine[i] for i in missing][:4]}, written without being due at {[mine[i] for i in extra][:4]} (rows are iteration, wall time, time, step)")
        for f, v in zip(fired[k], values[k]):
            i = index.get(f[0])
            if i is None:
                continue
            r = mine[i]
            if abs(f[2] - r[2]) > 1e-12*max(1, abs(r[2])) or f[3] != r[3] or abs(f[1] - r[1]) > 1e-9:
                ctx.violation('metadata', f"{who}handler {desc} given (iteration, wall, time, step) {f}, the step had {r}")
            w = us[h['at'] + i]
            if v is not None and w is not None and abs(v - w) > 1e-12*abs(w):
                ctx.violation('data', f"{who}handler {desc} wrote {v} at iteration {f[0]}, the state was {w}")


def run_ivp(case, ctx):
    from mpi4py import MPI
    rng = ctx.rng()
    n = int(rng.integers(30, 90))
    P = plan(rng, n)
    if rng.random() < 0.5:
        P['force'] = {int(rng.integers(n)): [int(k) for k in rng.permutation(len(P['handlers']))[:2]] for _ in range(2)}
    if P['i0'] or P['t0']:
        ctx.count('restarts')
    res = execute(P, MPI.COMM_SELF, ctx.scratch)
    verify(P, *res, ctx)


def ranks(comm, P, outdir):
    return execute(P, comm, outdir, skew=0.7*comm.rank*(1 if comm.rank % 2 else -1))


def run_mpi(case, ctx):
    rng = ctx.rng()
    P = plan(rng, 40)
    for h in P['handlers']:
        if 'wall_dt' not in h and rng.random() < 0.5:
            h['wall_dt'] = 3.3
    import os
    n = int(rng.integers(2, 5))
    out = ctx.mpirun(n, 'ranks', P, timeout=120, hang='ranks disagree on a schedule')
    if out is None:
        return
    rows0, fired0 = out[0][0], out[0][1]
    for r, (rows, fired, values, us, forced) in enumerate(out):
        if [[f[0] for f in fs] for fs in fired] != [[f[0] for f in fs] for fs in fired0]:
            ctx.violation('ranks', f"rank {r} writes at other iterations than rank 0")
        verify(P, rows, fired, values, us, forced, ctx, who=f"rank {r} of {n}: ")


def run_bvp(case, ctx):
    """Linear and nonlinear boundary-value solvers count solves and Newton iterations."""
    import dedalus.public as d3
    rng = ctx.rng()
    x = d3.Coordinate('x')
    dist = d3.Distributor(x, dtype=np.float64)
    u, f = dist.Field(name='u'), dist.Field(name='f')
    nl = bool(case['i'] % 2)
    f['g'] = 2
    u['g'] = 1
    p = (d3.NLBVP if nl else d3.LBVP)([u], namespace={'u': u, 'f': f})
    p.add_equation("2*u = f - 0.1*u*u" if nl else "2*u = f")
    solver = p.build_solver()
    hs, fired = [], []
    for k in range(4):
        n = int(rng.choice([1, 2, 3, 5]))
        c = bool(rng.integers(2))
        kw = dict(custom_schedule=lambda iteration, n=n: iteration % n == n-1) if c else dict(iter=n)
        h = solver.evaluator.add_dictionary_handler(**kw)
        h.add_task(u*f, name='uf')
        got = []
        h.process = (lambda inner, got, h: lambda **kw: (got.append((kw['iteration'], float(np.ravel(h.tasks[0]['out']['g'])[0]))), inner(**kw)))(h.process, got, h)
        hs.append((n, c, h)), fired.append(got)
    want = [[] for _ in hs]
    for it in range(14):
        f['g'] = val = float(np.round(rng.uniform(1, 3), 3))
        before = float(u['g'].ravel()[0])*val
        for k, (n, c, h) in enumerate(hs):
            if (it % n == n-1) if c else (it % n == 0):
                want[k].append((it, before))
        if nl:
            solver.newton_iteration()
        else:
            solver.solve()
            if abs(u['g'].ravel()[0] - val/2) > 1e-12:
                ctx.violation('stale-solve', f"solve number {it+1} returned {u['g'].ravel()[0]} for forcing {val}")
        ctx.count('iterations')
        if solver.iteration != it + 1:
            ctx.violation('iteration', f"iteration counter {solver.iteration} after {it+1} solves")
    for w, g, (n, c, h) in zip(want, fired, hs):
        ctx.count('schedules'), ctx.count('firings', len(g)), ctx.count('comparisons', 14)
        if [x[0] for x in w] != [x[0] for x in g]:
            ctx.violation('schedule:bvp', f"handler every {n} ({'custom' if c else 'iter'}) written at {[x[0] for x in g]}, due at {[x[0] for x in w]}")
        elif any(abs(a[1] - b[1]) > 1e-12 for a, b in zip(w, g)):
            ctx.violation('data:bvp', f"handler every {n} was given {g}, the states had {w}")
        elif g and abs(h['uf']['g'].ravel()[0] - g[-1][1]) > 1e-12:
            ctx.violation('data:bvp', "stored result is not the evaluated one")
    ctx.state('bvp', nl)
