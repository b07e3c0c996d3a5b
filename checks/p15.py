"""P15: observing the state between steps changes nothing; rewriting it acts exactly as that change of state."""
import numpy as np
import probs
import timeref as TR

RULE = ("A case integrates one problem with one scheme twice with the same random step sizes: one run is left alone, the other is put through random observations between the steps "
        "(reads in every layout and scale, copies, gathers, expressions, dictionary and file handlers, flow properties, CFL, logging, other problems and solvers using the same fields); "
        "the states must agree after every step. Non-trivial if at least one observation and one comparison were made.")
MIN = {'steps': 500, 'observations': 900, 'runs': 60, 'obs:scales': 60, 'obs:layout': 60, 'obs:expr': 60, 'obs:handlers': 30, 'obs:lbvp': 15, 'rewrites': 40, 'interleaved': 20}
BUDGET = {'quick': 240, 'thorough': 2400}
CASE_S = 200


def cases(tier, rng):
    out = []
    schemes = TR.MULTISTEP + TR.RK
    fams = probs.names('ivp')
    k = 0
    for i in range(14 if tier == 'quick' else 50):
        for f in fams:
            out.append({'scheme': schemes[(k*5 + i) % len(schemes)], 'spec': probs.random_spec(rng, f, small=(tier == 'quick') or bool(i % 2)), 'i': i})
            k += 1
    return out


class Observer:
    """Random observations of one solver; none of them is supposed to change its state."""

    def __init__(self, P, solver, rng, ctx):
        self.P, self.solver, self.rng, self.ctx = P, solver, rng, ctx
        self.log = []
        self.nfile = 0
        self.keep = []      # handlers, expressions and solvers that stay alive

    def some(self):
        return self.P.vars[int(self.rng.integers(len(self.P.vars)))]

    def layout(self):
        ls = self.P.dist.layouts
        return ls[int(self.rng.integers(len(ls)))]

    def scale(self):
        return float(self.rng.choice([1, 1.5, 2, 2.5]))

    # every method returns a description
    def o_layout(self):
        f, l = self.some(), self.layout()
        f.change_layout(l)
        return f"{f.name} to layout {l.index}"

    def o_scales(self):
        f, s = self.some(), self.scale()
        f.change_scales(s)
        if self.rng.random() < 0.7:
            f['g']
        return f"{f.name} to scales {s}"

    def o_gather(self):
        f = self.some()
        if self.rng.random() < 0.5:
            f.change_scales(self.scale())
        f.allgather_data(self.layout())
        return f"gather {f.name}"

    def o_copy(self):
        f = self.some()
        h = f.copy()
        h['g'] = 7.
        if self.rng.random() < 0.5:
            h['c']
            self.keep.append(h)
        return f"copy {f.name} and overwrite the copy"

    def expression(self):
        import dedalus.public as d3
        P, rng = self.P, self.rng
        f, h = self.some(), self.some()
        opts = [lambda: 2*f + 1*f, lambda: f*f if not f.tensorsig else f@f, lambda: -f, lambda: np.sin(f) if not f.tensorsig and P.spec['real'] else 3*f]
        full = [v for v in P.vars if not v.name.startswith('tau') and P.spec['fam'] != 'ode']
        if full:
            q = full[int(rng.integers(len(full)))]
            if not q.tensorsig:
                opts += ([lambda: d3.integ(q)] if probs.FAMILIES[P.spec['fam']]['cs'] != 'sphere' else []) + ([lambda: d3.ave(q)] if probs.FAMILIES[P.spec['fam']]['cs'] != 'spherical' else [])
            if P.spec['fam'] not in ('kdv', 'cheb'):
                opts += [lambda: d3.lap(q), lambda: d3.grad(q), lambda: d3.lap(q) + q]
            else:
                opts += [lambda: P.ns['dz'](q), lambda: q*P.ns['dz'](q)]
            opts += [lambda: q**2 if not q.tensorsig else q@q,  lambda: q*q if not q.tensorsig else q@q, lambda: d3.Convert(q, q.domain.bases[0]) if len(q.domain.bases) == 1 else 1*q]
        for M, L, F, c in P.eqs:
            for t in (M, L):
                if t:
                    opts.append(lambda t=t: eval(t, dict(self.solver.problem.namespace)))
        for eq in self.solver.problem.eqs:
            opts.append(lambda eq=eq: eq['F'])
            opts.append(lambda eq=eq: eq['L'])
        return opts[int(rng.integers(len(opts)))]()

    def o_expr(self):
        e = self.expression()
        out = e.evaluate() if hasattr(e, 'evaluate') else e
        if hasattr(out, 'change_layout') and not any(out is v for v in self.P.vars + list(self.P.ns.values())):
            out['g'] if self.rng.random() < 0.5 else out['c']
        if self.rng.random() < 0.3:
            self.keep.append((e, out))
        return f"evaluate {str(e)[:60]}"

    def add_handler(self):
        P, rng, ev = self.P, self.rng, self.solver.evaluator
        kw = [dict(iter=int(rng.integers(1, 4))), dict(sim_dt=float(rng.uniform(0.005, 0.03))), dict(wall_dt=1e-6), dict(group='mine'), dict(custom_schedule=lambda **kw: kw['iteration'] % 2 == 0)][int(rng.integers(5))]
        if rng.random() < 0.5:
            h = ev.add_dictionary_handler(**kw)
            kind = 'dictionary'
        else:
            self.nfile += 1
            h = ev.add_file_handler(f"{self.ctx.scratch}/out{self.nfile}", max_writes=[None, 1, 2][int(rng.integers(3))], **kw)
            kind = 'file'
        names = []
        for j in range(int(rng.integers(1, 4))):
            lay = 'g' if rng.random() < 0.5 else 'c'
            sc = [None, 1, 1.5, 2][int(rng.integers(4))]
            if rng.random() < 0.5:
                v = self.some()
                task = v
                h.add_task(task, layout=lay, scales=sc, name=f"t{j}")
                names.append(v.name)
            else:
                for _ in range(5):
                    e = self.expression()
                    if hasattr(e, 'evaluate') or hasattr(e, 'layout'):
                        h.add_task(e, layout=lay, scales=sc, name=f"t{j}")
                        names.append(str(e)[:40])
                        break
        if kind == 'dictionary' and self.rng.random() < 0.3 and names:
            self.keep.append(h)
        return f"add {kind} handler {list(kw)[0]} {names}"

    def o_handlers(self):
        r, s = self.rng.random(), self.solver
        if r < 0.5 and len(s.evaluator.handlers) < 6:
            return self.add_handler()
        kw = dict(iteration=s.iteration, wall_time=0., sim_time=s.sim_time, timestep=0.01)
        mine = [h for h in s.evaluator.handlers if h.group != 'F']
        if not mine:
            return self.add_handler()
        if r < 0.7:
            s.evaluator.evaluate_handlers(mine, **kw)
            return 'evaluate handlers'
        if r < 0.85:
            s.evaluator.evaluate_group('mine', **kw)
            return 'evaluate group'
        import dedalus
        s.evaluate_handlers(mine, dt=0.01)
        return 'solver.evaluate_handlers'

    def o_overwrite_output(self):
        """Overwriting what a dictionary handler returned is the caller's business."""
        for h in self.solver.evaluator.handlers:
            if hasattr(h, 'fields') and isinstance(h.fields, dict) and h.group != 'F':
                for f in h.fields.values():
                    if not any(f is v for v in self.P.vars):
                        f.data.fill(3.)
                        return 'overwrite handler output'
        return self.o_layout()

    def o_flow(self):
        import dedalus.public as d3
        fl = d3.GlobalFlowProperty(self.solver, cadence=int(self.rng.integers(1, 3)))
        v = self.some()
        fl.add_property(v@v if v.tensorsig else v*v, name='q')
        if len(self.solver.evaluator.handlers) > 8:
            return 'too many handlers'
        self.flows.append(fl)
        return f"flow property of {v.name}"
    flows = ()

    def o_readflow(self):
        if not self.flows:
            self.flows = []
            return self.o_flow()
        for fl in self.flows:
            if fl.properties.last_iter_div >= 0 and self.P.spec['real']:
                fl.max('q'), fl.min('q'), fl.grid_average('q')
        return 'read flow properties'

    def o_cfl(self):
        import dedalus.public as d3
        vec = [v for v in self.P.vars if v.name == 'u' and v.tensorsig]
        if not vec or len(self.solver.evaluator.handlers) > 8 or not self.P.spec['real']:
            return self.o_scales()
        cfl = d3.CFL(self.solver, initial_dt=0.01, cadence=1, safety=0.4)
        cfl.add_velocity(vec[0])
        self.cfls.append(cfl)
        return 'CFL'

    def o_lbvp(self):
        """Another problem with its own solver reads the same fields."""
        import dedalus.public as d3
        P = self.P
        full = [v for v in P.vars if v.domain.bases or P.spec['fam'] == 'ode']
        v = full[int(self.rng.integers(len(full)))]
        w = P.dist.TensorField(v.tensorsig, name='w', bases=v.domain.bases) if v.tensorsig else P.dist.Field(name='w', bases=v.domain.bases)
        pr = d3.LBVP([w], namespace={'w': w, 'v': v})
        pr.add_equation("2*w = v + 0.5*v")
        s = pr.build_solver()
        s.solve()
        if self.rng.random() < 0.5:
            s.solve()
        self.ctx.count('comparisons')
        w.change_scales(1), v.change_scales(1)
        kept = 1.0
        err = np.max(np.abs(w['c'] - 0.75*v['c']), initial=0)
        # modes the other problem does not represent are zero in both
        if err > 1e-9*max(1, np.max(np.abs(v['c']), initial=0)):
            self.ctx.violation('second-solver', f"{P.spec['fam']}: an LBVP reading {v.name} gives an error of {err:.2e} after {self.log[-6:]}")
        return f"second problem on {v.name}"

    def o_rescale_back(self):
        f = self.some()
        f.change_scales(2)
        f['g']
        f.change_scales(1)
        f['c']
        return f"{f.name} refined and back"

    def o_requires(self):
        f = self.some()
        [f.require_grid_space, f.require_coeff_space, lambda: f.require_local(self.P.dist.dim-1)][int(self.rng.integers(3))]()
        return f"{f.name} required"

    def o_log(self):
        s = self.solver
        if self.rng.random() < 0.5:
            try:
                s.log_stats()
            except Exception:
                raise
            return 'log_stats'
        s.proceed
        str(s.problem.equations[0]['L']), repr(self.some())
        return 'proceed and printing'

    def o_time(self):
        t = self.P.ns['t']
        t['g'], t['c'], t.copy()
        return 'read the time field'

    def o_operand(self):
        """Symbolic manipulation of the equations."""
        eq = self.solver.problem.eqs[int(self.rng.integers(len(self.solver.problem.eqs)))]
        v = self.some()
        F = eq['F']
        if hasattr(F, 'frechet_differential'):
            try:
                F.frechet_differential(self.P.vars, self.P.vars)
            except NotImplementedError:
                pass
        return 'symbolic manipulation'

    def act(self):
        names = sorted(n for n in dir(type(self)) if n.startswith('o_'))
        n = names[int(self.rng.integers(len(names)))]
        self.log.append(getattr(self, n)())
        self.ctx.count('observations')
        self.ctx.count('obs:' + n[2:])


def compare(case, ctx, P, P2, what, i, log, scale=None):
    worst = max(np.max(np.abs(f['c'])) if f['c'].size else 0 for f in P2.vars)
    if not np.isfinite(worst) or worst > 1e4:
        return False
    for f, f2 in zip(P.vars, P2.vars):
        f2.change_scales(1)
        g = f.copy()      # the comparison itself must not touch the observed run
        g.change_scales(1)
        sc = max(np.max(np.abs(f2['c'])) if f2['c'].size else 0, 1e-2*min(worst, 1) if not f.name.startswith('tau') else worst)
        tol = 1e-9*(1 + i)
        if case['spec']['fam'] in ('annheat', 'shellconv'):
            tol = 1e-2 if f.name.startswith('tau') else 1e-4
        ctx.close(g['c'], f2['c'], tol, f"{what}", f"{case['spec']['fam']} {case['scheme']}: {f.name} after step {i}; between the steps: {log[-8:]}", scale=max(sc, 1e-6))
    return True


def run(case, ctx):
    rng = ctx.rng()
    P, P2 = probs.build(case['spec']), probs.build(case['spec'])
    opts = {}
    if rng.random() < 0.5:
        opts['store_expanded_matrices'] = bool(rng.integers(2))
    cadence = [1, 3, 100, None][int(rng.integers(4))]
    solver, solver2 = [p.ivp().build_solver(case['scheme'], enforce_real_cadence=cadence, **dict(p.solver_kw, **opts)) for p in (P, P2)]
    for p in (P, P2):
        p.set_initial()
    if case['spec']['fam'] == 'ode':
        for p in (P, P2):
            for n in 'uvw':
                p.ns[n]['g'] = 0.5
    O = Observer(P, solver, np.random.default_rng(rng.integers(1 << 30)), ctx)
    O.flows, O.cfls = [], []
    k0, hist = 0.01, []
    ks = [float(k0*rng.choice([0.5, 1, 1, 1, 1.3])) for _ in range(8)]
    interleave = rng.random() < 0.5
    third = None
    for i, k in enumerate(ks):
        for _ in range(int(rng.integers(1, 4))):
            O.act()
        if rng.random() < 0.25:
            rewrite(case, ctx, rng, P, P2, O)
        if interleave and rng.random() < 0.5:
            # another solver of the same class steps with another step size in between
            if third is None:
                P3 = probs.build(case['spec'])
                third = P3.ivp().build_solver(case['scheme'], **P3.solver_kw)
                P3.set_initial(0.5)
            third.step(0.7*k0)
            ctx.count('interleaved')
        solver.step(k)
        solver2.step(k)
        ctx.count('steps')
        if not compare(case, ctx, P, P2, 'trajectory', i, O.log):
            break
        if (solver.iteration, solver.sim_time) != (solver2.iteration, solver2.sim_time):
            ctx.violation('clock', f"iteration {solver.iteration}, time {solver.sim_time}; the undisturbed run is at {solver2.iteration}, {solver2.sim_time}")
        ctx.state(case['scheme'], case['spec']['fam'], *sorted(set(x.split()[0] for x in O.log[-3:])))
        if ctx.violations:
            break
    ctx.count('runs')


def rewrite(case, ctx, rng, P, P2, O):
    """The same change of state written through different accesses."""
    j = int(rng.integers(len(P.vars)))
    f, f2 = P.vars[j], P2.vars[j]
    if f.name.startswith('tau') or not f['c'].size:
        return
    a = float(rng.uniform(0.5, 1.5))
    f2.change_scales(1)
    f2['c'] *= a
    way = int(rng.integers(5))
    if way == 0:
        f['c'] *= a
    elif way == 1:
        f.change_scales(O.scale())
        f['g'] *= a
    elif way == 2:
        f.change_scales(O.scale())
        f['g'] = a*f['g']
    elif way == 3:
        f.change_layout(O.layout())
        f.data[...] *= a
    else:
        h = (a*f).evaluate()
        h.change_scales(f.scales)
        f.change_layout(h.layout)
        f.data[...] = h.data
    O.log.append(f"scale {f.name} by {a:.2f} (way {way})")
    ctx.count('rewrites')
