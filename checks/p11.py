"""P11: linear boundary value problems return the solution of the stated equations."""
import numpy as np
import geoms as G
import refcalc as rc
import probs
import linexpr

RULE = ("A case solves one linear problem and compares every variable with a solution known in advance: boundary value problems whose right-hand sides come from exact calculus on a random polynomial/trigonometric solution (every geometry, "
        "bounded basis, rank, kind of condition, coefficient), the problem catalogue with right-hand sides generated from random resolved states, and algebraic problems on every domain. "
        "Non-trivial if at least one solution was compared.")
MIN = {'solves': 500, 'geo': 150, 'prob': 60, 'alg': 200, 'repeat': 100, 'bc:neumann': 20, 'bc:dirichlet': 20, 'bc:robin': 20, 'ncc': 20, 'rebuild': 20, 'system': 20}
BUDGET = {'quick': 240, 'thorough': 2400}
CASE_S = 200


def cases(tier, rng):
    out = []
    q = tier == 'quick'
    for i in range(3 if q else 30):
        for geo in ['cart1', 'cart1', 'cart2', 'cart2', 'cart3'] + G.CURV:
            for real in (True, False):
                kinds = None
                if geo in G.CART:
                    D = int(geo[-1])
                    kinds = ['F']*D
                    b = int(rng.integers(-1 if D > 1 else 0, D))
                    if b >= 0:
                        kinds[b] = G.pick(rng, G.JAC)
                elif 'cyl' in geo:
                    kinds = ['F']
                sp = G.random_spec(rng, geo, real=real, kinds=kinds, k=0, deg=int(rng.integers(3, 5)))
                if geo in G.CART:
                    for ax in sp['axes']:
                        if ax['b'] != 'F':
                            ax['N'] = max(ax['N'], 9)
                sp['alpha'] = 0 if isinstance(sp.get('alpha'), int) else sp.get('alpha')
                out.append({'kind': 'geo', 'spec': sp, 'i': i})
    for i in range(2 if q else 20):
        for geo in G.CART + G.CURV:
            for real in (True, False):
                out.append({'kind': 'alg', 'spec': G.random_spec(rng, geo, real=real, deg=3), 'i': i})
    for i in range(6 if q else 50):
        for fam in probs.names('lbvp'):
            out.append({'kind': 'prob', 'spec': probs.random_spec(rng, fam, small=q or bool(i % 2)), 'i': i})
    return out


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def solver_kw(rng):
    kw = {}
    if rng.random() < 0.4:
        kw['matsolver'] = str(rng.choice(['SuperLUNaturalFactorizedTranspose', 'SuperLUColamdFactorized', 'SuperLUNaturalSpsolve', 'SuperLUColamdSpsolve', 'SparseInverse', 'DenseInverse', 'ScipyDenseLU', 'SuperLUNaturalFactorized', 'ScipyBanded']))
    return kw


def run_alg(case, ctx):
    """2*w = v on every domain and rank, all bases at once or partially, with random coupling."""
    import dedalus.public as d3
    g = G.build(case['spec'])
    rng = ctx.rng()
    doms = [('full', g.bases, lambda rng, rank: G.random_tensor(g, rng, rank))]
    doms += [(lab, bases, gen) for lab, bases, gen, axes in G.subdomains(g) if bases and 'radial' not in lab]
    for c, bases, pos, basis in linexpr.edges(g):
        doms.append((f"{g.name}:edge-{c.name}", bases, None))
    for lab, bases, gen in doms:
        for rank in (0, 1, 2):
            if g.name == 'sphere' and rank == 2 and False:
                continue
            if not bases:
                continue
            v = g.dist.TensorField((g.cs,)*rank, name='v', bases=bases)
            w = g.dist.TensorField((g.cs,)*rank, name='w', bases=bases)
            v.fill_random('g', seed=int(rng.integers(1 << 30)))
            v.low_pass_filter(scales=0.7)
            v['g'], v['c']
            a = float(rng.uniform(0.5, 2))
            kw = solver_kw(rng)
            if g.name in G.CART and rng.random() < 0.5:
                kw['matrix_coupling'] = [not (G.is_periodic(ax) and rng.random() < 0.5) for ax in case['spec']['axes']]
            elif g.name == 'sphere' and rng.random() < 0.5:
                kw['matrix_coupling'] = [False, False]
            p = d3.LBVP([w], namespace={'w': w, 'v': v, 'a': a})
            p.add_equation("a*w = v")
            s = p.build_solver(**kw)
            s.solve()
            ctx.count('solves'), ctx.count('alg')
            w.change_scales(1), v.change_scales(1)
            ctx.close(a*w['c'], v['c'], 1e-10, f"alg:{lab.split(':')[-1] if ':' in lab else lab}:{g.name}", f"{g.name} {lab} rank {rank} {kw}")
            ctx.state(g.name, lab, rank, case['spec']['real'])


def run_geo(case, ctx):
    import dedalus.public as d3
    spec = case['spec']
    g = G.build(spec)
    rng = ctx.rng()
    cart = g.name in G.CART
    ed = linexpr.edges(g)
    if len(ed) > 1:
        raise RuntimeError('one bounded direction expected')
    loose = g.name in ('annulus', 'shell', 'cyl_annulus')
    tol = 1e-6 if loose else 1e-8
    for rep in range(3):
        rank = int(rng.choice([0, 0, 1, 1, 2]))
        if (g.name == 'cart3' or g.name == 'shell') and rank == 2 and ctx.tier == 'quick':
            rank = 1
        if g.name == 'disk_cyl' and spec['real']:
            rank = 0        # boundary conditions on components need the azimuth next to the last real axis (raises)
        u = g.dist.TensorField((g.cs,)*rank, name='u', bases=g.bases)
        a, b = float(rng.uniform(0.5, 2)), float(rng.uniform(0.3, 1.5))
        ns = {'u': u, 'a': a, 'b': b, 'lap': d3.lap, 'grad': d3.grad, 'div': d3.div}
        var = [u]
        text = "a*u - b*lap(u)"
        ncc = None
        bdir = ed[0] if ed else None
        degrade = 0
        # Non-constant coefficient along the coupled direction
        if bdir and rank < 2 and rng.random() < 0.4 and not loose:
            if cart:
                i = g.coords.index(bdir[0])
                d = [0]*g.D
                d[i] = 2
                Nt = rc.tensor((), lambda _: rc.const(g.kinds, 1.5) + rc.mono(g.kinds, i)*(0.3*float(rng.uniform(0.2, 1))) + rc.mono(g.kinds, i)*rc.mono(g.kinds, i)*0.2)
                nb, axes, degrade = bdir[3], (i,), 2
            elif g.name in ('disk', 'ball'):
                Nt = rc.tensor((), lambda _: rc.const(g.kinds, 1.5) + sum((rc.mono(g.kinds, j)*rc.mono(g.kinds, j) for j in range(g.D)), rc.const(g.kinds, 0.))*0.4)
                nb, axes, degrade = g.basis.radial_basis, (g.dim-1,), 2
            else:
                Nt = None
            if Nt is not None:
                ncc, draw_ncc = Nt, lambda: rc.tensor((), lambda _: rc.const(g.kinds, float(rng.uniform(1.2, 1.8))) + Nt[()]*float(rng.uniform(0.3, 0.9)))
                n = ns['n'] = g.dist.Field(name='n', bases=nb)
                sc = G.norm_scales(g, g.dealias)
                n.change_scales(sc)
                n['g'] = G.on_grid_sub(g, Nt, sc, axes)
                text = "a*n*u - b*lap(u)"
                ctx.count('ncc')
        ntau, bcs = 0, []
        if bdir:
            coord, ebases, pos, basis = bdir
            ntau = len(pos) if not cart else 2
            for k in range(ntau):
                t = g.dist.TensorField((g.cs,)*rank, name=f"tau_{k}", bases=ebases) if rank else g.dist.Field(name=f"tau_{k}", bases=ebases)
                var.append(t)
                ns[t.name] = t
            if ntau == 1:
                lb = basis
                text += " + lift(tau_0, -1)"
            else:
                lb = basis.derivative_basis(2)
                text += " + lift(tau_0, -1) + lift(tau_1, -2)"
            ns['lift'] = lambda A, n, lb=lb: d3.Lift(A, lb, n)
            kinds = [str(rng.choice(['dirichlet', 'neumann', 'robin'])) for _ in pos]
            for k, (p, kd) in enumerate(zip(pos, kinds)):
                if cart:
                    dn = f"dn(u)({coord.name}={p!r})"
                    ns['dn'] = lambda A, coord=coord: d3.Differentiate(A, coord)
                    sgn = -1 if k == 0 else 1
                else:
                    # e_r . grad(u): gradient index is the first
                    dn = f"gr(u)({coord.name}={p!r})"
                    ns['gr'] = lambda A: d3.grad(A)
                    sgn = -1 if (len(pos) == 2 and k == 0) else 1
                    if kd != 'dirichlet':
                        dn = f"radial({dn})"
                        ns['radial'] = lambda A: d3.radial(A, index=0)
                        if 'cyl' in g.name or g.name.endswith('cyl') or g.name == 'disk_cyl':
                            kd = kinds[k] = 'dirichlet'      # component operators of product coordinates are not defined
                ue = f"u({coord.name}={p!r})"
                left = {'dirichlet': ue, 'neumann': dn, 'robin': f"0.7*{ue} + {sgn*0.4}*{dn}"}[kd]
                pos_bases = eval(ue, dict(ns)).domain.bases      # (spheres know their radius)
                bf = g.dist.TensorField((g.cs,)*rank, name=f"bc{k}", bases=pos_bases) if rank else g.dist.Field(name=f"bc{k}", bases=pos_bases)
                ns[f"bc{k}"] = bf
                bcs.append((left, bf, kd, p, sgn))
                ctx.count(f"bc:{kd}")
        f = ns['f'] = g.dist.TensorField((g.cs,)*rank, name='f', bases=g.bases) if rank else g.dist.Field(name='f', bases=g.bases)
        P = d3.LBVP(var, namespace=ns)
        P.add_equation(text + " = f")
        for k, bc in enumerate(bcs):
            P.add_equation(f"{bc[0]} = bc{k}")
        solver = P.build_solver(**solver_kw(rng))
        for again in range(3 if ncc is not None else 2):
            deg = None
            rebuild = False
            if again == 2:
                # A new coefficient, with new matrices
                rebuild = True
                ncc = draw_ncc()
                n.change_scales(G.norm_scales(g, g.dealias))
                n['g'] = G.on_grid_sub(g, ncc, G.norm_scales(g, g.dealias), axes)
                if rng.random() < 0.5:
                    n['c']
                    n.change_scales(1)
                ctx.count('rebuild')
            if cart:
                d = [max(min(x, ax['N'] - 1 - degrade - 2), 1) if ax['b'] != 'F' else x for x, ax in zip(spec['deg'], spec['axes'])]
                T = rc.random_tensor(rng, g.kinds, rank, d, kmax=spec['kmax'], real=spec['real'], nterms=10)
            else:
                deg = max(spec['deg'] - degrade, 1)
                T = G.random_tensor(g, rng, rank, deg=deg)
            L = G.lap(g, T)
            m = rc.tensor(T.shape, lambda j: (T[j]*ncc[()] if ncc is not None else T[j])*a - L[j]*b)
            sc = G.norm_scales(g, g.dealias)
            f.change_scales(sc)
            f['g'] = G.on_grid(g, m, sc)
            for left, bf, kd, p, sgn in bcs:
                set_bc(g, bf, T, kd, bdir[0], p, sgn)
            f.change_scales(1)
            f0 = f['c'].copy()
            for x in var:     # whatever the variables held before
                if rng.random() < 0.5:
                    x.fill_random('g' if rng.random() < 0.5 else 'c', seed=int(rng.integers(1 << 20)))
                else:
                    x['c'] = 0
                if rng.random() < 0.3:
                    x.change_scales(2)
                if rng.random() < 0.3:
                    x['g']
            solver.solve(rebuild_matrices=rebuild)
            ctx.count('solves'), ctx.count('geo')
            if again:
                ctx.count('repeat')
            what = f"{g.name} {text}, {[x[2] for x in bcs]}, rank {rank}, {['first', 'second', 'rebuilt'][again]} solve"
            s = max(G.tmax(T, g), 1e-1*G.tmax(m, g))
            G.check_field(ctx, g, u, T, tol, f"geo:{g.name}", what, scale=s)
            for t in var[1:]:
                t.change_scales(1)
                ctx.close(t['c'], 0*t['c'], (1e-3 if loose else 1e-6), f"tau:{g.name}", f"{t.name} of {what}", scale=max(s, G.tmax(m, g)))
            f.change_scales(1)
            ctx.close(f['c'], f0, 1e-12, 'rhs-changed', f"the right-hand side field after solving {what}")
            ctx.state(g.name, text, rank, spec['real'], *[x[2] for x in bcs])


def set_bc(g, bf, T, kd, coord, p, sgn):
    i = list(g.coords).index(coord)
    sc = G.norm_scales(g, g.dealias)
    bf.change_scales(sc)
    val = G.fixed_at(g, T, sc, {i: p})
    if kd != 'dirichlet':
        if g.name in G.CART:
            dT = rc.tensor(T.shape, lambda j: T[j].d(i))
            der = G.fixed_at(g, dT, sc, {i: p})
        else:
            der = G.fixed_at(g, G.grad(g, T), sc, {i: p})
            pos = [c.name for c in g.coords].index('r')
            der = der[pos]
        val = der if kd == 'neumann' else 0.7*val + sgn*0.4*der
    bf['g'] = val


def run_prob(case, ctx):
    """Right-hand sides generated from a random resolved state; the solve has to return that state."""
    import dedalus.public as d3
    rng = ctx.rng()
    P = probs.build(case['spec'])
    fam = case['spec']['fam']
    sigma = float(rng.uniform(1., 3.))
    problem = P.lbvp(sigma)
    # same left-hand sides, right-hand sides replaced by fields
    base = [e for e in problem.equations]
    texts = P.lbvp_texts(sigma)
    ns = dict(P.ns)
    pr = d3.LBVP(P.vars, namespace=ns)
    forcing = []
    for k, ((t, cond), e) in enumerate(zip(texts, base)):
        F = P.dist.TensorField(e['tensorsig'], name=f"rhs{k}", bases=e['domain'].bases) if e['tensorsig'] else P.dist.Field(name=f"rhs{k}", bases=e['domain'].bases)
        ns[F.name] = F
        lhs = t.rsplit(' = ', 1)[0]
        forcing.append((F, e))
        kw = {} if cond == 'True' else {'condition': cond}
        pr.add_equation(f"{lhs} = rhs{k}", **kw)
    solver = pr.build_solver(**dict(P.solver_kw, **solver_kw(rng)))
    solver.build_matrices(solver.subproblems, ['L'])
    valid = masks(solver, P)
    for again in range(3):
        X = []
        for v in P.vars:
            v.fill_random('g', seed=int(rng.integers(1 << 30)))
            if v.domain.bases:
                v.low_pass_filter(scales=0.5)
            v.change_scales(1)
            v['c'] *= valid[v]
            if fam == 'shellconv' and v.name.startswith('tau'):
                v['c'] = 0      # (products of the radius with the highest mode truncate differently in matrices and on the grid)
            X.append(v['c'].copy())
        for F, e in forcing:
            out = e['L'].evaluate()
            out.change_scales(1)
            F.preset_scales(1)
            F['c'] = out['c']
        for v in P.vars:
            v['c'] = rng.normal() if rng.random() < 0.5 else 0
            if again == 2:
                v['c'] *= valid[v]
        if again == 2:
            # one subproblem at a time
            order = [solver.subproblems[i] for i in rng.permutation(len(solver.subproblems))]
            for sp in order:
                solver.solve(subproblems=sp if rng.random() < 0.5 else [sp])
                if rng.random() < 0.3:
                    P.vars[int(rng.integers(len(P.vars)))]['g']
        else:
            solver.solve()
        ctx.count('solves'), ctx.count('prob')
        loose = fam in ('annheat', 'shellconv')
        for v, x in zip(P.vars, X):
            v.change_scales(1)
            tau = v.name.startswith('tau')
            ctx.close(v['c'], x, (1e-2 if tau else 1e-4) if loose else (1e-6 if tau else 1e-8), f"prob:{fam}", f"{v.name} of {fam} with sigma={sigma:.3f}, solve {again}", scale=max(np.max(np.abs(x), initial=0), 0.3))
        ctx.state(fam, case['spec']['real'], again)
    if len(P.vars) > 1:
        ctx.count('system')


def masks(solver, P):
    """Modes of each variable that belong to the solver's systems."""
    out = {}
    for v in P.vars:
        v.change_scales(1)
        v['c'] = 0
    for sp in solver.subproblems:
        if sp.size:
            full = sp.pre_right @ np.ones((sp.pre_right.shape[1], len(sp.subsystems)))
            for j, ss in enumerate(sp.subsystems):
                ss.scatter(full[:, j], P.vars)
    for v in P.vars:
        v['c']
        out[v] = (v['c'] != 0)
    return out
