"""P04: results do not depend on the number or arrangement of processes (MPI executions against exact references and serial twins)."""
import numpy as np
import geoms as G
import harness
import exprs as X
import p03
import p17
import probs

RULE = ("A case is one MPI execution (1-8 processes and a mesh) of random expression trees, global reductions and gathers over a random geometry, or of a problem of the catalogue solved as initial-value (several schemes), linear, nonlinear and "
        "eigenvalue problem. Distributed values are compared with exact reference values on every rank and with a serial twin run by rank 0 in the same execution; a hang or a rank failing alone is a violation. Non-trivial if values were compared.")
MIN = {'comparisons': 1500, 'mpi_runs': 30, 'expressions': 300, 'reductions': 400, 'empty_ranks': 10, 'steps': 60, 'lbvps': 8, 'nlbvps': 6, 'matrices': 30, 'eigenvalues': 50}
BUDGET = {'quick': 450, 'thorough': 2400}
WORKERS = 3
CASE_S = 300
GEOS = ['cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus']
SCHEMES = ['RK222', 'SBDF2', 'RK443', 'CNAB2', 'SBDF3', 'MCNAB2', 'CNLF2', 'SBDF1', 'RK111', 'SBDF4']


def cases(tier, rng):
    out = []
    fams = probs.names('mesh')
    ns = [2, 3, 4, 6, 8, 5]
    for i in range(2 if tier == 'quick' else 16):
        for k, geo in enumerate(GEOS):
            n = ns[(i*5 + k) % 6]
            ms = p17.meshes(n, int(geo[-1]) if geo in G.CART else 2 if geo in ('disk', 'annulus', 'sphere') else 3)
            s = X.wide_spec(rng, geo, deg=3)
            if geo == 'ball':
                s['shape'][2] = max(s['shape'][2], s['shape'][1]//2 + 2)
            if 'dealias' in s:
                s['dealias'] = [max(1.25, x) for x in s['dealias']]
            out.append({'kind': 'expr', 'spec': s, 'n': n, 'mesh': ms[int(rng.integers(len(ms)))], 'i': i, 'trees': 10})
    for i in range(2 if tier == 'quick' else 16):
        for k, f in enumerate(fams):
            n = [4, 2, 3, 6, 5, 8][(i + k + int(rng.integers(6))) % 6]
            ms = p17.meshes(n, probs.FAMILIES[f]['dim'])
            out.append({'kind': 'prob', 'spec': probs.random_spec(rng, f, small=True, real=bool((i + k) % 2)), 'n': n, 'mesh': ms[int(rng.integers(len(ms)))], 'i': i,
                        'scheme': SCHEMES[int(rng.integers(len(SCHEMES)))], 'what': ['ivp', 'ivp', 'lbvp', 'nlbvp', 'evp']})
    return out


def run(case, ctx):
    res = ctx.mpirun(case['n'], 'ranks', dict(case, key=[ctx.seed, str(case)]), hang='P04', timeout=200)
    if res is None:
        return
    for r in res:
        for k, v in r['counts'].items():
            ctx.count(k, v)
        for m, msg in r['viol']:
            ctx.violation(m, msg)
        for st in r['states']:
            ctx.state(*st)


def ranks(comm, p, outdir):
    import warnings
    warnings.simplefilter('ignore')
    rep = p17.Report(comm)
    rng = harness.rng_for(*p['key'])
    mesh = None if p['mesh'] is None else tuple(p['mesh'])
    (expressions if p['kind'] == 'expr' else problems)(comm, p, rng, rep, mesh)
    return rep.out


def expressions(comm, p, rng, rep, mesh):
    import dedalus.public as d3
    from dedalus.core.evaluator import Evaluator
    from mpi4py import MPI
    spec = p['spec']
    g = G.build(spec, comm=comm, mesh=mesh)
    where = f"{g.name} on {comm.size} processes, mesh {mesh}"
    B = X.Builder(g, rng, maxrank=2)
    tol = {'annulus': 2e-5, 'shell': 2e-5, 'cyl_annulus': 2e-5}.get(g.name, 1e-7)
    serial = G.build(spec, comm=MPI.COMM_SELF) if comm.rank == 0 else None
    if not g.dist.Field(bases=g.bases)['g'].size or not g.dist.Field(bases=g.bases)['c'].size:
        rep.count('empty_ranks')
    nl = len(g.dist.layouts)
    evaluator = Evaluator(g.dist, {})
    for j in range(p['trees']):
        n = B.gen(int(rng.integers(0, 2)), depth=int(rng.integers(1, 4)))
        if not n.kids:
            continue
        # operands anywhere
        for lf in B.leaves:
            if rng.random() < 0.4:
                B.fill(lf)
            lf.field.change_layout(g.dist.layouts[int(rng.integers(nl))])
        how = B.pick(['evaluate', 'evaluate', 'group', 'coeff', 'twice'])
        if how == 'group':
            h = evaluator.add_dictionary_handler(group=f'g{j}')
            lay = B.pick(['g', 'c'])
            h.add_task(n.expr, layout=lay, name='a')
            h.add_task(2*n.expr if n.rank == 0 else -n.expr, layout='c', name='b')
            evaluator.evaluate_handlers([h])
            out = h['a']
        elif how == 'coeff':
            out = n.expr.evaluate()
            out['c']
        elif how == 'twice':
            n.expr.evaluate()
            out = n.expr.evaluate()
        else:
            out = n.expr.evaluate()
        full = g.dist.grid_layout.global_shape(out.domain, scales=g.dealias)
        axes = tuple(i for i, b in enumerate(out.domain.full_bases) if b is not None and full[i] > 1)
        sc = tuple(s if i in axes else 1 for i, s in enumerate(g.dealias))
        c = out.copy()
        c.change_scales(sc)
        T = n.ref(B.env)
        want = G.on_grid_sub(g, T, g.dealias, axes)
        err = np.max(np.abs(c['g'] - want), initial=0)
        size = n.size(g, B.env)
        err, size = comm.allreduce(err, op=MPI.MAX), max(comm.allreduce(size, op=MPI.MAX), 1e-12)
        rep.require(err <= tol*size, 'expression', f"{where}: {n.text()[:200]} ({how}): off by {err:.3g} (size {size:.3g})")
        rep.count('expressions')
        rep.state(g.name, comm.size, str(mesh), how, n.op)
        # Reductions and gathers of the result, against a serial twin holding the reference values
        red = {}
        lay = B.pick(['g', 'c'])
        c.change_scales(sc)
        red['max'] = c.allreduce_data_max(layout=lay)
        red['norm2'] = c.allreduce_data_norm(layout=lay)
        red['norm4'] = c.allreduce_data_norm(layout=lay, order=4)
        red['all'] = c.allgather_data(layout=lay)
        red['gather'] = c.gather_data(layout=lay)
        full = len(axes) == g.dim and not X.radial(n)
        if full and g.name in ('cart2', 'cart3', 'disk', 'annulus'):
            vol = bool(rng.random() < 0.5)
            red['L2'] = c.allreduce_L2_norm(normalize_volume=vol)
        same = comm.allgather({k: v for k, v in red.items() if k in ('max', 'norm2', 'norm4', 'L2')})
        for k in same[0]:
            vals = [s[k] for s in same]
            rep.require(max(vals) - min(vals) <= 1e-10*max(abs(v) for v in vals), 'reduction-ranks', f"{where}: {k} differs between processes: {vals}")
        sums = comm.allgather(float(np.abs(red['all']).sum()))
        rep.require(max(sums) - min(sums) <= 1e-10*max(sums), 'reduction-ranks', f"{where}: allgathered data differ between processes")
        if serial is not None:
            bases = tuple(b for b in out.domain.bases)
            sb = twin_bases(g, serial, bases)
            if sb is not None:
                f = serial.dist.TensorField((serial.cs,)*n.rank, bases=sb)
                f.preset_scales(sc)
                f['g'] = G.on_grid_sub(serial, T, g.dealias, axes)
                data = np.array(f[lay])
                s = {'max': np.max(np.abs(data), initial=0), 'norm2': np.sqrt(np.sum(np.abs(data)**2)), 'norm4': np.sum(np.abs(data)**4)**0.25}
                if 'L2' in red:
                    s['L2'] = f.allreduce_L2_norm(normalize_volume=vol)
                scale = max(np.max(np.abs(data), initial=0), size)
                k2 = max(data.size, 1)
                for k in s:
                    bound = tol*scale*{'max': 1, 'norm2': k2**.5, 'norm4': k2**.25, 'L2': 30}[k]*10
                    rep.require(abs(s[k] - red[k]) <= bound, 'reduction', f"{where}: {k} of {n.text()[:120]} in {lay}: {red[k]} instead of {s[k]}")
                    rep.count('reductions')
                for k in ('all', 'gather'):
                    a = np.asarray(red[k])
                    if a.shape != data.shape:
                        rep.require(False, 'gather', f"{where}: {k} of {n.text()[:120]} in {lay} has shape {a.shape} instead of {data.shape}")
                    else:
                        rep.require(np.max(np.abs(a - data), initial=0) <= 10*tol*scale, 'gather', f"{where}: {k} of {n.text()[:120]} in {lay} off by {np.max(np.abs(a-data)):.3g} (size {scale:.3g})")
                    rep.count('reductions')


def twin_bases(g, h, bases):
    """The same bases of another distributor."""
    out = []
    for b in bases:
        for x, y in zip(g.bases, h.bases):
            if b is x:
                out.append(y)
                break
        else:
            # derivative bases
            for x, y in zip(g.bases, h.bases):
                if type(b) is type(x) and b.coordsys == x.coordsys and hasattr(b, 'k') and hasattr(y, 'clone_with'):
                    out.append(y.clone_with(k=b.k, shape=b.shape))
                    break
                if type(b) is type(x) and b.coordsys == x.coordsys and hasattr(b, 'a') and hasattr(y, 'clone_with'):
                    out.append(y.clone_with(a=b.a, b=b.b))
                    break
            else:
                return None
    return tuple(out)


def problems(comm, p, rng, rep, mesh):
    import dedalus.public as d3
    from mpi4py import MPI
    spec = p['spec']
    fam = probs.FAMILIES[spec['fam']]
    root = comm.rank == 0
    caps = fam['caps']
    what = f"{spec['fam']} ({'real' if spec['real'] else 'complex'}) on {comm.size} processes, mesh {mesh}"
    cond = 1e-4 if spec['fam'] in ('annheat', 'shellconv') else 1e-7

    def twins():
        P = probs.build(spec, comm, mesh)
        return P, probs.build(spec, MPI.COMM_SELF) if root else None

    def compare(P, S, mech, msg, tol=cond):
        """All variables, in coefficients or grid values, against the serial twin."""
        data = []
        for v in P.vars:
            v.change_scales(1)
            data.append(v.allgather_data(layout='g'))
        if not root:
            return
        ref = []
        for v in S.vars:
            v.change_scales(1)
            ref.append(np.array(v['g']))
        size = max([np.max(np.abs(r), initial=0) for r in ref if r.size] + [1e-12])
        for v, a, b in zip(P.vars, data, ref):
            rep.require(a.shape == b.shape, mech, f"{what}: {msg}: {v.name} has shape {a.shape} instead of {b.shape}")
            if a.shape == b.shape:
                t = 1e-2 if 'tau' in v.name else tol
                err = np.max(np.abs(a - b), initial=0)
                rep.require(err <= t*size, mech, f"{what}: {msg}: {v.name} off by {err:.3g} from the serial result (size {size:.3g})")

    for kind in p['what']:
        if kind not in caps and kind != 'nlbvp':
            continue
        P, S = twins()
        dts = [0.003, 0.003, 0.004, 0.004, 0.002, 0.002]
        if kind == 'ivp':
            scheme = p['scheme'] if p['what'].index('ivp') == 0 else 'RK222'
            for q in [P] + [S]*root:
                q.set_initial()
                q.solver = q.ivp().build_solver(getattr(d3, scheme), **q.solver_kw)
            for k, dt in enumerate(dts):
                P.solver.step(dt)
                if root:
                    S.solver.step(dt)
                rep.count('steps')
                if k in (0, 3, 5):
                    compare(P, S, 'ivp', f"{scheme}, {k+1} steps")
            rep.state(spec['fam'], scheme, comm.size, str(mesh))
            # integrals and extremes of results
            v = P.vars[1 if len(P.vars) > 1 and not P.vars[0].domain.bases else 0]
            if v.domain.bases:
                a = [v.allreduce_data_norm('c'), v.allreduce_data_norm('g'), v.allreduce_data_max('g')]
                if root:
                    w = S.vars[P.vars.index(v)]
                    b = [w.allreduce_data_norm('c'), w.allreduce_data_norm('g'), w.allreduce_data_max('g')]
                    rep.require(np.allclose(a, b, rtol=1e-3 if cond > 1e-6 else 1e-6, atol=1e-8), 'reduction', f"{what}: norms of {v.name} {a} instead of {b}")
        elif kind == 'lbvp':
            for q in [P] + [S]*root:
                q.solver = q.lbvp().build_solver(**q.solver_kw)
                q.solver.solve()
            compare(P, S, 'lbvp', 'linear solution')
            # new data, solved again
            f = P.ns.get('f')
            for q in [P] + [S]*root:
                for name in ('f', 'g'):
                    if isinstance(q.ns.get(name), d3.Field):
                        q.ns[name]['g'] *= -0.3
                q.solver.solve()
            compare(P, S, 'lbvp', 'second linear solution')
            rep.count('lbvps')
        elif kind == 'nlbvp':
            # Linear problems are nonlinear problems solved by one Newton iteration, under the same separability
            if 'lbvp' not in caps:
                continue
            for q in [P] + [S]*root:
                q.nl = q._add(d3.NLBVP(q.vars, namespace=q.ns), q.lbvp_texts())
                q.set_initial(0.2)
                q.solver = q.nl.build_solver(ncc_cutoff=1e-12, **q.solver_kw)
            for k in range(2):
                P.solver.newton_iteration()
                if root:
                    S.solver.newton_iteration()
                compare(P, S, 'nlbvp', f'{k+1} Newton iterations', max(cond, 1e-6))
                n = np.sqrt(sum(v.allreduce_data_norm('c')**2 for v in P.solver.perturbations))
                big = np.sqrt(sum(v.allreduce_data_norm('c')**2 for v in P.vars))
                if root:
                    m = np.sqrt(sum(v.allreduce_data_norm('c')**2 for v in S.solver.perturbations))
                    rep.require(abs(n - m) <= 1e-4*(m + big), 'nlbvp', f"{what}: perturbation norm {n} instead of {m}")
            rep.count('nlbvps')
        elif kind == 'evp':
            for q in [P] + [S]*root:
                q.solver = q.evp().build_solver(**q.solver_kw)
            mine = {}
            pick = {}
            for q, d in [(P, mine)] + [(S, pick)]*root:
                q.solver.build_matrices(matrices=['M', 'L'])
                for sp in q.solver.subproblems:
                    pl, pr = sp.pre_left, sp.pre_right
                    L, M = (pl.T @ sp.L_min @ pr.T).toarray(), (pl.T @ sp.M_min @ pr.T).toarray()
                    d[tuple(sp.group)] = (L, M)
            parts = comm.gather(mine)
            if root:
                allm = {}
                for d in parts:
                    for k, v in d.items():
                        allm.setdefault(k, []).append(v)
                rep.require(set(allm) == set(pick), 'matrices', f"{what}: groups {sorted(set(allm) ^ set(pick), key=str)[:5]} are missing or extra")
                for k in set(allm) & set(pick):
                    for a, b, nm in [(a, b, nm) for v in allm[k] for a, b, nm in zip(v, pick[k], 'LM')]:
                        size = max(np.max(np.abs(b), initial=0), 1e-12)
                        if a.shape == b.shape:
                            rep.require(np.max(np.abs(a-b), initial=0) <= 1e-8*size, 'matrices', f"{what}: matrix {nm} of group {k} off by {np.max(np.abs(a-b)):.3g} (size {size:.3g})")
                        else:
                            rep.require(False, 'matrices', f"{what}: matrix {nm} of group {k} has shape {a.shape} instead of {b.shape}")
                        rep.count('matrices')
            # a few groups solved where they live
            mine = {}
            for sp in P.solver.subproblems[:2]:
                P.solver.solve_dense(sp)
                mine[tuple(sp.group)] = P.solver.eigenvalues[np.isfinite(P.solver.eigenvalues)]
            parts = comm.gather(mine)
            if root:
                for d in parts:
                    for k, a in d.items():
                        sp = [s for s in S.solver.subproblems if tuple(s.group) == k]
                        if not sp:
                            continue
                        S.solver.solve_dense(sp[0])
                        b = S.solver.eigenvalues
                        b = b[np.isfinite(b)]
                        low = a[np.argsort(np.abs(a))][:4]
                        for x in low:
                            e = np.min(np.abs(b - x)) if b.size else np.inf
                            rep.require(e <= 1e-4*max(abs(x), 1e-2), 'eigenvalues', f"{what}: eigenvalue {x} of group {k} is not found serially ({e:.3g} away)")
                            rep.count('eigenvalues')
