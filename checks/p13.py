"""P13: eigenvalue problems return true, complete and correctly normalized eigenpairs."""
import numpy as np
import scipy.special as ss
from scipy.optimize import brentq
import geoms as G
import probs

RULE = ("A case solves the eigenvalue problems of one system: spectra known in closed form (intervals, periodic domains, disk, annulus, sphere, ball, shell; random sizes, bases and conditions), or the problem catalogue, whose eigenpairs are put back "
        "into the operators of the equations, compared between the dense and the sparse solver, and checked for biorthogonality; or linearizations of initial value problems compared with finite differences. "
        "Non-trivial if at least one eigenpair was checked.")
MIN = {'eigenpairs': 3000, 'spectra': 100, 'sparse': 60, 'left': 60, 'states': 300, 'rebuild': 10, 'sparse_rebuild': 15, 'linearized': 40}
BUDGET = {'quick': 240, 'thorough': 2400}
CASE_S = 200

ANALYTIC = ['interval', 'fourier', 'oscillator', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'diskvec', 'ballvec']
LINEAR = ['burgers', 'ks2', 'channel', 'diskrd', 'sphererd', 'ballrd']


def cases(tier, rng):
    out = []
    q = tier == 'quick'
    for i in range(8 if q else 60):
        for a in ANALYTIC:
            for real in (False, True):
                out.append({'kind': 'analytic', 'what': a, 'real': real, 'i': i})
    for i in range(10 if q else 60):
        for f in probs.names('evp'):
            out.append({'kind': 'cat', 'spec': probs.random_spec(rng, f, real=(i % 5 == 4), small=q or bool(i % 2)), 'i': i})
    for i in range(8 if q else 50):
        for a in LINEAR:
            out.append({'kind': 'linear', 'what': a, 'real': bool(i % 3 == 2), 'i': i})
    return out


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def finite(e, big=1e8):
    return e[np.isfinite(e) & (np.abs(e) < big)]


# Spectra known in closed form

def roots(f, lo, hi, n=4000):
    x = np.linspace(lo, hi, n)
    y = np.array([f(v) for v in x])
    return np.array([brentq(f, x[i], x[i+1], xtol=1e-14, rtol=1e-14) for i in range(n-1) if np.isfinite(y[i]) and np.isfinite(y[i+1]) and y[i]*y[i+1] < 0])


def sph(l, x):
    return ss.spherical_jn(l, x)


def run_analytic(case, ctx):
    import dedalus.public as d3
    rng = ctx.rng()
    real = case['real']
    dt = np.float64 if real else np.complex128
    what = case['what']
    U = lambda a, b: float(np.round(rng.uniform(a, b), 2))
    ns = {'lap': d3.lap}
    want = {}      # group -> sorted eigenvalues of -lap (lowest ones)
    dup = lambda m: 2 if real and m != 0 else 1
    c = U(0.2, 1.5)
    if what in ('interval', 'oscillator'):
        x = d3.Coordinate('x')
        dist = d3.Distributor(x, dtype=dt)
        kind = G.pick(rng, ['ChebT', 'ChebU', 'ChebV', 'Leg', 'Ultra', 'Jac'])
        ax = G.random_axis(rng, real, kind=kind)
        ax['N'] = 32 if what == 'interval' else 72
        if what == 'oscillator':
            ax['bounds'] = [-8., 8.]
        xb = G.make_axis(d3, x, ax, dt)
        a, b = ax['bounds']
        u, t1, t2, lam = dist.Field(name='u', bases=xb), dist.Field(name='t1'), dist.Field(name='t2'), dist.Field(name='lam')
        dx = lambda A: d3.Differentiate(A, x)
        lift = lambda A, n: d3.Lift(A, xb.derivative_basis(2), n)
        ns = dict(u=u, t1=t1, t2=t2, dx=dx, lift=lift)
        if what == 'oscillator':
            V = ns['V'] = dist.Field(name='V', bases=xb)
            V['g'] = dist.local_grid(xb)**2
            eq = "lam*u + dx(dx(u)) - V*u + lift(t1,-1) + lift(t2,-2) = 0"
            bc = [f"u(x={a})=0", f"u(x={b})=0"]
            want[None] = np.arange(6)*2 + 1.
        else:
            eq = "lam*u + dx(dx(u)) + lift(t1,-1) + lift(t2,-2) = 0"
            k = int(rng.integers(3))
            bc = [[f"u(x={a})=0", f"u(x={b})=0"], [f"dx(u)(x={a})=0", f"dx(u)(x={b})=0"], [f"u(x={a})=0", f"dx(u)(x={b})=0"]][k]
            n = [np.arange(1, 7), np.arange(0, 6), np.arange(6) + 0.5][k]
            want[None] = (n*np.pi/(b-a))**2
        p = d3.EVP([u, t1, t2], eigenvalue=lam, namespace=dict(ns, lam=lam))
        p.add_equation(eq)
        for t in bc:
            p.add_equation(t)
        key = lambda g: None
        tol = 1e-7
    elif what == 'fourier':
        x = d3.Coordinate('x')
        dist = d3.Distributor(x, dtype=dt)
        L = U(0.7, 5)
        xb = d3.Fourier(x, size=2*int(rng.integers(4, 9)), bounds=(0.3, 0.3+L), dtype=dt)
        u, lam = dist.Field(name='u', bases=xb), dist.Field(name='lam')
        p = d3.EVP([u], eigenvalue=lam, namespace=dict(u=u, lam=lam, dx=lambda A: d3.Differentiate(A, x), c=c))
        p.add_equation("lam*u + c*dx(u) - dx(dx(u)) = 0")
        N = xb.size
        for k in range(N//2):
            K = 2*np.pi*k/L
            if real:
                want[k] = np.sort_complex(np.array([-1j*c*K - K**2, 1j*c*K - K**2])[:dup(k)])
            else:
                want[k] = np.array([-1j*c*K - K**2])
                if k:
                    want[-k] = np.array([1j*c*K - K**2])
        key = lambda g: int(np.round(g[0])) if real or g[0] < N//2 else int(g[0]) - N
        tol = 1e-10
    else:
        if what in ('disk', 'annulus', 'diskvec'):
            cs = d3.PolarCoordinates('phi', 'r')
            dist = d3.Distributor(cs, dtype=dt)
            R = U(0.7, 2)
            if what == 'annulus':
                R0, R = R, R + U(0.5, 1.2)
                B = d3.AnnulusBasis(cs, shape=(8, 24), radii=(R0, R), dtype=dt)
                edges = [(B.outer_edge, R0), (B.outer_edge, R)]
            else:
                B = d3.DiskBasis(cs, shape=(8, 24), radius=R, dtype=dt, alpha=int(rng.integers(2)) if what == 'disk' else 0)
                edges = [(B.edge, R)]
            for m in range(4):
                if what == 'annulus':
                    z = roots(lambda k: ss.jv(m, k*R0)*ss.yv(m, k*R) - ss.jv(m, k*R)*ss.yv(m, k*R0), 0.3/R, 9*np.pi/(R-R0))
                    want[m] = z[:4]**2
                elif what == 'disk':
                    want[m] = (ss.jn_zeros(m, 4)/R)**2
                else:
                    want[m] = np.sort(np.concatenate([(ss.jn_zeros(abs(m-1), 5)/R)**2, (ss.jn_zeros(m+1, 5)/R)**2]))[:5]
        elif what == 'sphere':
            cs = d3.S2Coordinates('phi', 'theta')
            dist = d3.Distributor(cs, dtype=dt)
            R = U(0.6, 2)
            B = d3.SphereBasis(cs, (8, 8), radius=R, dtype=dt)
            edges = []
            for l in range(8):
                want[l] = np.array([l*(l+1)/R**2])
        else:
            cs = d3.SphericalCoordinates('phi', 'theta', 'r')
            dist = d3.Distributor(cs, dtype=dt)
            R = U(0.7, 2)
            if what == 'shell':
                R0, R = R, R + U(0.5, 1.2)
                B = d3.ShellBasis(cs, shape=(4, 5, 24), radii=(R0, R), dtype=dt)
                edges = [(B.outer_surface, R0), (B.outer_surface, R)]
            else:
                B = d3.BallBasis(cs, shape=(4, 5, 24), radius=R, dtype=dt)
                edges = [(B.surface, R)]
            for l in range(4):
                if what == 'shell':
                    z = roots(lambda k: ss.spherical_jn(l, k*R0)*ss.spherical_yn(l, k*R) - ss.spherical_jn(l, k*R)*ss.spherical_yn(l, k*R0), 0.3/R, 9*np.pi/(R-R0))
                    want[l] = z[:4]**2
                else:
                    zs = lambda l: (roots(lambda x: ss.spherical_jn(l, x), 0.5, 30)[:5]/R)**2
                    if what == 'ball':
                        want[l] = zs(l)[:4]
                    else:
                        want[l] = np.sort(np.concatenate([zs(l-1), zs(l), zs(l+1)]))[:6] if l else zs(1)[:5]
        vec = (cs,) if what.endswith('vec') else ()
        new = lambda n, b: dist.TensorField(vec, name=n, bases=b) if vec else dist.Field(name=n, bases=b)
        u, lam = new('u', B), dist.Field(name='lam')
        ts = [new(f"t{k}", e[0]) for k, e in enumerate(edges)]
        lb = B if len(edges) == 1 else (B.derivative_basis(2) if edges else B)
        ns.update(u=u, lam=lam, lift=lambda A, n: d3.Lift(A, lb, n), **{t.name: t for t in ts})
        p = d3.EVP([u]+ts, eigenvalue=lam, namespace=ns)
        p.add_equation("lam*u + lap(u)" + "".join(f" + lift(t{k},{-k-1})" for k in range(len(ts))) + " = 0")
        for b, r in edges:
            p.add_equation(f"u(r={r})=0")
        if what in ('disk', 'annulus', 'diskvec'):
            key = lambda g: int(g[0])
        else:
            key = lambda g: int(g[1])
        tol = 1e-7
    kw = {'matrix_coupling': [False]*dist.dim} if what in ('sphere', 'fourier') else {}
    solver = p.build_solver(**kw)
    seen = set()
    for sp in solver.subproblems:
        k = key(sp.group)
        if k not in want or (k in seen and what not in ('sphere',)):
            continue
        w = want[k]
        solver.build_matrices([sp], ['M', 'L'])
        if sp.M_min.shape[0] == 0:
            continue
        seen.add(k)
        e = eigen(solver, sp, ctx, rng, what)
        w = np.asarray(w)
        d = 1
        if real and (what == 'diskvec' or what in ('disk', 'annulus') and k != 0):      # (in real m=0 vector groups, the sine parts of the spin components repeat the problem)
            d = 2
        if real and what in ('sphere', 'ball', 'shell', 'ballvec'):
            d = max(1, int(round(np.sum(np.abs(e - w[-1]) < 1e-5*max(1, abs(w[-1]))))))     # (azimuthal pairs)
        n = len(w)*d
        e = np.sort_complex(e)[:n] if what != 'fourier' else np.sort_complex(e)
        ctx.count('spectra'), ctx.count('eigenpairs', len(e))
        ctx.state(what, real, k)
        if len(e) < n:
            ctx.violation(f"spectrum:{what}", f"{len(e)} finite eigenvalues in group {sp.group}, at least {n} exist")
            continue
        ww = np.sort_complex(np.repeat(w, d).astype(complex))
        if np.max(np.abs(e - ww)) > tol*max(1, np.max(np.abs(ww))):
            ctx.violation(f"spectrum:{what}", f"group {sp.group} {'real' if real else 'complex'}: got {np.round(e[:6], 8)}, exact {np.round(ww[:6], 8)}")
        ctx.count('comparisons')


def eigen(solver, sp, ctx, rng, what):
    """Dense spectrum (with every check of the pairs on the way)."""
    check_pairs(solver, sp, ctx, rng, states=2, ncc=what == 'oscillator')
    solver.solve_dense(sp)
    return finite(solver.eigenvalues, 1e6)


# Checks on eigenpairs

def residual_fields(solver, lam):
    """lam*M.X + L.X evaluated with the operators of the equations."""
    out = []
    for eq in solver.problem.equations:
        tot = None
        for key, c in (('M', lam), ('L', 1.)):
            e = eq[key]
            if e:
                f = e.evaluate()
                f.change_scales(1)
                tot = (0 if tot is None else tot) + c*f['c']
        out.append(tot)
    return out


def check_pairs(solver, sp, ctx, rng, states=3, ncc=False, N=None):
    L, M = sp.L_min.toarray(), sp.M_min.toarray()
    n = L.shape[0]
    what = f"group {sp.group}, {n} modes"
    left = bool(rng.integers(2))
    solver.solve_dense(sp, left=left)
    ev, X = solver.eigenvalues.copy(), solver.eigenvectors.copy()
    if solver.eigenvalue_subproblem is not sp:
        ctx.violation('subproblem', 'eigenvalue_subproblem is not the one solved')
    ctx.close(solver.right_eigenvectors, X, 0, 'right', 'right_eigenvectors and eigenvectors')
    big = 1e6
    ok = np.where(np.isfinite(ev) & (np.abs(ev) < big))[0]
    x = sp.pre_right_pinv @ X
    scale = lambda i: (np.linalg.norm(L, 2) + abs(ev[i])*np.linalg.norm(M, 2))*np.linalg.norm(x[:, i])
    nl = np.linalg.norm(L, 2), np.linalg.norm(M, 2)
    for i in ok:
        r = (L + ev[i]*M) @ x[:, i]
        s = (nl[0] + abs(ev[i])*nl[1])*np.linalg.norm(x[:, i])
        ctx.count('eigenpairs')
        if not np.linalg.norm(r) <= 1e-9*s:
            ctx.violation('dense-residual', f"{what}: eigenvalue {ev[i]} leaves a residual of {np.linalg.norm(r)/s:.2e}")
    dense_left = None
    if left:
        lefts(solver, sp, L, M, ev, ok, X, ctx, what, 'dense')
    # Sparse solver
    if n > 12 and len(ok) > 6:
        t0 = ev[ok[int(rng.integers(len(ok)))]]
        near = np.sort(np.abs(ev[ok]))
        if abs(t0) > near[len(near)//2]:
            t0 = ev[ok[np.argmin(np.abs(ev[ok]))]]
        target = complex(t0)*(1 + 0.03*rng.normal()) + 0.1*complex(rng.normal(), rng.normal())*(abs(t0)*0.1 + 0.1)
        if rng.random() < 0.3:
            target = float(np.real(target))
        k = int(min(rng.integers(2, 6), len(ok) - 3, n - 3))
        sleft = bool(rng.integers(2))
        kw = {}
        if rng.random() < 0.3:
            kw['v0'] = sp.pre_right @ rng.normal(size=n).astype(solver.eigenvectors.dtype if not np.isrealobj(L) or isinstance(target, complex) else float)
        try:
            solver.solve_sparse(sp, k, target=target, left=sleft, raise_on_mismatch=False, **kw)
        except Exception as e:
            if type(e).__name__ == 'ArpackNoConvergence':
                return
            raise
        ctx.count('sparse')
        d = np.sort(np.abs(ev[ok] - target))
        got = np.sort(np.abs(solver.eigenvalues - target))
        # eigenvalues that rounding does not blur: condition numbers from the dense vectors
        if len(d) > k and d[k] - d[k-1] > 1e-3*d[k-1] and spread(ev[ok], target, k) > 1e-4*abs(d[k-1]):
            if np.max(np.abs(got - d[:k])) > 1e-5*(abs(target) + d[k-1]):
                bad = True
                for e in solver.eigenvalues:
                    if np.min(np.abs(ev[ok] - e)) > 1e-4*(abs(e) + 1e-3):
                        ctx.violation('sparse-spectrum', f"{what}: the {k} eigenvalues nearest {target} have distances {d[:k+1]}, the sparse solver finds {got}")
                        break
        xs = sp.pre_right_pinv @ solver.eigenvectors
        for i, e in enumerate(solver.eigenvalues):
            r = (L + e*M) @ xs[:, i]
            s = (nl[0] + abs(e)*nl[1])*np.linalg.norm(xs[:, i])
            ctx.count('eigenpairs')
            if not np.linalg.norm(r) <= 1e-8*s:
                ctx.violation('sparse-residual', f"{what}: sparse eigenvalue {e} for target {target} leaves a residual of {np.linalg.norm(r)/s:.2e}")
        ctx.close(solver.right_eigenvectors, solver.eigenvectors, 0, 'right', 'right_eigenvectors and eigenvectors (sparse)')
        if sleft and np.allclose(solver.eigenvalues, np.conj(solver.left_eigenvalues), rtol=1e-7):
            lefts(solver, sp, L, M, solver.eigenvalues, np.arange(k), solver.eigenvectors, ctx, what, 'sparse')
    # Eigenmodes as states, put through the operators of the equations
    if solver.problem.dtype == np.complex128:
        solver.solve_dense(sp) if rng.random() < 0.5 else None
        ev = solver.eigenvalues
        ok = np.where(np.isfinite(ev) & (np.abs(ev) < 1e5))[0]
        for i in rng.permutation(ok)[:states]:
            j = int(rng.integers(len(sp.subsystems)))
            for v in solver.state:
                if rng.random() < 0.3:
                    v.change_scales(float(rng.choice([1, 1.5])))
                    v['g']
            solver.set_state(int(i), sp.subsystems[j] if rng.random() < 0.5 else j)
            lam = solver.problem.eigenvalue['g'].ravel()[0] if solver.problem.eigenvalue['g'].size else ev[i]
            if lam != ev[i]:
                ctx.violation('eigenvalue-field', f"the eigenvalue field holds {lam} after selecting {ev[i]}")
            cols = np.concatenate([v['c'][sp.subsystems[j].field_slices(v)].ravel() for v in solver.state])
            vec = solver.eigenvectors[:, i]
            ctx.close(cols, vec, 1e-14, 'set_state', f"{what}: state after set_state({i}, {j})", scale=np.max(np.abs(vec)))
            total = np.sqrt(sum(np.sum(np.abs(v['c'])**2) for v in solver.state))
            if abs(total - np.linalg.norm(vec)) > 1e-12*total:
                ctx.violation('set_state', f"{what}: modes outside the subsystem are not zero after set_state")
            for v in solver.state:
                v.change_scales(1)
            tail = 0
            if ncc:
                for v in solver.state:
                    if v.domain.bases and not (v.name or 'u').startswith('t'):
                        tail = max(tail, np.max(np.abs(v['c'][..., -5:]))) if v['c'].size else tail
                if tail > 1e-12*np.max(np.abs(vec)):
                    continue
            res = residual_fields(solver, ev[i])
            col = np.concatenate([r[sp.subsystems[j].field_slices(f)].ravel() for r, f in zip(res, [e['L'] if e['L'] else e['M'] for e in solver.problem.equations])])
            r = sp.pre_left @ col
            xx = sp.pre_right_pinv @ vec
            s = (nl[0] + abs(ev[i])*nl[1])*np.linalg.norm(xx)
            ctx.count('states'), ctx.count('comparisons')
            if not np.linalg.norm(r) <= 1e-8*s:
                ctx.violation('state-residual', f"{what}: the operators of the equations leave {np.linalg.norm(r)/s:.2e} on the mode with eigenvalue {ev[i]}")


def spread(ev, target, k):
    o = ev[np.argsort(np.abs(ev - target))][:k+2]
    d = np.abs(o[:, None] - o[None, :]) + 1e300*np.eye(len(o))
    return d.min()


def lefts(solver, sp, L, M, ev, ok, X, ctx, what, how):
    W = solver.left_eigenvectors
    w = sp.pre_left_pinv.conj().T @ W
    nl = np.linalg.norm(L, 2), np.linalg.norm(M, 2)
    o = ev[ok]
    for i in ok:
        gap = np.min(np.abs(np.delete(o, np.where(ok == i)[0][0]) - ev[i]), initial=np.inf)
        x = sp.pre_right_pinv @ X[:, i]
        nrm = np.abs(w[:, i].conj() @ M @ x)
        if not np.all(np.isfinite(w[:, i])):
            continue
        r = w[:, i].conj() @ (L + ev[i]*M)
        s = (nl[0] + abs(ev[i])*nl[1])*np.linalg.norm(w[:, i])
        ctx.count('left')
        if not np.linalg.norm(r) <= 1e-7*s:
            ctx.violation(f"left-{how}", f"{what}: left vector of eigenvalue {ev[i]} leaves a residual of {np.linalg.norm(r)/s:.2e}")
        cond = np.linalg.norm(w[:, i])*np.linalg.norm(x)*nl[1]      # eigenvalue condition number once normalized
        if gap < 1e-3*abs(ev[i]) + 1e-6 or cond > 1e6 or gap < 1e-10*cond*(nl[0] + abs(ev[i])*nl[1]):
            continue
        one = solver.modified_left_eigenvectors[:, i].conj() @ X[:, i]
        if abs(one - 1) > 1e-6:
            ctx.violation(f"normalization-{how}", f"{what}: modified left and right vectors of eigenvalue {ev[i]} have product {one}")
        # the left vectors themselves have the same normalization
        one = w[:, i].conj() @ M @ x
        if abs(one - 1) > 1e-6:
            ctx.violation(f"normalization-{how}", f"{what}: left vector, mass matrix and right vector of eigenvalue {ev[i]} have product {one}")
        for k in ok:
            if k != i and abs(ev[k] - ev[i]) > 0.05*(abs(ev[i]) + abs(ev[k])):
                p = solver.modified_left_eigenvectors[:, i].conj() @ X[:, k]
                lim = 1e-6*max(1, np.linalg.norm(solver.modified_left_eigenvectors[:, i])*np.linalg.norm(X[:, k]))
                if abs(p) > lim:
                    ctx.violation(f"biorthogonality-{how}", f"{what}: modified left vector of {ev[i]} and right vector of {ev[k]} have product {p}")
                    break


def nyquist(solver, sp):
    """Highest complex Fourier modes (dropped by products on the grid)."""
    for ax, g in enumerate(sp.group):
        for v in solver.state:
            b = v.domain.get_basis(ax)
            if type(b).__name__ == 'ComplexFourier' and g == b.size//2:
                return True
            if type(b).__name__ == 'BallBasis' and ax == 1 and g is not None and g >= b.Lmax - 1:
                return True         # (products with vectors move angular modes)
    return False


def run_cat(case, ctx):
    rng = ctx.rng()
    fam = case['spec']['fam']
    P = probs.build(case['spec'])
    solver = P.evp().build_solver(**P.solver_kw)
    ncc = 'ncc' in probs.FAMILIES[fam]['caps'] or fam == 'shellconv'
    sps = [solver.subproblems[i] for i in rng.permutation(len(solver.subproblems))[:3 if ctx.tier == 'quick' else 8]]
    for sp in sps:
        solver.build_matrices([sp], ['M', 'L'])
        if 0 < sp.L_min.shape[0] < 260:
            check_pairs(solver, sp, ctx, rng, ncc=ncc, states=0 if nyquist(solver, sp) else 3)
            ctx.state(fam, case['spec']['real'], sp.L_min.shape[0])
    # Coefficients that change
    if 'n0' in P.ns and sps:
        sp = sps[0]
        solver.solve_dense(sp)
        e0 = np.sort_complex(finite(solver.eigenvalues, 1e4))
        n0 = P.ns['n0']
        n0['g'] *= 2
        solver.solve_dense(sp)
        e1 = np.sort_complex(finite(solver.eigenvalues, 1e4))
        if len(e0) != len(e1) or np.max(np.abs(e0-e1), initial=0) > 1e-9*np.max(np.abs(e0)):
            ctx.violation('stale', f"{fam}: eigenvalues changed without rebuilding the matrices")
        solver.solve_dense(sp, rebuild_matrices=True)
        e2 = np.sort_complex(finite(solver.eigenvalues, 1e4))
        Q = probs.build(case['spec'])
        Q.ns['n0']['g'] *= 2
        s2 = Q.evp().build_solver(**Q.solver_kw)
        s2.solve_dense([x for x in s2.subproblems if x.group == sp.group][0])
        e3 = np.sort_complex(finite(s2.eigenvalues, 1e4))
        ctx.count('rebuild')
        k = min(len(e2), len(e3))
        low = lambda e: np.sort(np.abs(e))[:max(k//4, 1)]
        if np.max(np.abs(low(e2) - low(e3)), initial=0) > 1e-6*np.max(low(e3), initial=1e-3) or (len(e0) == len(e2) and np.max(np.abs(e0 - e2)) < 1e-12):
            ctx.violation('rebuild', f"{fam}: rebuilt eigenvalues differ from those of a problem set up with the new coefficient")
        # The same through the sparse solver
        n0['g'] *= 1.5
        Q.ns['n0']['g'] *= 1.5
        qs = [x for x in s2.subproblems if x.group == sp.group][0]
        s2.build_matrices([qs], ['M', 'L'])
        L, M = qs.L_min.toarray(), qs.M_min.toarray()
        ok = np.abs(e3) < 1e3
        if L.shape[0] > 14 and np.sum(ok) > 4:
            t0 = e3[ok][np.argmin(np.abs(e3[ok]))]
            try:
                solver.solve_sparse(sp, 3, target=complex(t0)*1.1 + 0.01j, rebuild_matrices=True)
            except Exception as e:
                if type(e).__name__ != 'ArpackNoConvergence':
                    raise
                return
            x = qs.pre_right_pinv @ solver.eigenvectors
            for i, e in enumerate(solver.eigenvalues):
                r = np.linalg.norm((L + e*M) @ x[:, i])/((np.linalg.norm(L, 2) + abs(e)*np.linalg.norm(M, 2))*np.linalg.norm(x[:, i]))
                ctx.count('sparse_rebuild')
                if not r <= 1e-8:
                    ctx.violation('rebuild-sparse', f"{fam}: eigenvalue {e} found by the sparse solver after rebuilding leaves {r:.2e} in the matrices of a problem set up with the new coefficient")


# Linearizations of initial value problems

def run_linear(case, ctx):
    import dedalus.public as d3
    rng = ctx.rng()
    what, real = case['what'], case['real']
    dt = np.float64 if real else np.complex128
    F1 = d3.RealFourier if real else d3.ComplexFourier
    c1, c2, c3 = [float(x) for x in np.round(rng.uniform(0.2, 1.2, 3), 3)]
    ns = dict(c1=c1, c2=c2, c3=c3, lap=d3.lap, grad=d3.grad, div=d3.div, integ=d3.integ, sin=np.sin, exp=np.exp)
    kw = {}
    bgs = None
    if what in ('burgers', 'channel', 'ks2'):
        D = 1 if what == 'burgers' else 2
        cs = d3.CartesianCoordinates(*'xz'[2-D:])
        dist = d3.Distributor(cs, dtype=dt)
        if what == 'burgers':
            z = cs['z']
            B = d3.ChebyshevT(z, 20, bounds=(0, 1.5), dealias=2)
            u, v, t1, t2 = dist.Field(name='u', bases=B), dist.Field(name='v', bases=B), dist.Field(name='t1'), dist.Field(name='t2')
            vs = [u, v, t1, t2]
            ns.update(dz=lambda A: d3.Differentiate(A, z), lift=lambda A, n: d3.Lift(A, B.derivative_basis(2), n))
            eqs = [("dt(u) - c1*dz(dz(u)) + lift(t1,-1) + lift(t2,-2) = - u*dz(u) + c2*v**2 + f", None), ("v - c3*u = 0.3*u**2", None), ("u(z=0) = 0.2", None), ("u(z=1.5) + c3*dz(u)(z=1.5) = 1 + u(z=1.5)**2", None)]
            f = ns['f'] = dist.Field(name='f', bases=B)
            f['g'] = 0.4
            bgb = {'u': B, 'v': B, 't1': None, 't2': None}
        elif what == 'ks2':
            x, z = cs.coords
            Bx, Bz = F1(x, 8, bounds=(0, 3), dealias=2), F1(z, 8, bounds=(0, 2), dealias=2)
            p, u = dist.Field(name='p', bases=(Bx, Bz)), dist.VectorField(cs, name='u', bases=(Bx, Bz))
            vs = [p, u]
            eqs = [("dt(u) - c1*lap(u) + grad(p) = - u@grad(u) + c2*u", None), ("div(u) = 0", "nx != 0"), ("p = 0", "nx == 0"), ] if False else [("dt(u) - c1*lap(u) + grad(p) = - u@grad(u) + c2*u", None), ("dt(p) + c3*div(u) = 0.3*p**2 - div(p*u)", None)]
            bgb = {'p': Bz, 'u': Bz}
        else:
            x, z = cs.coords
            Bx, Bz = F1(x, 8, bounds=(0, 3)), d3.ChebyshevT(z, 14, bounds=(0, 1), dealias=2)
            B = (Bx, Bz)
            b, u, t1, t2, s1, s2 = dist.Field(name='b', bases=B), dist.VectorField(cs, name='u', bases=B), dist.VectorField(cs, name='t1', bases=Bx), dist.VectorField(cs, name='t2', bases=Bx), dist.Field(name='s1', bases=Bx), dist.Field(name='s2', bases=Bx)
            vs = [b, u, t1, t2, s1, s2]
            ns.update(lift=lambda A, n: d3.Lift(A, Bz.derivative_basis(2), n))
            eqs = [("dt(u) - c1*lap(u) + lift(t1,-1) + lift(t2,-2) = - u@grad(u) + c2*b*u", None), ("dt(b) - c3*lap(b) + lift(s1,-1) + lift(s2,-2) = - u@grad(b) + b**2", None), ("u(z=0) = 0", None), ("u(z=1) = 0", None), ("b(z=0) = 1", None), ("b(z=1) = 0", None)]
            bgb = {'b': Bz, 'u': Bz}
    elif what == 'diskrd':
        cs = d3.PolarCoordinates('phi', 'r')
        dist = d3.Distributor(cs, dtype=dt)
        B = d3.DiskBasis(cs, shape=(8, 10), radius=1.2, dealias=2, dtype=dt)
        u, v, t1, t2 = dist.Field(name='u', bases=B), dist.Field(name='v', bases=B), dist.Field(name='t1', bases=B.edge), dist.Field(name='t2', bases=B.edge)
        vs = [u, v, t1, t2]
        ns.update(lift=lambda A: d3.Lift(A, B, -1))
        eqs = [("dt(u) - c1*lap(u) + lift(t1) = u**2*v - c2*u", None), ("dt(v) - c3*lap(v) + lift(t2) = - u**2*v + 1", None), ("u(r=1.2) = 1", None), ("v(r=1.2) = 0", None)]
        bgb = {'u': B.radial_basis, 'v': B.radial_basis}
    elif what == 'sphererd':
        cs = d3.S2Coordinates('phi', 'theta')
        dist = d3.Distributor(cs, dtype=dt)
        B = d3.SphereBasis(cs, (8, 6), radius=1.2, dealias=2, dtype=dt)
        u, v = dist.Field(name='u', bases=B), dist.Field(name='v', bases=B)
        vs = [u, v]
        eqs = [("dt(u) - c1*lap(u) = u**2*v - c2*u", None), ("dt(v) - c3*lap(v) = - u**2*v + 1", None)]
        bgb = {'u': None, 'v': None}
    else:
        cs = d3.SphericalCoordinates('phi', 'theta', 'r')
        dist = d3.Distributor(cs, dtype=dt)
        B = d3.BallBasis(cs, shape=(4, 4, 8), radius=1., dealias=2, dtype=dt)
        u, v, t1, t2 = dist.Field(name='u', bases=B), dist.Field(name='v', bases=B), dist.Field(name='t1', bases=B.surface), dist.Field(name='t2', bases=B.surface)
        vs = [u, v, t1, t2]
        ns.update(lift=lambda A: d3.Lift(A, B, -1))
        eqs = [("dt(u) - c1*lap(u) + lift(t1) = u**2*v - c2*u", None), ("dt(v) - c3*lap(v) + lift(t2) = - u**2*v + 1", None), ("u(r=1) = 1", None), ("v(r=1) = 0", None)]
        bgb = {'u': B.radial_basis, 'v': B.radial_basis}
    ns.update({w.name: w for w in vs})
    ivp = d3.IVP(vs, namespace=ns)
    for t, cond in eqs:
        ivp.add_equation(t)
    # Background: given fields, or the variables themselves where nothing varies along separable directions
    own = what == 'burgers' and rng.random() < 0.5
    bg = []
    for w in vs:
        bb = bgb.get(w.name)
        h = w if own else (dist.TensorField(w.tensorsig, name=w.name+'0', bases=bb) if w.tensorsig else dist.Field(name=w.name+'0', bases=bb))
        if h.domain.bases or not w.name.startswith(('t', 's')):
            if h.domain.bases:
                h.fill_random('g', seed=int(rng.integers(1 << 30)))
                h.low_pass_filter(scales=0.3)
                h['c'] *= 0.3/max(np.max(np.abs(h['c'])), 1e-3)
            else:
                h['g'] = rng.normal(size=h['g'].shape)
        bg.append(h)
    ek = dict(backgrounds=None if own and rng.random() < 0.5 else bg)
    if rng.random() < 0.4:
        ek['eigenvalue'] = dist.Field(name='mu')
    if rng.random() < 0.4:
        ek['perturbations'] = [w.copy() for w in vs]
    evp = ivp.build_EVP(**ek)
    lamf = evp.eigenvalue
    solver = evp.build_solver(**kw)
    pert = evp.variables
    full = []
    for w, h in zip(vs, bg):
        H = h
        if what == 'ballrd' and h is not w and h.domain.bases:      # (sums of radial and full fields are not supported)
            H = dist.Field(name=h.name+'f', bases=B)
            h.change_scales(1)
            H['g'] = h['g']*np.ones_like(H['g'])
        full.append(H)
    # lam*M.X1 + L.X1 - F'(X0).X1 with centred differences of the texts
    for rep in range(4):
        dirs = {}
        for w, q in zip(vs, pert):
            q.change_scales(1)
            q.fill_random('c', seed=int(rng.integers(1 << 30)))
            if q.domain.bases:
                q.low_pass_filter(scales=0.4)
                q['g'], q['c']
            dirs[w.name] = q
        eps = 1e-5

        def at(e, side):
            vals = dict(ns)
            for w, h, q in zip(vs, full, pert):
                vals[w.name] = h + e*q if e else h
            t = 'dt'
            return vals
        for eq, (text, _), ieq in zip(evp.equations, eqs, ivp.equations):
            lhs, rhs = text.split(' = ')
            F = []
            for s in (1, -1):
                vals = at(s*eps, None)
                vals['dt'] = lambda A: 0
                F.append(eval(rhs, vals))
            def field(e):
                if not hasattr(e, 'evaluate'):
                    return None
                f = e.evaluate().copy()
                f.change_scales(1)
                return f
            fp, fm = field(F[0]), field(F[1])
            vals = dict(ns, **{w.name: q for w, q in zip(vs, pert)})
            lin = field(eval(lhs, dict(vals, dt=lambda A: 0*A)))
            mass = field(eval(lhs, dict(vals, dt=lambda A: A)))
            want = lin['c'] if lin is not None else 0
            tshape = ieq['domain']
            dF = (fp['g'] - fm['g'])/(2*eps) if fp is not None else 0
            wantg = lin['g'] - dF
            got = field(eq['L'])
            wg = wantg
            gg = got['g']
            sc = max(np.max(np.abs(wg)), np.max(np.abs(lin['g'])), 1e-3)
            ctx.count('linearized')
            ctx.close(gg*np.ones_like(wg), wg*np.ones_like(gg), 2e-7, f"linear:{what}", f"linearized left-hand side of '{text}'", scale=sc)
            gm = field(eq['M'])
            mg = mass['g'] - lin['g']
            ctx.close((gm['g'] if gm is not None else 0)*np.ones_like(mg), mg, 1e-9, f"mass:{what}", f"eigenvalue term of '{text}'", scale=max(np.max(np.abs(mass['g'])), 1e-3))
        ctx.state(what, real, rep)
    # ... and its spectrum solves those equations
    sp = solver.subproblems[int(rng.integers(len(solver.subproblems)))]
    solver.build_matrices([sp], ['M', 'L'])
    if 0 < sp.L_min.shape[0] < 260:
        check_pairs(solver, sp, ctx, rng, ncc=True, states=0 if nyquist(solver, sp) else 3)
