"""P07: subproblem matrices act exactly as the expressions they represent."""
import numpy as np
from scipy import sparse
import geoms as G
import linexpr as LX

RULE = ("A case is one random geometry with random scalar/vector/tensor variables, boundary (tau) variables and non-constant coefficients: random linear left-hand sides are given to a problem, "
        "its solver's subproblem matrices are applied to full-bandwidth random coefficients and compared, mode by mode, with the evaluated expression. "
        "Non-trivial if at least one subproblem block was compared.")
MIN = {'comparisons': 1500, 'equations': 300, 'ncc_equations': 80, 'lift_equations': 12, 'functionals': 40}
BUDGET = {'quick': 300, 'thorough': 2400}


def cases(tier, rng):
    out = []
    for i in range(5 if tier == 'quick' else 60):
        for geo in G.CART + G.CURV:
            if geo == 'cart3' and i % 2:
                continue
            out.append({'spec': G.random_spec(rng, geo, real=bool((i + len(out)) % 2), dealias=1.5 if geo in G.CART else 2, deg=3), 'i': i})
    return out


def shrink(spec):
    """Small enough for dense coupling along every axis."""
    s = dict(spec)
    if s['g'] in ('cart2', 'cart3'):
        for ax in s['axes']:
            ax['N'] = min(ax['N'], 12 if s['g'] == 'cart2' else 8)
        s['deg'] = [min(ax['N']-1, 3) if ax['b'] != 'F' else 0 for ax in s['axes']]
        s['kmax'] = [min((ax['N']-1)//2, 1) if ax['b'] == 'F' else 0 for ax in s['axes']]
    if s['g'] in ('annulus', 'shell', 'cyl_annulus'):
        s['shape'] = s['shape'][:-1] + [20]
    return s


def run(case, ctx):
    rng = ctx.rng()
    s = shrink(case['spec'])
    # Coefficients dependent on two coordinates of a shell (implemented for complex data)
    meridional = s['g'] == 'shell' and not s['real'] and rng.random() < 0.7
    if meridional:
        s['shape'] = [8, 12, 12]
    g = G.build(s)
    for rep in range(3):
        one(ctx, g, rng, meridional)


def unsupported(e):
    """Documented limits of the matrix assembly."""
    return isinstance(e, NotImplementedError) or 'not yet supported' in str(e)


def one(ctx, g, rng, meridional=False):
    import dedalus.public as d3
    has_ncc = (meridional or rng.random() < 0.75) and 'cyl' not in g.name
    lx = LX.Lin(g, rng, ncc=has_ncc, maxrank=2 if g.dim < 3 or g.name in ('ball', 'shell') else 1, nvars=2 if g.name == 'cart3' else 3, ncc_rank=2 if g.name in ('cart2', 'sphere', 'shell') else 1,
                taus='cyl' not in g.name)
    lx.meridional = meridional
    vars_ = lx.all_vars()
    exprs = []
    for k in range(5):
        rank = int(rng.integers(0, lx.maxrank+1))
        e = lx.gen(rank, depth=int(rng.integers(1, 4)))
        if rng.random() < 0.3:
            try:
                r = lx.reduce(e)
            except NotImplementedError:
                r = None
            if r is not None:
                e = r
                ctx.count('functionals')
        exprs.append(e)
    # Every equation on its own: a rejected one does not hide the others
    for e in exprs:
        problem = d3.LBVP(vars_)
        try:
            problem.add_equation((e, 0))
        except NotImplementedError:
            ctx.count('unsupported')
            continue
        depth = LX.ncc_depth(e, [f for f, r in lx.nccs])
        ann = g.name in ('annulus', 'shell', 'cyl_annulus') and (LX.deriv_depth(e) > 1 or 'C(' in str(problem.equations[0]['L']))
        lx.randomize(max(depth, int(ann)), lifts_too=depth > 0)
        check(ctx, g, problem, lx, rng)


def check(ctx, g, problem, lx, rng):
    import dedalus.public as d3
    eq = problem.equations[0]
    L = eq['L']
    kw = dict(ncc_cutoff=1e-14, max_ncc_terms=None)
    coupling = None
    if rng.random() < 0.15:
        coupling = tuple(np.array(problem.matrix_coupling) | (rng.random(g.dim) < 0.4) | (np.arange(g.dim) == g.dim-1))
        if g.name not in G.CART:
            coupling = None
    try:
        solver = problem.build_solver(matrix_coupling=coupling, ncc_cutoff=1e-14)
    except ValueError as e:
        if 'Incompatible group distributions' not in str(e):    # variables constant along different separable axes
            raise
        ctx.count('unsupported')
        return
    L.gather_ncc_coeffs()
    x = [v for v in problem.variables]
    for v in x:
        v.require_coeff_space()
        v.change_scales(1)
    data = {v: np.array(v['c']) for v in x}
    try:
        mats = [sp_mats(L, sp, problem.variables, kw) for sp in solver.subproblems]
    except NotImplementedError as e:
        ctx.count('unsupported')
        return
    except ValueError as e:
        if 'not yet supported' in str(e) or 'only implemented' in str(e):
            ctx.count('unsupported')
            return
        raise
    out = L.evaluate()
    want_full = np.array(out['c'])
    text = str(eq['LHS'])
    ctx.count('equations')
    if any(str(f) in text for f, r in lx.nccs):
        ctx.count('ncc_equations')
        ctx.count('meridional_ncc', int(lx.meridional))
    if 'Lift' in text:
        ctx.count('lift_equations')
    scale = max(np.abs(want_full).max(), max(np.abs(d).max() for d in data.values()), 1e-10)
    # cancellation: compare relative to the size of the intermediate terms
    for sp, m in zip(solver.subproblems, mats):
        for ss in sp.subsystems:
            size = ss.field_size(out)
            if not size:
                continue
            got = 0
            mag = 0
            for v, A in m.items():
                if ss.field_size(v):
                    xv = data[v][ss.field_slices(v)].ravel()
                    if A.shape != (size, xv.size):
                        ctx.violation(f'matrix-shape:{g.name}', f'{A.shape} for {size} x {xv.size}: {text[:300]}')
                        return
                    got = got + A @ xv
                    mag = max(mag, abs(A).sum(axis=1).max()*np.abs(xv).max() if A.nnz else 0)
            want = want_full[ss.field_slices(out)].ravel()
            valid = eq['valid_modes'][ss.field_slices(out)].ravel()
            got = np.broadcast_to(got, want.shape)
            ctx.state(g.name, g.spec['real'], text[:80])
            ok = ctx.close(got[valid], want[valid], 1e-9 if 'ann' not in g.name and g.name != 'shell' else 3e-9, f'matrix:{g.name}', f'group {sp.group} of {text[:400]}', scale=max(scale, mag))
            if not ok:
                return


def sp_mats(L, sp, vars_, kw):
    return {v: sparse.csr_matrix(m) for v, m in L.expression_matrices(subproblem=sp, vars=vars_, **kw).items()}
