"""P22: real and complex formulations agree."""
import numpy as np
import geoms as G
import harness
import exprs as X
import probs
from p04 import twin_bases

RULE = ("A case builds one geometry with real and with complex data types: (a) the same random real expression trees (and random noise taken through layouts, scales and filters) evaluated in both and compared on grids; (b) the same problem of the catalogue posed "
        "in both types as initial-value (several schemes), linear, nonlinear and eigenvalue problem: states compared after every step, spectra of each real group with those of the complex groups it holds, and complex data in linear problems with two "
        "real solutions. The imaginary parts of complex twins are monitored. Non-trivial if values were compared.")
MIN = {'comparisons': 1500, 'expressions': 300, 'noise': 100, 'steps': 60, 'lbvps': 20, 'nlbvps': 6, 'eigenvalues': 100, 'imaginary_parts': 500, 'superpositions': 8}
BUDGET = {'quick': 250, 'thorough': 1800}
CASE_S = 100
GEOS = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus']
SCHEMES = ['RK222', 'SBDF2', 'RK443', 'CNAB2', 'SBDF3', 'MCNAB2', 'RKSMR', 'SBDF1', 'RK111', 'CNLF2', 'SBDF4', 'RKGFY']


def cases(tier, rng):
    out = []
    quick = tier == 'quick'
    for i in range(3 if quick else 24):
        for geo in GEOS:
            s = X.wide_spec(rng, geo, real=True, deg=3)
            if geo == 'ball':
                s['shape'][2] = max(s['shape'][2], s['shape'][1]//2 + 2)
            if 'dealias' in s:
                s['dealias'] = [max(1.25, x) for x in s['dealias']]
            out.append({'kind': 'expr', 'spec': s, 'i': i, 'trees': 15})
    for i in range(2 if quick else 16):
        for k, f in enumerate(probs.names()):
            out.append({'kind': 'prob', 'spec': probs.random_spec(rng, f, small=True, real=True), 'i': i, 'scheme': SCHEMES[int(rng.integers(len(SCHEMES)))]})
    return out


def run(case, ctx):
    {'expr': expressions, 'prob': problem}[case['kind']](case, ctx)


def complex_spec(s):
    c = dict(s, real=False)
    fix = lambda ax: dict(ax, lib=None) if ax.get('lib') in ('fftpack', 'fftw_hc') else ax
    if 'axes' in c:
        c['axes'] = [fix(a) for a in c['axes']]
    if 'z' in c:
        c['z'] = fix(c['z'])
    return c


def text(n):
    if n.leaf:
        return n.leaf.key
    import re
    t = n.fmts[0].format(*[f'({text(k)})' for k in n.kids])
    return re.sub(r'NUM<(.*?)>(?![\d])', r'(\1)', t)


def namespace(g):
    import dedalus.public as d3
    ns = {k: getattr(d3, k) for k in dir(d3) if not k.startswith('_')}
    ns.update(coords=g.coords, np=np)
    for c in g.coords:
        if g.name in G.CART:
            ns['d' + c.name] = lambda A, c=c: d3.Differentiate(A, c)
    return ns


def grid(f, g):
    full = g.dist.grid_layout.global_shape(f.domain, scales=g.dealias)
    f.change_scales(tuple(s if b is not None and full[i] > 1 else 1 for i, (s, b) in enumerate(zip(g.dealias, f.domain.full_bases))))
    return np.array(f['g'])


def agree(ctx, r, c, size, tol, mech, msg):
    if r.shape != c.shape:
        ctx.violation(mech, f"{msg}: shapes {r.shape} and {c.shape}")
        return
    err, im = np.max(np.abs(c.real - r), initial=0), np.max(np.abs(c.imag), initial=0)
    size = max(size, np.max(np.abs(r), initial=0), 1e-12)
    ctx.count('comparisons')
    ctx.count('imaginary_parts')
    ctx.require(err <= tol*size, mech, f"{msg}: complex formulation off by {err:.3g} (size {size:.3g})")
    ctx.require(im <= tol*size, mech + '-imag', f"{msg}: imaginary part {im:.3g} in the complex formulation of real data (size {size:.3g})")


def expressions(case, ctx):
    import dedalus.public as d3
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    g, h = G.build(spec), G.build(complex_spec(spec))
    B = X.Builder(g, rng, maxrank=2, complex_nums=False)
    tol = {'annulus': 2e-5, 'shell': 2e-5, 'cyl_annulus': 2e-5}.get(g.name, 1e-8)
    fields = {}
    ns = namespace(h)
    def twin(f):
        bs = twin_bases(g, h, f.domain.bases)
        return None if bs is None else h.dist.TensorField((h.cs,)*len(f.tensorsig), bases=bs)
    for j in range(case['trees']):
        n = B.gen(int(rng.integers(0, 3 if g.name != 'cart1' else 2)), depth=int(rng.integers(1, 5)))
        if not n.kids:
            continue
        skip = False
        for lf in B.leaves:
            if lf.key not in fields:
                fields[lf.key] = twin(lf.field)
            if fields[lf.key] is None:
                skip = skip or lf.key in n.leaves()
                continue
            f = fields[lf.key]
            axes = lf.axes
            sc = G.norm_scales(h, h.dealias)
            f.change_scales(sc)
            f['g'] = G.on_grid_sub(h, B.env[lf.key], sc, axes)
            ns[lf.key] = f
        if skip:
            continue
        r = n.expr.evaluate().copy()
        e = eval(text(n), ns)
        c = e.evaluate().copy()
        ctx.count('expressions')
        ctx.state(g.name, n.op, n.rank)
        nd = sum({'lap': 2, 'grad': 1, 'div': 1, 'curl': 1, 'deriv': 1}.get(k.op, 0) for k in n.nodes())
        size = n.size(g, B.env, scales=g.dealias)
        agree(ctx, grid(r, g), grid(c, h), size, tol*30**max(0, nd - 3), 'expression', f"{g.name}: {text(n)[:300]}")
        # through coefficients of the expression's own bases
        r['c'], c['c']
        agree(ctx, grid(r, g), grid(c, h), size, tol*30**max(0, nd - 3), 'expression', f"{g.name}: {text(n)[:300]} after coefficients")
    # Noise: the same projection on both
    for rank in range(0, 3 if g.D > 1 else 1):
        for rep in range(2):
            sc = tuple(float(x) for x in ([g.dealias, (1,)*g.dim, tuple(max(1, d) for d in g.dealias)][int(rng.integers(3))]))
            r = g.dist.TensorField((g.cs,)*rank, bases=g.bases)
            c = h.dist.TensorField((h.cs,)*rank, bases=h.bases)
            r.preset_scales(sc)
            c.preset_scales(sc)
            x = rng.standard_normal(r['g'].shape)
            r['g'], c['g'] = x, x
            if g.name in ('sphere', 'ball', 'shell'):
                # real spheres hold one degree less
                ls = tuple((spec['shape'][1] - 2)/spec['shape'][1] if a == 1 else 1 for a in range(g.dim))
                r.low_pass_filter(scales=ls)
                c.low_pass_filter(scales=ls)
            what = f"{g.name} rank {rank}: noise at scales {sc}"
            ctx.count('noise')
            if rng.random() < 0.5:
                r['c'], c['c']
                ops = 'projected'
            else:
                keep = tuple(float(v) for v in rng.choice([0.5, 0.75, 1], g.dim))
                r.low_pass_filter(scales=keep)
                c.low_pass_filter(scales=keep)
                ops = f'filtered to {keep}'
                if g.name not in G.CART:
                    r['c'], c['c']
            agree(ctx, grid(r, g), grid(c, h), 1, tol, 'noise', f"{what}, {ops}")
            if g.name not in ('disk_cyl',):
                a, b = d3.lap(r).evaluate(), d3.lap(c).evaluate()
                ra, rb = grid(a, g), grid(b, h)
                agree(ctx, ra, rb, np.max(np.abs(ra)), max(tol, 1e-7), 'noise', f"{what}, {ops}, laplacian")
    ctx.state(g.name, str(spec.get('shape')), str(spec.get('dealias')))


def values(P):
    out = {}
    sc = [1]*P.dist.dim
    if P.dist.dim > 1 and type(P.dist.coordsystems[0]).__name__ in ('S2Coordinates', 'SphericalCoordinates'):
        nt = max(v.domain.bases[0].shape[1] for v in P.vars if v.domain.bases)
        sc[1] = 2*(nt + (P.dist.dtype == np.complex128))/nt
    for v in P.vars:
        v.change_scales([a if b is not None else 1 for a, b in zip(sc, v.domain.full_bases)])
        out[v.name] = np.array(v['g'])
    return out


def problem(case, ctx):
    import dedalus.public as d3
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    cspec = dict(spec, real=False)
    fam = probs.FAMILIES[spec['fam']]
    caps = fam['caps']
    scheme = case['scheme']
    # real spheres hold one degree less
    over = {'theta': -1} if fam['cs'] in ('sphere', 'spherical') else {}
    name = spec['fam']
    tol = 1e-4 if name in ('annheat', 'shellconv') else 1e-7
    def compare(R, C, mech, msg, t=tol, slack=0):
        a, b = values(R), values(C)
        size = max(np.max(np.abs(x), initial=0) for x in a.values())
        if not np.isfinite(size) or size > 1e4:
            return
        for v in a:
            agree(ctx, a[v], b[v], size, (1e-2 if 'tau' in v else t) + slack/max(size, 1e-12), mech, f"{name}: {msg}: {v}")
    ctx.state(name, scheme)
    if 'ivp' in caps:
        R, C = probs.build(spec), probs.build(cspec, **over)
        for P in (R, C):
            P.set_initial()
            P.solver = P.ivp().build_solver(getattr(d3, scheme), **P.solver_kw)
        for k, dt in enumerate([0.003, 0.003, 0.004, 0.004, 0.002]):
            R.solver.step(dt)
            C.solver.step(dt)
            ctx.count('steps')
            compare(R, C, 'ivp', f"{scheme}, step {k+1}")
    if 'lbvp' in caps:
        R, C = probs.build(spec), probs.build(cspec, **over)
        def solve(P, k=None):
            if k is not None:
                for nm in ('f', 'g'):
                    if isinstance(P.ns.get(nm), d3.Field):
                        f = P.ns[nm]
                        base[P][nm] = base[P].get(nm, np.array(f['g']))
                        f['g'] = base[P][nm]*k
            P.solver.solve()
            return values(P)
        base = {R: {}, C: {}}
        for P in (R, C):
            P.solver = P.lbvp().build_solver(**P.solver_kw)
            solve(P)
        ctx.count('lbvps')
        compare(R, C, 'lbvp', 'linear solution')
        if any(isinstance(R.ns.get(nm), d3.Field) for nm in ('f', 'g')):
            one, zero, two = solve(R, 1.), solve(R, 0.), solve(R, -0.7)
            mix = solve(C, 1. + 0j)
            got = solve(C, 1 - 0.7j)
            for v in one:
                want = one[v] + 1j*(two[v] - zero[v])
                size = max(np.max(np.abs(x), initial=0) for x in one.values())
                ctx.count('superpositions')
                ctx.count('comparisons')
                err = np.max(np.abs(got[v] - want), initial=0)
                ctx.require(err <= (1e-2 if 'tau' in v else tol)*size, 'superposition', f"{name}: complex data: {v} off by {err:.3g} from the superposition of real solutions (size {size:.3g})")
    if 'lbvp' in caps and fam['dim'] == 1:
        R, C = probs.build(spec), probs.build(cspec, **over)
        for P in (R, C):
            P.set_initial(0.2)
            P.solver = P.nlbvp().build_solver(ncc_cutoff=1e-12, **P.solver_kw)
        for k in range(3):
            R.solver.newton_iteration()
            C.solver.newton_iteration()
            # the complex formulation also keeps the Nyquist mode: only differences above the last modes kept are meaningful
            tail = max(np.max(np.abs(np.ravel(v['c'])[len(np.ravel(v['c']))//2-2:len(np.ravel(v['c']))//2+3]), initial=0) for v in C.vars) if 'periodic' in caps else 0
            compare(R, C, 'nlbvp', f'Newton iteration {k+1}', 1e-6, 3*tail)
            ctx.count('nlbvps')
    if 'evp' in caps:
        R, C = probs.build(spec), probs.build(cspec, **over)
        for P in (R, C):
            P.solver = P.evp().build_solver(**P.solver_kw)
            P.solver.build_matrices(matrices=['M', 'L'])
        groups = {tuple(sp.group): sp for sp in C.solver.subproblems}
        sps = R.solver.subproblems
        for i in sorted({0, int(rng.integers(len(sps))), int(rng.integers(len(sps)))}):
            sp = sps[i]
            # the complex groups with the same |wavenumbers| of Fourier directions
            mates = [s for k, s in groups.items() if all((a is None) == (b is None) and (a is None or a == b or (fam['cs'] == 'cart' or j == 0) and a == -b) for j, (a, b) in enumerate(zip(sp.group, k)))]
            if not mates:
                continue
            R.solver.solve_dense(sp)
            a = R.solver.eigenvalues
            a = a[np.isfinite(a) & (np.abs(a) < 1e6)]
            bs = []
            for s in mates:
                C.solver.solve_dense(s)
                b = C.solver.eigenvalues
                bs.append(b[np.isfinite(b) & (np.abs(b) < 1e6)])
            b = np.concatenate(bs)
            what = f"{name}: group {sp.group}"
            ctx.state('group', name, str(sp.group))
            if not len(a) and not len(b):
                continue
            for x, others, lab in [(x, b, 'real') for x in a[np.argsort(np.abs(a))][:8]] + [(x, a, 'complex') for x in b[np.argsort(np.abs(b))][:8]]:
                e = np.min(np.abs(others - x)) if len(others) else np.inf
                ctx.count('eigenvalues')
                ctx.count('comparisons')
                ctx.require(e <= 1e-4*max(abs(x), 1e-2), 'eigenvalues', f"{what}: eigenvalue {x} of the {lab} formulation is {e:.3g} away from the spectrum of the other")
            # real problems have conjugate spectra
            for x in a[np.argsort(np.abs(a))][:8]:
                e = np.min(np.abs(a - np.conj(x)))
                ctx.count('comparisons')
                ctx.require(e <= 1e-4*max(abs(x), 1e-2), 'conjugates', f"{what}: eigenvalue {x} of the real formulation without its conjugate")
