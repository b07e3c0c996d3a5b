"""P23: matrix solvers, matrix options and libraries do not change the answer."""
import os
import numpy as np
import harness
import probs
import p17

RULE = ("A case is a problem of the catalogue solved as initial-value, linear, nonlinear and eigenvalue problem by twins that differ only in options: every usable matrix solver, boundary-row and tau-column placement, component interleaving, stored "
        "expanded matrices, entry cutoffs, extra matrix coupling, transform libraries and configuration-file settings (in separate serial or parallel executions). All results are compared with those of the defaults, and the matrices are compared after "
        "undoing the permutations. Non-trivial if results were compared.")
MIN = {'comparisons': 3000, 'option_sets': 100, 'ivps': 80, 'lbvps': 80, 'nlbvps': 15, 'evps': 60, 'matrices': 500, 'config_runs': 30}
BUDGET = {'quick': 300, 'thorough': 2000}
CASE_S = 100
MATSOLVERS = ['SuperluNaturalSpsolve', 'SuperluColamdSpsolve', 'SuperluNaturalFactorized', 'SuperluNaturalFactorizedTranspose', 'SuperluColamdFactorized', 'SuperluColamdFactorizedTranspose', 'ScipyBanded', 'SparseInverse', 'DenseInverse', 'ScipyDenseLU']
SCHEMES = ['RK222', 'SBDF2', 'RK443', 'CNAB2', 'SBDF3', 'MCNAB2', 'RKSMR', 'SBDF1', 'RK111', 'CNLF2', 'SBDF4', 'RKGFY']
CONFIG = {'transforms': {'GROUP_TRANSFORMS': ['True', 'False'], 'DEFAULT_LIBRARY': ['fftw', 'scipy']},
          'transforms-fftw': {'PLANNING_RIGOR': ['estimate', 'measure']},
          'parallelism': {'TRANSPOSE_LIBRARY': ['fftw', 'mpi'], 'SYNC_TRANSPOSES': ['True', 'False'], 'GROUP_TRANSPOSES': ['True', 'False']},
          'parallelism-fftw': {'IN_PLACE': ['True', 'False'], 'PLANNING_RIGOR': ['estimate', 'measure']},
          'parallelism-mpi': {'ALLTOALLV': ['True', 'False']},
          'matrix construction': {'BC_TOP': ['True', 'False'], 'TAU_LEFT': ['True', 'False'], 'INTERLEAVE_COMPONENTS': ['True', 'False'], 'STORE_EXPANDED_MATRICES': ['True', 'False']},
          'linear algebra': {'MATRIX_SOLVER': MATSOLVERS, 'MATRIX_FACTORIZER': MATSOLVERS, 'SPLIT_CSR_MATVECS': ['True', 'False'], 'OLD_CSR_MATVECS': ['True', 'False']},
          'memory': {'STORE_OUTPUTS': ['True', 'False'], 'STORE_LAST_DEFAULT': ['True', 'False']}}


def cases(tier, rng):
    out = []
    fams = probs.names()
    quick = tier == 'quick'
    for i in range(1 if quick else 8):
        for k, f in enumerate(fams):
            for real in (True, False):
                out.append({'kind': 'options', 'spec': probs.random_spec(rng, f, small=True, real=real), 'i': i, 'sets': 7 if quick else 10})
    for i in range(1 if quick else 8):
        for k, f in enumerate(fams):
            s = probs.random_spec(rng, f, small=True, real=bool((i + k + int(rng.integers(2))) % 2))
            n = 1 if f in ('ode', 'kdv', 'cheb') else [1, 2, 4][int(rng.integers(3))]
            out.append({'kind': 'config', 'spec': s, 'i': i, 'n': n, 'sets': 3})
    out.append({'kind': 'broken'})
    return out


def run(case, ctx):
    {'options': options, 'config': config, 'broken': unusable}[case['kind']](case, ctx)


def tolerance(spec):
    return 1e-4 if spec['fam'] in ('annheat', 'shellconv') else 1e-7


def data(v):
    v.change_scales(1)
    return np.array(v['c'])


def evaluate(spec, kw, kinds, scheme, over, parts=None):
    """Results of one problem under the given options: {key: (arrays, sizes)}."""
    import dedalus.public as d3
    out = {}
    for kind in kinds:
        P = probs.build(spec, **over)
        skw = dict(P.solver_kw)
        skw.update(kw)
        if kind == 'ivp':
            P.set_initial()
            s = P.ivp().build_solver(getattr(d3, scheme), **skw)
            for k, dt in enumerate([0.003, 0.003, 0.002, 0.002]):
                s.step(dt)
                out['ivp', k] = {v.name: data(v) for v in P.vars}
        elif kind == 'lbvp':
            s = P.lbvp().build_solver(**skw)
            s.solve()
            out['lbvp', 0] = {v.name: data(v) for v in P.vars}
            for name in ('f', 'g'):
                if isinstance(P.ns.get(name), d3.Field):
                    P.ns[name]['g'] *= -0.3
            s.solve()
            out['lbvp', 1] = {v.name: data(v) for v in P.vars}
        elif kind == 'nlbvp':
            P.set_initial(0.2)
            skw['ncc_cutoff'] = 1e-12
            s = P.nlbvp().build_solver(**skw)
            for k in range(2):
                s.newton_iteration()
                out['nlbvp', k] = {v.name: data(v) for v in P.vars}
        elif kind == 'evp':
            s = P.evp().build_solver(**skw)
            s.build_matrices(matrices=['M', 'L'])
            for i, sp in enumerate(s.subproblems):
                # only the placement of rows and columns may depend on options
                L, M = [np.array((sp.pre_left.T @ getattr(sp, n + '_min') @ sp.pre_right.T).toarray()) for n in 'LM']
                out['matrix', i] = {'L': L, 'M': M}
            for i in (parts or (0,)):
                sp = s.subproblems[i % len(s.subproblems)]
                s.solve_dense(sp)
                ev = s.eigenvalues
                out['evp', i] = ev[np.isfinite(ev) & (np.abs(ev) < 1e6)]
                # some targeted eigenvalues, with the fields of one mode
                low = out['evp', i]
                if len(low) > 6:
                    low = low[np.argsort(np.abs(low))]
                    try:
                        s.solve_sparse(sp, 3, low[1]*1.001 + 0.001)
                        out['sparse', i] = np.array(s.eigenvalues)
                    except RuntimeError as e:
                        if 'singular' not in str(e).lower():
                            raise
    return out


def compare(ctx, what, got, want, spec, options):
    tol = tolerance(spec)
    for key in want:
        if key not in got:
            if key[0] != 'sparse':
                ctx.violation('missing', f"{what}: no {key}")
            continue
        a, b = got[key], want[key]
        if key[0] in ('ivp', 'lbvp', 'nlbvp'):
            size = max([np.max(np.abs(x), initial=0) for x in b.values()] + [1e-12])
            if not np.isfinite(size) or size > 1e6:
                continue
            t = max(tol, 1e-5) if key[0] == 'nlbvp' else tol
            for v in b:
                err = np.max(np.abs(a[v] - b[v]), initial=0)
                ctx.count('comparisons')
                ctx.require(err <= (1e-2 if 'tau' in v else t)*size, key[0], f"{what}: {key}: {v} off by {err:.3g} (size {size:.3g}) from the result of the default options")
        elif key[0] == 'matrix':
            for nm in b:
                size = max(np.max(np.abs(b[nm]), initial=0), 1e-12)
                ok = a[nm].shape == b[nm].shape and np.max(np.abs(a[nm] - b[nm]), initial=0) <= 1e-9*size
                ctx.count('comparisons')
                ctx.count('matrices')
                ctx.require(ok, 'matrix', f"{what}: {nm} of subproblem {key[1]} is not a permutation of the default matrix")
        elif key[0] == 'evp':
            low = b[np.argsort(np.abs(b))][:5]
            for x in low:
                e = np.min(np.abs(a - x)) if len(a) else np.inf
                ctx.count('comparisons')
                ctx.require(e <= 1e-4*max(abs(x), 1e-2), 'eigenvalues', f"{what}: eigenvalue {x} of the default options is missed by {e:.3g}")
        elif key[0] == 'sparse':
            full = want['evp', key[1]]
            for x in a:
                e = np.min(np.abs(full - x))
                ctx.count('comparisons')
                ctx.require(e <= 1e-4*max(abs(x), 1e-2), 'eigenvalues', f"{what}: targeted eigenvalue {x} is {e:.3g} away from the spectrum")


def kinds_of(spec):
    caps = probs.FAMILIES[spec['fam']]['caps']
    out = [k for k in ('ivp', 'lbvp', 'evp') if k in caps]
    if probs.FAMILIES[spec['fam']]['dim'] == 1 and 'lbvp' in caps:
        out.append('nlbvp')
    return out


def random_options(rng, spec, dim):
    kw = {}
    for o in ('bc_top', 'tau_left', 'interleave_components', 'store_expanded_matrices'):
        if rng.random() < 0.6:
            kw[o] = bool(rng.integers(2))
    if rng.random() < 0.7:
        kw['matsolver'] = MATSOLVERS[int(rng.integers(len(MATSOLVERS)))]
    r = rng.random()
    if r < 0.2:
        kw['entry_cutoff'] = 0
    elif r < 0.4:
        kw['entry_cutoff'] = 1e-14
    if rng.random() < 0.2:
        kw['max_ncc_terms'] = 64
    return kw


def options(case, ctx):
    from dedalus.libraries.matsolvers import matsolvers
    import dedalus.public as d3
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    kinds = kinds_of(spec)
    scheme = SCHEMES[int(rng.integers(len(SCHEMES)))]
    parts = sorted({0, int(rng.integers(6))})
    base = evaluate(spec, {}, kinds, scheme, {}, parts)
    fam = probs.FAMILIES[spec['fam']]
    for j in range(case['sets']):
        kw = random_options(rng, spec, fam['dim'])
        if 'matsolver' in kw and rng.random() < 0.3:
            # solver classes, the user's own included
            kw['matsolver'] = own_solver(matsolvers[kw['matsolver'].lower()], rng)
        over = {}
        if rng.random() < 0.6:
            over['library'] = ['scipy', 'fftw', 'matrix'][int(rng.integers(3))]
        if fam['dim'] > 1 and fam['cs'] == 'cart' and spec['fam'] not in ('stokes2',) and 'nomesh' not in fam['caps'] and fam['dim'] == 2 and rng.random() < 0.3:
            kw['matrix_coupling'] = [True, True]
        pick = [k for k in kinds if rng.random() < 0.75] or kinds[:1]
        if 'matrix_coupling' in kw:
            pick = [k for k in pick if k != 'evp'] or ['ivp']
        what = f"{spec['fam']} ({'real' if spec['real'] else 'complex'}), {scheme}, {kw}, {over}"
        got = evaluate(spec, kw, pick, scheme, over, parts)
        for k in pick:
            ctx.count(k + 's')
        ctx.count('option_sets')
        ctx.state(spec['fam'], *sorted(f'{a}={b}' for a, b in kw.items() if a != 'matsolver'), str(kw.get('matsolver'))[:40], str(over))
        compare(ctx, what, got, {k: v for k, v in base.items() if k[0] in pick or (k[0] in ('matrix', 'sparse') and 'evp' in pick)}, spec, kw)


def own_solver(base, rng):
    """A user's solver class asking for options of its own."""
    class Own(base):
        config = [{}, {'bc_top': True}, {'bc_top': True, 'tau_left': True}, {'interleave_components': True}][int(rng.integers(4))]
    return Own


def config(case, ctx):
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    kinds = [k for k in kinds_of(spec) if k in ('ivp', 'lbvp')]
    scheme = SCHEMES[int(rng.integers(len(SCHEMES)))]
    def once(settings, n):
        res = ctx.mpirun(n, 'ranks', {'spec': spec, 'settings': settings, 'kinds': kinds, 'scheme': scheme}, timeout=100, hang='P23')
        return res and res[0]
    base = once({}, case['n'])
    if base is None:
        return
    for j in range(case['sets']):
        settings = {}
        for sec, d in CONFIG.items():
            for k, vals in d.items():
                if rng.random() < 0.5:
                    settings[f'{sec}|{k}'] = vals[int(rng.integers(len(vals)))]
        got = once(settings, case['n'])
        if got is None:
            return
        ctx.count('config_runs')
        for k, v in settings.items():
            ctx.state('config', k, v)
        compare(ctx, f"{spec['fam']} ({'real' if spec['real'] else 'complex'}) on {case['n']} processes, {scheme}, {settings}", got, base, spec, settings)


def ranks(comm, p, outdir):
    import warnings
    warnings.simplefilter('ignore')
    from dedalus.tools.config import config as cfg
    for k, v in p['settings'].items():
        sec, key = k.split('|')
        cfg[sec][key] = v
    import dedalus.public as d3
    spec = p['spec']
    out = {}
    for kind in p['kinds']:
        P = probs.build(spec, comm, None if comm.size == 1 else (comm.size,))
        def snap():
            r = {}
            for v in P.vars:
                v.change_scales(1)
                r[v.name] = v.allgather_data(layout='g')
            return r
        if kind == 'ivp':
            P.set_initial()
            s = P.ivp().build_solver(getattr(d3, p['scheme']), **P.solver_kw)
            for k, dt in enumerate([0.003, 0.003, 0.002, 0.002]):
                s.step(dt)
                out['ivp', k] = snap()
        else:
            s = P.lbvp().build_solver(**P.solver_kw)
            for k in range(2):
                s.solve()
                out['lbvp', k] = snap()
    return out if comm.rank == 0 else True


def unusable(case, ctx):
    """Every listed solver on one small problem: it solves it, or needs a package that is not installed."""
    from dedalus.libraries.matsolvers import matsolvers
    rng = ctx.rng(1)
    spec = probs.random_spec(rng, 'cheb', small=True, real=True)
    spec2 = probs.random_spec(rng, 'waves3', small=True, real=True)
    base = {s['fam']: evaluate(s, {}, ['lbvp', 'ivp'] if s is spec else ['ivp'], 'RK222', {}) for s in (spec, spec2)}
    for name in sorted(matsolvers):
        if name.endswith('dummysolver'):
            continue
        s = spec2 if name == 'blockinverse' else spec
        ctx.count('listed_solvers')
        ctx.state('listed', name)
        try:
            got = evaluate(s, {'matsolver': name}, ['lbvp', 'ivp'] if s is spec else ['ivp'], 'RK222', {})
        except ImportError as e:
            if (e.name or '').startswith('dedalus'):
                ctx.violation(f'{name}-unusable', f"matsolver {name!r} cannot be used: {type(e).__name__}: {e}")
            continue      # optional packages (umfpack, sparseqr, pybanded)
        except Exception as e:
            kind = 'woodbury-unusable' if name.startswith('woodbury') else f'{name}-unusable'
            ctx.violation(kind, f"matsolver {name!r} cannot be used: {type(e).__name__}: {e}")
            continue
        compare(ctx, f"{s['fam']} with {name}", got, base[s['fam']], s, {})
