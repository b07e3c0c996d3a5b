"""P21: seeded random fills do not depend on the distribution of work; low-pass filters keep exactly what they should."""
import numpy as np
import geoms as G
import harness
import exprs as X
from p17 import Report, meshes

RULE = ("(a) array: random-array objects are sliced every way they accept (ranges, negative and large steps, chunk sizes, all numpy distributions) against their own full contents, and the samples are tested against the distribution asked for; "
        "(b) fill: fields of every domain, rank and data type are filled on 1-8 processes and random meshes, in every layout and scale, with several distributions and chunk sizes; every rank's data are compared with a serial fill and the gathered values tested for "
        "repeats; (c) filter: low- and high-pass filters of noise, every mode compared with an independent statement of which modes a truncation of that size holds, in scales and shape form, repeated, and on several processes. Non-trivial if values were compared.")
MIN = {'comparisons': 3000, 'slices': 400, 'samples': 30, 'fills': 500, 'filters': 150, 'modes': 20000, 'mpi_runs': 5, 'removed_modes': 2000}
BUDGET = {'quick': 250, 'thorough': 1500}
CASE_S = 200
WORKERS = 4
GEOS = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus']
DISTS = {'uniform': {'low': -2.0, 'high': 3.0}, 'standard_normal': {}, 'normal': {'loc': 1.5, 'scale': 0.3}, 'exponential': {'scale': 2.0}, 'gamma': {'shape': 2.5, 'scale': 0.7}, 'integers': {'low': -5, 'high': 1000},
         'beta': {'a': 0.6, 'b': 2.0}, 'random': {}, 'laplace': {}, 'poisson': {'lam': 4.0}, 'standard_cauchy': {}, 'lognormal': {'sigma': 0.5}, 'binomial': {'n': 20, 'p': 0.3}, 'triangular': {'left': 0, 'mode': 1, 'right': 3},
         'standard_exponential': {}, 'logistic': {}, 'weibull': {'a': 1.7}}
CONTINUOUS = [d for d in DISTS if d not in ('integers', 'poisson', 'binomial')]


def cases(tier, rng):
    out = []
    quick = tier == 'quick'
    for i in range(6 if quick else 40):
        out.append({'kind': 'array', 'i': i})
    for i in range(1 if quick else 10):
        for n in ([1, 2, 3, 4, 6, 8] if quick else [1, 2, 3, 4, 5, 6, 7, 8]):
            specs = []
            for geo in [['cart2', 'cart3'][int(rng.integers(2))], 'cart3' if n > 1 else 'cart1', *[str(x) for x in rng.choice(GEOS[3:], 3, replace=False)]]:
                s = geom(rng, geo)
                D = int(geo[-1]) if geo in G.CART else 2 if geo in ('disk', 'annulus', 'sphere') else 3
                ms = meshes(n, D) if n > 1 else [None]
                specs.append((s, ms[int(rng.integers(len(ms)))]))
            out.append({'kind': 'mpi', 'n': n, 'specs': specs, 'i': i})
    for i in range(3 if quick else 25):
        for geo in GEOS:
            out.append({'kind': 'filter', 'spec': geom(rng, geo), 'i': i})
    return out


def geom(rng, geo):
    s = X.wide_spec(rng, geo, deg=2)
    if geo in G.CART:
        for ax in s['axes']:
            ax['N'] = 2*int(rng.integers(2, 9)) if ax['b'] == 'F' else int(rng.integers(3, 15))
        s['deg'] = [0]*len(s['deg'])
        s['kmax'] = [0]*len(s['kmax'])
    else:
        # Number of modes, larger than anything resolved by degree-2 data
        sh = s['shape']
        sh[0] = 4*int(rng.integers(1, 4)) if s['real'] else 2*int(rng.integers(2, 8))
        if geo in ('sphere', 'ball', 'shell'):
            sh[1] = int(rng.integers(max(4, sh[0]//2), 12))  # (all azimuthal modes resolved)
        sh[-1] = sh[-1] if geo == 'sphere' else int(rng.integers(4, 12)) if geo != 'ball' else int(rng.integers(sh[1]//2 + 2, 12))
        if geo in ('disk', 'cyl_disk', 'disk_cyl'):
            sh[1] = max(sh[1], sh[0]//4 + 2)
    if 'dealias' in s:
        s['dealias'] = [max(1.25, x) for x in s['dealias']]
    return s


def run(case, ctx):
    {'array': arrays, 'mpi': fills, 'filter': filters}[case['kind']](case, ctx)


# (a) Array objects

def cdf(d, kw):
    from scipy import stats as st
    return {'uniform': lambda: st.uniform(kw['low'], kw['high'] - kw['low']), 'standard_normal': lambda: st.norm(), 'normal': lambda: st.norm(kw['loc'], kw['scale']), 'exponential': lambda: st.expon(scale=kw['scale']),
            'gamma': lambda: st.gamma(kw['shape'], scale=kw['scale']), 'beta': lambda: st.beta(kw['a'], kw['b']), 'random': lambda: st.uniform(), 'laplace': lambda: st.laplace(), 'standard_cauchy': lambda: st.cauchy(),
            'lognormal': lambda: st.lognorm(kw['sigma']), 'triangular': lambda: st.triang((kw['mode'] - kw['left'])/(kw['right'] - kw['left']), kw['left'], kw['right'] - kw['left']), 'standard_exponential': lambda: st.expon(),
            'logistic': lambda: st.logistic(), 'weibull': lambda: st.weibull_min(kw['a']), 'integers': lambda: st.randint(kw['low'], kw['high']), 'poisson': lambda: st.poisson(kw['lam']), 'binomial': lambda: st.binom(kw['n'], kw['p'])}[d]()


def follows(ctx, x, d, kw, what):
    """The sample could have come from the distribution (thresholds far beyond chance)."""
    from scipy import stats as st
    x = np.asarray(x).ravel()
    if x.size < 60:
        return
    ctx.count('samples')
    dist = cdf(d, kw)
    if d in CONTINUOUS:
        p = st.kstest(x, dist.cdf).pvalue
    else:
        # sup distance of the discrete distribution functions (Dvoretzky-Kiefer-Wolfowitz)
        v = np.unique(x)
        D = max(np.max(np.abs(np.array([np.mean(x <= k) for k in v]) - dist.cdf(v))), 0)
        p = 2*np.exp(-2*x.size*D**2)
    ctx.require(p > 1e-9, 'distribution', f"{what}: samples do not follow {d} {kw} (p = {p:.1e}, {x.size} samples, mean {np.mean(x):.3g})")
    if d in CONTINUOUS:
        ctx.require(np.unique(x).size == x.size, 'repeats', f"{what}: {x.size - np.unique(x).size} repeated values of {x.size} from {d}")
        # neighbours are independent
        r = st.rankdata(x)
        rho = np.corrcoef(r[:-1], r[1:])[0, 1]
        ctx.require(abs(rho)*np.sqrt(x.size) < 7, 'correlated', f"{what}: neighbours correlated {rho:.3f} in {x.size} samples of {d}")


def rslice(rng, n):
    k = int(rng.integers(7))
    a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
    if k == 0:
        return slice(None)
    if k == 1:
        return slice(a, b)
    if k == 2:
        return slice(a, b, int(rng.integers(1, 5)))
    if k == 3:
        return slice(None, None, -int(rng.integers(1, 4)))
    if k == 4:
        return slice(-int(rng.integers(1, n + 2)), None)
    if k == 5:
        return slice(a, n + 5)
    return slice(b, a, -1) if b < n else slice(a, a)


def arrays(case, ctx):
    from dedalus.tools import random_arrays as R
    rng = ctx.rng(case['i'])
    for rep in range(14):
        nd = int(rng.integers(1, 5))
        shape = tuple(int(x) for x in rng.integers(1, {1: 60, 2: 14, 3: 8, 4: 5}[nd], nd))
        total = int(np.prod(shape))
        d = list(DISTS)[int(rng.integers(len(DISTS)))]
        kw = DISTS[d]
        seed = int(rng.integers(1 << 31))
        what = f"{d} {shape} seed {seed}"
        full = R.ChunkedRandomArray(shape, seed=seed, distribution=d, **kw)[(slice(None),)*nd]
        ctx.require(full.shape == shape, 'shape', f"{what}: full contents have shape {full.shape}")
        if full.shape != shape:
            continue
        chunks = [1, 2, 3, 7, total, total+1, max(1, total-1), 16, 2**20, int(rng.integers(1, total + 2))]
        for j in range(12):
            key = tuple(rslice(rng, n) for n in shape)
            if rng.random() < 0.2:
                key = key[:int(rng.integers(1, nd + 1))]
            ch = chunks[int(rng.integers(len(chunks)))]
            A = R.ChunkedRandomArray(shape, seed=seed, chunk_size=ch, distribution=d, **kw)
            got = A[key if len(key) > 1 or rng.random() < 0.5 else key[0]]
            want = full[key]
            ctx.count('slices')
            ctx.require(got.shape == want.shape and got.dtype == want.dtype and np.array_equal(got, want), 'slice', f"{what}: [{key}] with chunks of {ch}: {got.ravel()[:4]} {got.shape} instead of {want.ravel()[:4]} {want.shape}")
        ctx.state(d, nd)
        # Index arrays
        for order in 'CF':
            I = R.IndexArray(shape, order=order)
            ref = np.arange(total).reshape(shape, order=order)
            for j in range(3):
                key = tuple(rslice(rng, n) for n in shape)
                ctx.require(np.array_equal(I[key], ref[key]), 'index', f"IndexArray {shape} {order}: [{key}] is {I[key].ravel()[:5]} instead of {ref[key].ravel()[:5]}")
        ctx.raises(lambda: full_key(R, shape, seed), 'too-many', f"more selections than dimensions accepted for {shape}", ok=(ValueError, IndexError))
        # Single elements and lists of elements
        flat = full.ravel()
        for j in range(4):
            k, ch = int(rng.integers(total)), chunks[int(rng.integers(len(chunks)))]
            v = R.rng_element(k, seed, ch, d, **kw)
            ctx.require(v == flat[k], 'element', f"{what}: element {k} with chunks of {ch} is {v} instead of {flat[k]}")
            ks = rng.integers(0, total, tuple(int(x) for x in rng.integers(0, 4, int(rng.integers(1, 3)))))
            v = R.rng_elements(ks, seed, ch, d, **kw)
            ctx.require(v.shape == ks.shape and np.array_equal(v, flat[ks]), 'elements', f"{what}: elements {ks.ravel()[:5]} with chunks of {ch}: {v.ravel()[:5]} instead of {flat[ks].ravel()[:5]}")
        other = R.ChunkedRandomArray(shape, seed=seed + 1, distribution=d, **kw)[(slice(None),)*nd]
        if total > 20:
            ctx.require(np.mean(other == full) < 0.7, 'seeds', f"{what}: the next seed gives the same values")
        none = [R.ChunkedRandomArray(shape, distribution=d, **kw)[(slice(None),)*nd] for _ in range(2)]
        if total > 20:
            ctx.require(np.mean(none[0] == none[1]) < 0.7, 'seeds', f"{what}: unseeded arrays are equal")
    d = list(DISTS)[int(rng.integers(len(DISTS)))]
    for ch in [2**20, 1000]:
        x = R.ChunkedRandomArray((40, 50), seed=int(rng.integers(1 << 31)), chunk_size=ch, distribution=d, **DISTS[d])[:, :]
        follows(ctx, x, d, DISTS[d], f"(40, 50) in chunks of {ch}")
        follows(ctx, x[::3, 7:21], d, DISTS[d], f"part of (40, 50) in chunks of {ch}")


def full_key(R, shape, seed):
    return R.ChunkedRandomArray(shape, seed=seed)[(slice(None),)*(len(shape) + 1)]


# (b) Fills

def fills(case, ctx):
    res = ctx.mpirun(case['n'], 'ranks', dict(case, key=[ctx.seed, str(case['specs'])]), hang='P21')
    if res is None:
        return
    for r in res:
        for k, v in r['counts'].items():
            ctx.count(k, v)
        for m, msg in r['viol']:
            ctx.violation(m, msg)
    for s in res[0]['states']:
        ctx.state(*s)
    # Gathered values: complete, without repeats, and from the distribution
    for j, (what, d, shape, *_) in enumerate(res[0]['gather']):
        full = np.full(shape, np.nan, dtype=res[0]['gather'][j][4].dtype)
        for r in res:
            full[r['gather'][j][3]] = r['gather'][j][4]
        x = np.concatenate([full.real.ravel(), full.imag.ravel()]) if full.dtype.kind == 'c' else full.ravel()
        if ctx.require(not np.isnan(x).any(), 'gather', f"{what}: {np.isnan(x).sum()} values on no rank"):
            follows(ctx, x, d, DISTS[d], what)
    seeds = [np.concatenate([x.ravel() for x in r['unseeded']]) for r in res]
    allv = np.concatenate(seeds)
    ctx.require(np.unique(allv).size == allv.size, 'unseeded', f"unseeded fills of {case['n']} ranks repeat values")


def ranks(comm, p, outdir):
    rep = Report(comm)
    rep.out['gather'] = []
    rep.out['unseeded'] = []
    for k, (spec, mesh) in enumerate(p['specs']):
        rng = harness.rng_for(*p['key'], k)
        g = G.build(spec, comm=comm, mesh=mesh)
        gs = G.build(spec)
        doms = [('full', g.bases, gs.bases), ('const', (), ())]
        subs, subs_s = G.subdomains(g), G.subdomains(gs)
        for a, b in zip(subs, subs_s):
            doms.append((a[0], a[1], b[1]))
        nfill = 30
        for j in range(nfill):
            lab, bases, bases_s = doms[0] if rng.random() < 0.5 else doms[int(rng.integers(len(doms)))]
            rank = int(rng.integers(0, 3 if g.dim > 1 else 2))
            f = g.dist.TensorField((g.cs,)*rank, bases=bases)
            e = gs.dist.TensorField((gs.cs,)*rank, bases=bases_s)
            sc = [1, g.dealias, tuple(float(x) for x in rng.choice([1.25, 1.5, 2.0], g.n))][int(rng.integers(3))]
            sc = tuple(float(x) for x in np.broadcast_to(sc, g.n))
            if lab == 'full' and g.name in G.CART and rng.random() < 0.3:
                sc = tuple(float(x) for x in rng.choice([0.5, 0.75, 1.0], g.n))
            li = int(rng.integers(len(g.dist.layouts)))
            L = g.dist.layouts[li]
            Ls = [x for x in gs.dist.layouts if tuple(x.grid_space) == tuple(L.grid_space)][0]
            d = list(DISTS)[int(rng.integers(len(DISTS)))]
            seed = int(rng.integers(1 << 31))
            total = int(np.prod(e.global_shape))*g.dim**rank
            ch = [1 + int(rng.integers(7)), 37, 2**20, total, max(1, 2*total - 1)][int(rng.integers(5))]
            form = int(rng.integers(4))
            arg = (L, Ls)
            if form == 0:
                arg = ('g', 'g')
            elif form == 1:
                arg = ('c', 'c')
            elif form == 2:
                # the current layout and scales
                f.preset_scales(sc), e.preset_scales(sc)
                f.preset_layout(L), e.preset_layout(Ls)
                arg = (None, None)
            # an earlier state of the field does not matter
            if form != 2 and rng.random() < 0.5 and lab == 'full':
                f['g'] = 1
                e['g'] = 1
            kw = {} if form == 2 else {'scales': sc}
            if d == 'standard_normal' and rng.random() < 0.5:
                dist_kw = {}
            else:
                dist_kw = dict(DISTS[d], distribution=d)
            f.fill_random(layout=arg[0], seed=seed, chunk_size=ch, **kw, **dist_kw)
            e.fill_random(layout=arg[1], seed=seed, **kw, **dist_kw)
            what = f"{g.name} mesh {mesh} {lab} rank {rank} layout {arg[0] if isinstance(arg[0], str) else li} scales {sc} chunk {ch} {d}"
            rep.count('fills')
            rep.require(tuple(f.layout.grid_space) == tuple(e.layout.grid_space), 'layout', f"{what}: ended in layout {f.layout} instead of {e.layout}")
            rep.require(tuple(f.scales) == tuple(e.scales), 'scales', f"{what}: ended at scales {f.scales} instead of {e.scales}")
            sl = (slice(None),)*rank + tuple(f.layout.slices(f.domain, f.scales))
            want = e.data[sl]
            ok = rep.require(f.data.shape == want.shape and np.array_equal(f.data, want), 'fill', f"{what}: local data {f.data.shape} differ from those of a serial fill {want.shape} (largest {np.max(np.abs(f.data - want)) if f.data.shape == want.shape and f.data.size else None})")
            rep.state(g.name, g.dtype.__name__ if hasattr(g.dtype, '__name__') else g.dtype, lab, rank, tuple(f.layout.grid_space), d)
            if ok and j < 6 and lab == 'full':
                rep.out['gather'].append((what, d, e.data.shape, sl, np.array(f.data)))
            # what was filled is what the field holds: other access shows the same function
            if ok and lab == 'full' and li % 2 and min(sc) >= 1 and d not in ('standard_cauchy',):
                for space in ('c', 'g'):
                    a, b = f[space], e[space]
                    sl = (slice(None),)*rank + tuple(f.layout.slices(f.domain, f.scales))
                    rep.close(a, b[sl], 1e-10*max(1, np.max(np.abs(b))) if np.isfinite(b).all() else np.inf, 'spaces', f"{what}: after access in {space}")
            if lab == 'full' and j < 3:
                f = g.dist.Field(bases=bases)
                f.fill_random('g', distribution='uniform')
                if comm.size == 1 or any(s.stop - s.start < n for s, n in zip(f.layout.slices(f.domain, f.scales), f.global_shape)):
                    v = np.array(f.data)
                    rep.out['unseeded'].append(np.concatenate([v.real.ravel(), v.imag.ravel()]) if v.dtype.kind == 'c' else v.ravel())
        # Filters of the same noise
        for j in range(6):
            rank = int(rng.integers(0, 2 if g.dim > 1 else 1))
            f = g.dist.TensorField((g.cs,)*rank, bases=g.bases)
            e = gs.dist.TensorField((gs.cs,)*rank, bases=gs.bases)
            seed = int(rng.integers(1 << 31))
            for x in (f, e):
                x.fill_random('g', seed=seed, scales=1)
                x['c']
            keep = random_keep(g, rng)
            high = rng.random() < 0.4
            for x in (f, e):
                (x.high_pass_filter if high else x.low_pass_filter)(scales=keep)
            what = f"{g.name} mesh {mesh} rank {rank} {'high' if high else 'low'} pass {keep}"
            rep.count('filters')
            rep.require(tuple(f.scales) == tuple(e.scales), 'scales', f"{what}: ended at scales {f.scales} instead of {e.scales}")
            a, b = f['c'], e['c']
            sl = (slice(None),)*rank + tuple(f.layout.slices(f.domain, f.scales))
            rep.close(a, b[sl], 1e-9, 'filter-mpi', what)
    if not rep.out['unseeded']:
        rep.out['unseeded'].append(np.zeros(0))
    return rep.out


def random_keep(g, rng):
    keep = [float(rng.choice([0.3, 0.5, 0.6, 0.75, 0.9, 1.0])) for _ in range(g.n)]
    if rng.random() < 0.3:
        keep = [1.0]*g.n
        keep[int(rng.integers(g.n))] = float(rng.choice([0.3, 0.5, 0.75]))
    # Truncations of disks and balls hold all their azimuthal modes
    r, above = {'disk': (1, 0), 'cyl_disk': (2, 1), 'disk_cyl': (1, 0), 'ball': (2, 1)}.get(g.name, (None, None))
    if r is not None:
        sh = g.spec['shape']
        nr, na = sh[-1], sh[1] if g.name == 'ball' else sh[0]//2
        while int(np.ceil(keep[r]*nr)) < int(np.ceil(keep[above]*na))//2 + 2 and keep[r] < 1:
            keep[r] = min(1.0, keep[r] + 0.1)
    return tuple(keep)


# (c) Filters

def cut(g, keep):
    """For every axis of the full domain: function (index arrays) -> kept, from the sizes alone."""
    N = g.dist.coeff_layout.global_shape(g.domain, scales=1)
    return N


def modes(g, f):
    """(name, number array) per axis of the coefficients: azimuthal/Fourier wavenumber, degree, radial/polynomial index."""
    s = g.spec
    shape = f['c'].shape[len(f.tensorsig):]
    idx = np.indices(shape)
    out = []
    real = np.dtype(g.dtype).kind == 'f'
    def fourier(i, N):
        return i//2 if real else np.where(i <= N//2, i, i - N)
    if g.name in G.CART:
        for a, ax in enumerate(s['axes']):
            out.append(('F', fourier(idx[a], ax['N']), ax['N']) if ax['b'] == 'F' else ('P', idx[a], ax['N']))
        return out
    gl = g.dist.coeff_layout.local_group_arrays(f.domain, f.scales)
    sizes = list(s['shape'])
    kinds = {'disk': 'FR', 'annulus': 'FP', 'sphere': 'FL', 'ball': 'FLR', 'shell': 'FLP', 'cyl_disk': 'zFR', 'disk_cyl': 'FRz', 'cyl_annulus': 'zFP'}[g.name]
    if 'z' in kinds:
        sizes.insert(kinds.index('z'), s['z']['N'])
    for a, k in enumerate(kinds):
        if k == 'z':
            out.append(('F', fourier(idx[a], s['z']['N']), s['z']['N']) if s['z']['b'] == 'F' else ('P', idx[a], s['z']['N']))
        elif k in 'FL':
            out.append((k, np.ma.getdata(gl[a]), sizes[a]))
        else:
            out.append((k, idx[a], sizes[a]))
    return out


def filters(case, ctx):
    spec = case['spec']
    rng = ctx.rng(case['i'], str(spec))
    g = G.build(spec)
    real = np.dtype(g.dtype).kind == 'f'
    for rank in [0, 0, 1, 2] if g.dim > 1 else [0, 0, 0]:
        f = g.dist.TensorField((g.cs,)*rank, bases=g.bases)
        for rep in range(2):
            f.preset_scales(1)
            f['g'] = rng.standard_normal(f['g'].shape) + (0 if real else 1j*rng.standard_normal(f['g'].shape))
            # project, so that the data hold exactly the modes of the bases
            orig = f['c'].copy()
            keep = random_keep(g, rng)
            if rep == 1 and rng.random() < 0.3:
                keep = (1.0,)*g.n
            what = f"{g.name} {'real' if real else 'complex'} {spec.get('shape', [a.get('N') for a in spec.get('axes', [])])} rank {rank} low pass {keep}"
            M = modes(g, f)
            sizes = [m[2] for m in M]
            sc0 = tuple(float(x) for x in rng.choice([1.0, 1.5], g.n)) if rng.random() < 0.5 else (1.0,)*g.n
            f.change_scales(sc0)
            space = str(rng.choice(['g', 'c']))
            f[space]
            mode = int(rng.integers(3))
            if mode == 0:
                f.low_pass_filter(scales=keep)
            elif mode == 1 and len(set(keep)) == 1:
                f.low_pass_filter(scales=keep[0])
            else:
                f.low_pass_filter(shape=tuple(int(np.ceil(k*n)) for k, n in zip(keep, sizes)))
            ctx.count('filters')
            ctx.require(tuple(f.scales) == sc0, 'scales', f"{what}: scales {f.scales} instead of {sc0} afterwards")
            low = f['c'].copy()
            size = np.max(np.abs(orig))
            tol = 1e-9*size
            m = [int(np.ceil(k*n)) for k, n in zip(keep, sizes)]
            must = np.ones(orig.shape[rank:], dtype=bool)
            for (kind, num, n), cutn in zip(M, m):
                if kind == 'F':
                    must &= np.abs(num) <= (cutn - 1)//2
                elif kind == 'P':
                    must &= num < cutn
                elif kind == 'L':
                    must &= num <= cutn - 1
            must = np.broadcast_to(must, orig.shape).copy()
            free = np.zeros(orig.shape, dtype=bool)
            held = np.abs(orig) > 1e-9*size
            for a, ((kind, num, n), cutn) in enumerate(zip(M, m)):
                if kind == 'R':
                    # radial lines lose as many modes as the truncation is shorter
                    ax = rank + a
                    order = np.cumsum(held, axis=ax)
                    lines = np.sum(held, axis=ax, keepdims=True)
                    # (tensor components start at other degrees: up to their rank more or less)
                    left = lines - (n - cutn)
                    slack = rank if cutn < n else 0
                    free |= must & (order > left - slack) & (order <= left + slack)
                    must &= order <= left
            kept = np.abs(low - orig) <= tol
            gone = np.abs(low) <= tol
            ctx.count('modes', held.sum())
            ctx.count('removed_modes', (held & ~must).sum())
            ctx.state(g.name, real, rank, keep)
            for mask, good, mech, txt in [(held & must & ~free, kept, 'kept-modes', 'should be kept'), (held & ~must & ~free, gone, 'removed-modes', 'should be removed'), (~held, gone, 'new-modes', 'had no amplitude'), (free & held, kept | gone, 'part-modes', 'should be kept or removed')]:
                bad = mask & ~good
                if not ctx.require(not bad.any(), mech, f"{what}: {bad.sum()} of {mask.sum()} modes that {txt} are wrong" + (f", first {np.argwhere(bad)[0]}: {orig[tuple(np.argwhere(bad)[0])]:.3g} became {low[tuple(np.argwhere(bad)[0])]:.3g}" if bad.any() else '')):
                    break
            # again changes nothing
            f.low_pass_filter(scales=keep)
            ctx.close(f['c'], low, 1e-9, 'idempotent', f"{what}: repeated", scale=size)
            # the grid shows the filtered function
            h = f.copy()
            h['c'] = low
            h.change_scales(sc0)
            f.change_scales(sc0)
            ctx.close(f['g'], h['g'], 1e-9, 'grid', f"{what}: grid values", scale=max(np.max(np.abs(h['g'])), size))
            # high pass keeps the rest
            f['c'] = orig
            f.high_pass_filter(scales=keep)
            ctx.close(f['c'], orig - low, 1e-9, 'high-pass', f"{what}: high pass is not the rest", scale=size)
            ctx.raises(lambda: f.low_pass_filter(scales=0.5, shape=tuple(sizes)), 'both-forms', 'shape and scales accepted together', ok=(ValueError,))
