"""P03: distributed layouts partition the data exactly and transposes conserve every value (MPI executions)."""
import itertools
import numpy as np
import geoms as G
import hist

RULE = ("A case is one MPI execution (1-8 processes, a mesh, a transpose library and its grouping/synchronisation options). Ranks record, for random domains, every layout's elements, shapes, slices, groups and grids; "
        "uniquely tagged fields pass through the transposes alone and grouped (several fields, ranks, constant and empty domains, bases of equal sizes but different mode groups), and random access histories run under the model of P02. "
        "The records of all ranks are checked offline for exact partition and conservation. Non-trivial if at least one transpose was observed.")
MIN = {'comparisons': 10000, 'mpi_runs': 8, 'partitions': 300, 'tagged_transposes': 400, 'empty_ranks': 20, 'steps': 600, 'multi_moves': 50, 'swapped_bases': 100}
BUDGET = {'quick': 400, 'thorough': 2400}
WORKERS = 3
CASE_S = 400


def meshes(n, D):
    out = [None, (n,)]
    for k in range(1, D):
        for m in itertools.product(range(1, n+1), repeat=k):
            if int(np.prod(m)) == n:
                out.append(m)
    return out


def cases(tier, rng):
    out = []
    for i in range(1 if tier == 'quick' else 10):
        for n in [1, 2, 3, 4, 4, 5, 6, 7, 8]:
            specs = []
            for geo in [['cart2', 'cart3', 'cart2', 'cart3'][int(rng.integers(4))], 'cart3', G.CURV[int(rng.integers(len(G.CURV)))], ['ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus'][int(rng.integers(5))]]:
                s = G.random_spec(rng, geo, deg=int(rng.integers(1, 4)))
                if geo in G.CART:
                    for ax in s['axes']:
                        ax['N'] = int(rng.choice([2, 4, 6, 8])) if ax['b'] == 'F' else int(rng.integers(2, 9))
                    s['deg'] = [min(d, ax['N']-1) for d, ax in zip(s['deg'], s['axes'])]
                    s['kmax'] = [min(d, (ax['N']-1)//2) for d, ax in zip(s['kmax'], s['axes'])]
                D = int(geo[-1]) if geo in G.CART else 2 if geo in ('disk', 'annulus', 'sphere') else 3
                ms = meshes(n, D)
                specs.append((s, ms[int(rng.integers(len(ms)))]))
            lib = ['fftw', 'mpi'][int(rng.integers(2))] if n > 1 else 'fftw'
            if n == 4:
                lib = 'fftw' if len(out) % 2 else 'mpi'
            out.append({'n': n, 'specs': specs, 'i': i, 'lib': lib, 'group': bool(rng.random() < 0.7), 'gt': bool(rng.random() < 0.3), 'sync': bool(rng.random() < 0.3), 'inplace': bool(rng.random() < 0.3)})
    return out


def run(case, ctx):
    res = ctx.mpirun(case['n'], 'ranks', dict(case, key=[ctx.seed, str(case['specs'])]), hang='P03')
    if res is None:
        return
    for r in res:
        for k, v in r['counts'].items():
            ctx.count(k, v)
        for m, msg in r['viol']:
            ctx.violation(m, msg)
    ctx.state(case['n'], [str(m) for s, m in case['specs']], case['lib'], case['group'])
    offline(case, ctx, res)


def offline(case, ctx, res):
    """Elements of all ranks partition the global index set; groups stay whole."""
    for key in res[0]['layouts']:
        recs = [r['layouts'][key] for r in res]
        shape = recs[0]['global_shape']
        ctx.require(all(r['global_shape'] == shape for r in recs), 'global-shape', f'{key}: ranks disagree {[r["global_shape"] for r in recs]}')
        owner = np.full(shape, -1)
        count = np.zeros(shape, dtype=int)
        for k, r in enumerate(recs):
            inside = all((np.asarray(e) < s).all() and (np.asarray(e) >= 0).all() for e, s in zip(r['elements'], shape))
            ctx.require(inside, 'elements-range', f'{key} rank {k}: elements {r["elements"]} of {shape}')
            if not inside:
                return
            ix = np.ix_(*[np.asarray(e, dtype=int) for e in r['elements']])
            count[ix] += 1
            owner[ix] = k
            ctx.require(tuple(len(e) for e in r['elements']) == r['local_shape'] == r['data_shape'], 'local-shape', f'{key} rank {k}: {[len(e) for e in r["elements"]]} {r["local_shape"]} {r["data_shape"]}')
            ctx.require(r['elements'] == [list(range(s.start, s.stop)) for s in r['slices']], 'slices', f'{key} rank {k}: slices {r["slices"]} elements {r["elements"]}')
            if not np.prod(r['local_shape']):
                ctx.count('empty_ranks')
        ctx.require((count == 1).all(), 'partition', f'{key}: elements of {shape} held {np.unique(count)} times')
        ctx.count('partitions')
        groups = recs[0]['groups']
        if groups is not None:
            seen = {}
            flat = groups.reshape(groups.shape[0], -1).T
            mask = np.ma.getmaskarray(groups).any(axis=0).ravel()
            for gset, m, o in zip(np.ma.getdata(flat).tolist(), mask, owner.ravel()):
                if not m:
                    seen.setdefault(tuple(gset), set()).add(int(o))
            bad = [k for k, v in seen.items() if len(v) > 1]
            ctx.require(not bad, 'group-split', f'{key}: groups {bad[:5]} held by several ranks')
            ctx.count('groups', len(seen))
        for ax in range(len(shape)):
            # what each rank believes its neighbours hold
            for k, r in enumerate(recs):
                ctx.require(r['others'][ax] == [x['elements'][ax] for x in recs], 'rank-elements', f'{key}: rank {k} believes in elements {r["others"][ax]} along axis {ax}')


# On every rank

def ranks(comm, p, outdir):
    from dedalus.tools.config import config
    config['parallelism']['TRANSPOSE_LIBRARY'] = p['lib']
    config['parallelism']['GROUP_TRANSPOSES'] = str(p['group'])
    config['parallelism']['SYNC_TRANSPOSES'] = str(p['sync'])
    config['transforms']['GROUP_TRANSFORMS'] = str(p['gt'])
    config['parallelism-fftw']['IN_PLACE'] = str(p['inplace'])
    import harness
    out = {'counts': {}, 'viol': [], 'layouts': {}}

    def count(k, n=1):
        out['counts'][k] = out['counts'].get(k, 0) + int(n)

    def report(mech, msg):
        if len(out['viol']) < 10:
            out['viol'].append((mech, f'rank {comm.rank} of {comm.size}: {msg}'))
    for k, (spec, mesh) in enumerate(p['specs']):
        rng = harness.rng_for(*p['key'], k)
        g = G.build(spec, comm=comm, mesh=mesh)
        gs = G.build(spec)
        layouts(g, gs, k, rng, out, count, report)
        tags(g, rng, count, report)
        for h in range(2):
            H = hist.History(g, gs, rng, report, count, nfields=4)
            for step in range(25):
                H.step()
                # Histories stay in step on all ranks, also when one has seen a violation
                if comm.allreduce(len(out['viol'])):
                    return out
    return out


def domains(g):
    import dedalus.public as d3
    out = [('full', g.bases)]
    for s in G.subdomains(g):
        out.append((s[0], s[1]))
    out.append(('const', ()))
    return out


def layouts(g, gs, k, rng, out, count, report):
    n = g.dim
    doms = domains(g)
    sdoms = domains(gs)
    for d, ds in zip(doms, sdoms):
        for scales in [(1,)*n, tuple(g.dealias), tuple(float(rng.choice([0.5, 0.75, 1, 1.25, 2])) for _ in range(n))]:
            f = g.dist.Field(bases=d[1])
            fs = gs.dist.Field(bases=ds[1])
            f.preset_scales(scales)
            fs.preset_scales(scales)
            for lay in g.dist.layouts:
                f.preset_layout(lay)
                slay = hist.serial_layout(gs, lay.grid_space)
                fs.preset_layout(slay)
                key = f'{k}:{g.name}:{d[0]}:{scales}:{lay.index}'
                rec = {'elements': [list(map(int, e)) for e in lay.local_elements(f.domain, scales)],
                       'local_shape': tuple(int(x) for x in lay.local_shape(f.domain, scales)),
                       'slices': lay.slices(f.domain, scales),
                       'global_shape': tuple(int(x) for x in lay.global_shape(f.domain, scales)),
                       'data_shape': f.data.shape,
                       'others': [[list(map(int, lay.local_elements(f.domain, scales, rank=r)[ax])) for r in range(g.dist.comm.size)] for ax in range(n)]}
                if rec['global_shape'] != fs.data.shape:
                    report('global-shape', f'{key}: {rec["global_shape"]} instead of {fs.data.shape}')
                groups = None
                if d[0] in ('full', 'const') or g.name in G.CART:
                    gl = slay.global_group_arrays(fs.domain, scales)
                    groups = np.ma.array(gl) if not all(lay.grid_space) else None
                    lo = lay.local_group_arrays(f.domain, scales)
                    want = gl[(slice(None),) + tuple(rec['slices'])]
                    same = lo.shape == want.shape and np.array_equal(np.ma.filled(lo, -99), np.ma.filled(want, -99))
                    count('comparisons')
                    if not same:
                        report('local-groups', f'{key}: local groups are not the global groups of the local elements')
                rec['groups'] = groups if g.dist.comm.rank == 0 else None
                out['layouts'][key] = rec
    # Grids and modes
    for b, bs in zip(g.bases, gs.bases):
        for scales in [(1,)*n, tuple(g.dealias)]:
            loc = g.dist.local_grids(b, scales=scales)
            glo = gs.dist.local_grids(bs, scales=scales)
            f = g.dist.Field(bases=b)
            f.preset_scales(scales)
            f.preset_layout('g')
            first = g.dist.get_basis_axis(b)
            for i, (l, w) in enumerate(zip(loc, glo)):
                sl = f.layout.slices(f.domain, scales)[first+i]
                w = np.moveaxis(w, first+i, 0)[sl]
                l = np.moveaxis(l, first+i, 0)
                count('comparisons')
                if l.shape != w.shape or not np.allclose(l, w, rtol=0, atol=0):
                    report('local-grid', f'{g.name} axis {first+i} scales {scales}: local grid is not the slice {sl} of the grid')
                count('grids')
        if not hasattr(b, 'native_bounds') and not hasattr(b, 'COV'):
            continue            # multidimensional bases do not implement local modes
        m, ms = g.dist.local_modes(b), gs.dist.local_modes(bs)
        f = g.dist.Field(bases=b)
        sls = f.layout.slices(f.domain, 1)
        first = g.dist.get_basis_axis(b)
        ml, mg = (m, ms) if isinstance(m, (tuple, list)) else ((m,), (ms,))
        for i, (l, w) in enumerate(zip(ml, mg)):
            l, w = np.moveaxis(l, first+i, 0), np.moveaxis(w, first+i, 0)
            count('comparisons')
            if w.shape[0] > 1 and not np.array_equal(np.ma.filled(l, -9).ravel(), np.ma.filled(w[sls[first+i]], -9).ravel()):
                report('local-modes', f'{g.name} axis {first+i}')


def tags(g, rng, count, report):
    """Unique values carried through each transpose, alone and in groups."""
    import dedalus.public as d3
    from dedalus.core.distributor import Transpose
    dist = g.dist
    doms = domains(g)
    # Bases of the same sizes whose modes come in groups of other sizes
    alts = []
    if g.name in G.CART:
        for co, b in zip(g.coords, g.bases):
            N, kind = b.shape[0], d3.RealFourier if g.dtype == np.float64 else d3.ComplexFourier
            alts.append([b, d3.ChebyshevT(co, N, bounds=(0, 1))] + ([kind(co, N, bounds=(0, 1))] if N % 2 == 0 else []))
    paths = [p for p in dist.paths if isinstance(p, Transpose)]
    for p in paths:
        for rep in range(8):
            swap = bool(alts) and rng.random() < 0.5
            fields, glob = [], []
            nf = int(rng.integers(1, 6))
            dt = g.dtype
            for i in range(nf):
                name, bases = doms[int(rng.integers(len(doms)))] if rng.random() < 0.6 else doms[0]
                if swap:
                    bases = tuple(al[int(rng.integers(len(al)))] for al in alts)
                    count('swapped_bases')
                rank = int(rng.integers(0, 3 if g.dim == 2 else 2))
                f = dist.TensorField((g.cs,)*rank, bases=bases, dtype=dt)
                f.preset_scales(1 if swap and rng.random() < 0.8 else [1, tuple(g.dealias), tuple(float(rng.choice([0.5, 1, 1.25, 2])) for _ in range(g.dim))][int(rng.integers(3))])
                fields.append(f)
            up = bool(rng.integers(2))
            a, b = (p.layout0, p.layout1) if up else (p.layout1, p.layout0)
            for f in fields:
                f.preset_layout(a)
                shape = tuple(c.dim for c in f.tensorsig) + tuple(a.global_shape(f.domain, f.scales))
                t = np.arange(1, int(np.prod(shape))+1, dtype=float).reshape(shape) + 1000000*rng.integers(1, 999)
                if dt == np.complex128:
                    t = t + 1j*(t + 0.5)
                glob.append(t)
                f.data[...] = loc(f, t)
            for trip in range(int(rng.integers(1, 4))):
                src, dst = (a, b) if trip % 2 == 0 else (b, a)
                (p.increment if dst is p.layout1 else p.decrement)(fields)
                for f, t in zip(fields, glob):
                    count('comparisons')
                    count('tagged_transposes')
                    if f.layout is not dst:
                        report('transpose-layout', f'{g.name}: {nf} field(s) moved from layout {src.index} to {dst.index}: a field over {len(f.domain.bases)} bases is in layout {f.layout.index}')
                        return
                    want = loc(f, t)
                    if f.data.shape != want.shape or not np.array_equal(f.data, want):
                        report('transpose-data', f'{g.name} mesh {dist.mesh}: {nf} field(s) from layout {src.index} to {dst.index}: data of shape {f.data.shape} not conserved (rank {len(f.tensorsig)}, scales {f.scales})')
                        return
            count('multi_moves', nf > 1)


def loc(f, t):
    return t[(slice(None),)*len(f.tensorsig) + f.layout.slices(f.domain, f.scales)]
