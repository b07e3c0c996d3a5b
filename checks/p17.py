"""P17: output files hold exactly what was evaluated (file handlers, serial and parallel)."""
import os
import itertools
import hashlib
import pathlib
import shutil
import numpy as np
import geoms as G

RULE = ("A case is a history of runs writing to one or two output folders: each run builds a problem and its file handlers (gather or virtual, overwrite or append, max_writes, path form, name), adds tasks (fields, tensors, products, derivatives, "
        "interpolations, integrals, lower-dimensional and constant fields) with random layouts and scales, steps with a random custom schedule while the fields are modified between steps, and sometimes writes explicitly. A monitor called at each "
        "output instant records the fields' global data; an offline checker evaluates every task on a fresh serial twin of the geometry from the recorded data and compares files, sets, numbering, time scales, dimension labels, "
        "coordinates, attributes, and the fate of earlier sets and of unrelated files. Some cases run on several MPI processes.")
MIN = {'comparisons': 5000, 'datasets_compared': 800, 'sets': 150, 'appends': 15, 'overwrites': 15, 'virtual_sets': 30, 'coeff_tasks': 100, 'mpi_runs': 6, 'bystanders': 60, 'rollovers': 20}
BUDGET = {'quick': 400, 'thorough': 2400}
WORKERS = 7
CASE_S = 300
ASSUMPTIONS = ["local file system", "HDF5 built without MPI (the mpio method is not available)"]
NAMES = ['snap', 'a.b.c', 'run[1]', 'x+y', 'snapshots_s1', 'out put', 'v1.5']


def meshes(n, D):
    out = [None, (n,)]
    for k in range(1, D):
        for m in itertools.product(range(1, n+1), repeat=k):
            if int(np.prod(m)) == n:
                out.append(m)
    return out


def cases(tier, rng):
    out = []
    reps = 3 if tier == 'quick' else 25
    for rep in range(reps):
        for geo in ['cart1', 'cart2', 'cart2', 'cart3', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus', 'cart2', 'cart2']:
            out.append(one(rng, geo, 1, rep))
        for n in [2, 2, 3, 4, 4, 5]:
            out.append(one(rng, ['cart2', 'cart3', 'cart3', 'disk', 'ball', 'shell', 'sphere', 'cyl_disk', 'annulus'][int(rng.integers(9))], n, rep))
    return out


def one(rng, geo, n, rep):
    s = G.random_spec(rng, geo, deg=2)
    if geo == 'ball':
        s['shape'] = list(s['shape'][:2]) + [max(s['shape'][2], s['shape'][1]//2 + 2)]
    D = int(geo[-1]) if geo in G.CART else 2 if geo in ('disk', 'annulus', 'sphere') else 3
    ms = meshes(n, D)
    segs = []
    for k in range(int(rng.integers(1, 5))):
        segs.append({'mode': str(rng.choice(['overwrite', 'append', 'append', 'default'] if k else ['overwrite', 'append', 'default'])), 'steps': int(rng.integers(1, 6)),
                     'p': float(rng.choice([1, 0.5])), 'parallel': [None, 'gather', 'virtual', 'virtual'][int(rng.integers(4))], 'max': [None, 1, 2, 3][int(rng.integers(4))],
                     'explicit': bool(rng.random() < 0.3), 'two': bool(rng.random() < 0.3)})
    return {'spec': s, 'n': n, 'mesh': ms[int(rng.integers(len(ms)))], 'segs': segs, 'name': str(rng.choice(NAMES)), 'path': str(rng.choice(['abs', 'rel', 'nested', 'pathlib'])), 'rep': rep}


def run(case, ctx):
    p = dict(case, key=[ctx.seed, str(case)])
    if case['n'] == 1:
        from mpi4py import MPI
        d = os.path.join(ctx.scratch, 'work')
        os.makedirs(d)
        res = [ranks(MPI.COMM_SELF, p, d)]
    else:
        res = ctx.mpirun(case['n'], 'ranks', p, hang='P17')
        if res is None:
            return
    for r in res:
        for k, v in r['counts'].items():
            ctx.count(k, v)
        for m, msg in r['viol']:
            ctx.violation(m, msg)
        for st in r['states']:
            ctx.state(*st)


class Report:
    def __init__(self, comm):
        self.out = {'counts': {}, 'viol': [], 'states': []}
        self.comm = comm

    def count(self, k, n=1):
        self.out['counts'][k] = self.out['counts'].get(k, 0) + int(n)

    def require(self, ok, mech, msg):
        self.count('comparisons')
        if not ok and len(self.out['viol']) < 12:
            self.out['viol'].append((mech, f'rank {self.comm.rank} of {self.comm.size}: {msg}'))
        return bool(ok)

    def state(self, *a):
        self.out['states'].append([str(x) for x in a])

    def close(self, got, want, tol, mech, msg):
        got, want = np.asarray(got), np.asarray(want)
        if not self.require(got.shape == want.shape, mech, f'{msg}: shape {got.shape} instead of {want.shape}') or not got.size:
            return
        err = np.max(np.abs(got - want))
        self.require(err <= tol*max(1., np.max(np.abs(want))), mech, f'{msg}: differs by {err:.3g} (size {np.max(np.abs(want)):.3g})')


# Fields and tasks

def make_fields(g):
    fs = [G.make_field(g, 0, 'f0'), G.make_field(g, 0 if g.spec['i1'] else 1, 'f1')]
    subs = G.subdomains(g)
    if subs:
        lab, bases, gen, axes = subs[g.spec['i2'] % len(subs)]
        fs.append(g.dist.TensorField((), name='f2', bases=bases))
    else:
        fs.append(G.make_field(g, 0, 'f2'))
    fs.append(g.dist.Field(name='f3'))
    if g.name in G.CART:
        fs.append(g.dist.TensorField((g.cs, g.cs), name='f4', bases=g.bases))
        # the same coordinates and size, other positions
        import dedalus.public as d3
        j = g.spec['i2'] % g.dim
        ax = g.spec['axes'][j]
        a, b = ax['bounds']
        other = G.make_axis(d3, g.coords[j], dict(ax, bounds=(a - 0.5, b + 1.25)), g.dtype)
        fs.append(g.dist.Field(name='f5', bases=g.bases[:j] + (other,) + g.bases[j+1:]))
        # and the same coordinates, size and left end
        other = G.make_axis(d3, g.coords[j], dict(ax, bounds=(a, b + 0.75*(b - a))), g.dtype)
        fs.append(g.dist.Field(name='f6', bases=g.bases[:j] + (other,) + g.bases[j+1:]))
    return fs


def make_task(g, fs, t):
    import dedalus.public as d3
    k = t['k']
    if k == 'field':
        return fs[t['i'] % len(fs)]
    if k == 'uu':
        return fs[0]*fs[0]
    if k == 'uv':
        return fs[0]*fs[1]
    if k == 'sum':
        return 2*fs[0] - fs[3]*fs[0]
    if k == 'lap':
        return d3.lap(fs[0])
    if k == 'grad':
        return d3.grad(fs[0])
    if k == 'const':
        return 3*fs[3] + fs[3]*fs[3]
    if k == 'integ':
        return d3.integ(fs[0])
    names = G.axis_names(g)
    ax = t['ax']
    a, b = G.extent(g, ax)
    return fs[t['i'] % 2](**{names[ax]: a + (b-a)*t['pos']}) if not fs[t['i'] % 2].tensorsig else fs[0](**{names[ax]: a + (b-a)*t['pos']})


def random_tasks(g, rng, nlay):
    names = G.axis_names(g)
    out = []
    for j in range(int(rng.integers(3, 8))):
        k = str(rng.choice(['field', 'field', 'field', 'uu', 'uv', 'sum', 'lap', 'grad', 'const', 'interp', 'interp', 'integ']))
        if g.name == 'sphere' and k in ('integ', 'interp'):
            k = 'uu'
        axes = list(range(g.dim)) if g.name in G.CART else [names.index('r')] if 'r' in names else [0]
        scales = [None, 1, 1.5, 2, 0.5, 'tuple', 'dealias'][int(rng.integers(7))]
        if scales == 'tuple':
            scales = tuple(float(x) for x in rng.choice([0.5, 1, 1.5, 2], g.dim))
            if g.name in ('disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus'):
                scales = tuple(float(x) for x in rng.choice([1, 1.5, 2], g.dim))
        elif scales == 'dealias':
            scales = tuple(float(x) for x in g.dealias)
        lay = ['g', 'g', 'c', int(rng.integers(nlay))][int(rng.integers(4))]
        if scales == 0.5 and g.name not in G.CART:
            scales = 1
        out.append({'k': k, 'i': int(rng.integers(8)), 'ax': int(rng.choice(axes)), 'pos': float(rng.choice([0, 1, 0.37])), 'scales': scales, 'layout': lay, 'name': f't{j}{k}' if rng.random() < 0.8 else None})
    if g.name in G.CART and rng.random() < 0.6:
        # two fields over different intervals of the same coordinates, stored alike
        t = dict(out[0], k='field', name='same0', i=0)
        if rng.random() < 0.7:
            t = dict(t, layout='g')
        out = [t] + [dict(t, name=f'same{i}', i=i) for i in (5, 6)] + out[:5]
        if rng.random() < 0.5:
            out[:3] = out[2::-1]
    return out


def twin_value(g, gs, t, glob, space):
    """Task value recomputed on a fresh serial geometry from recorded global data."""
    fs = make_fields(gs)
    for f, c in zip(fs, glob):
        f['c'] = c
    op = make_task(gs, fs, t)
    out = op if t['k'] == 'field' else op.evaluate()
    lay = [l for l in gs.dist.layouts if tuple(bool(x) for x in l.grid_space) == space][0]
    out.change_layout('c')
    out.change_scales(gs.dist.remedy_scales(t['scales']))
    out.change_layout(lay)
    return out.data.copy(), out


def snapshot(f):
    c = f.copy()
    c.change_scales(1)
    return c.allgather_data('c')


def digest(p):
    return hashlib.sha1(p.read_bytes()).hexdigest()


def tree(base):
    return {str(p.relative_to(base)): digest(p) for p in sorted(base.rglob('*')) if p.is_file()}


BYSTANDERS = ['{}_summary.h5', '{}_s.h5', '{}_s1_old.h5', '{}2_s1.h5', 'x{}_s1.h5', '{}_scratch/{}_s1.h5', '{}_s2.h5.bak', 'notes_s1.h5']


def ranks(comm, p, outdir):
    import logging
    logging.disable(logging.WARNING)
    import harness
    import dedalus.public as d3
    from mpi4py import MPI
    rep = Report(comm)
    rng = harness.rng_for(*p['key'])
    spec = dict(p['spec'], i1=int(rng.integers(2)), i2=int(rng.integers(10)))
    if spec['g'] == 'sphere':
        spec['i1'] = 1
    gs = G.build(spec)
    where = os.path.join(outdir, 'o') if p['path'] != 'nested' else os.path.join(outdir, 'o', 'deep', 'er')
    os.makedirs(outdir, exist_ok=True)
    if comm.size == 1:
        os.chdir(outdir)
    comm.Barrier()
    history = {}     # name -> list of (file number, write dicts)
    for si, seg in enumerate(p['segs']):
        g = G.build(spec, comm=comm, mesh=p['mesh'])
        fs = make_fields(g)
        # Same global data on every process
        for f, fg in zip(fs, make_fields(gs)):
            fg.fill_random('g', seed=int(rng.integers(1e6)), scales=1)
            c = snapshot(fg)
            f[g.dist.coeff_layout] = c[(slice(None),)*len(f.tensorsig) + g.dist.coeff_layout.slices(f.domain, 1)]
        u = fs[0]
        pr = d3.IVP([u], namespace={'u': u})
        pr.add_equation("dt(u) + u = 0")
        solver = pr.build_solver(str(rng.choice(['SBDF1', 'RK222'])))
        handlers = []
        for hi in range(2 if seg['two'] else 1):
            name = p['name'] if hi == 0 else 'other'
            path = os.path.join(where, name)
            base = pathlib.Path(path)
            if comm.rank == 0 and name not in history:
                for b in BYSTANDERS:
                    q = base / b.format(base.stem, base.stem)
                    q.parent.mkdir(parents=True, exist_ok=True)
                    q.write_bytes(os.urandom(64))
            comm.Barrier()
            hist = history.setdefault(name, {'files': {}, 'next': 1, 'total': 0, 'by': tree(base) if comm.rank == 0 else None})
            before = tree(base) if comm.rank == 0 else None
            comm.Barrier()
            records = []
            tasks = random_tasks(g, rng, len(g.dist.layouts))
            pattern = [bool(x) for x in rng.random(seg['steps']) < seg['p']]

            def look(iteration, wall_time, sim_time, timestep, records=records, pattern=pattern, fs=fs, it0=solver.iteration):
                fire = pattern[iteration % len(pattern)]
                if fire:
                    records.append({'iteration': iteration, 'wall_time': wall_time, 'sim_time': sim_time, 'timestep': timestep, 'glob': [snapshot(f) for f in fs]})
                return fire
            kw = {}
            if seg['mode'] != 'default':
                kw['mode'] = seg['mode'] if rng.random() < 0.7 else seg['mode'].upper()
            if seg['parallel']:
                kw['parallel'] = seg['parallel']
            if seg['max']:
                kw['max_writes'] = seg['max']
            arg = os.path.relpath(path) if p['path'] == 'rel' and comm.size == 1 else base if p['path'] == 'pathlib' else path
            h = solver.evaluator.add_file_handler(arg, custom_schedule=look, **kw)
            for t in tasks:
                lay = t['layout'] if isinstance(t['layout'], str) else g.dist.layouts[t['layout']]
                t['space'] = tuple(bool(x) for x in (g.dist.get_layout_object(lay)).grid_space)
                op = make_task(g, fs, t)
                tn = {} if t['name'] is None else {'name': t['name']}
                if t['name'] is None:
                    t['name'] = str(op)
                    if t['name'] in [x['name'] for x in tasks if x is not t] or '/' in t['name']:
                        t['name'] = 'auto%d' % len(handlers) + str(tasks.index(t))
                        tn = {'name': t['name']}
                h.add_task(op, layout=lay, scales=t['scales'], **tn)
            mode = seg['mode'] if seg['mode'] != 'default' else 'overwrite'
            par = seg['parallel'] or ('gather' if comm.size == 1 else None)
            handlers.append((h, name, base, records, tasks, mode, par, hist, before))
        for st in range(seg['steps']):
            solver.step(0.01*float(rng.uniform(0.5, 2)))
            change(rng, fs[1:])
            for k in range(int(rng.choice([0, 0, 1, 2])) if seg['explicit'] else 0):
                if k:
                    # the same handler again at the same instant, with other data
                    change(rng, fs)
                h, name, base, records = handlers[0][:4]
                dt = float(rng.uniform(0, 1))
                records.append({'iteration': solver.iteration, 'wall_time': solver.wall_time, 'sim_time': solver.sim_time, 'timestep': dt, 'glob': [snapshot(f) for f in fs], 'explicit': True})
                solver.evaluate_handlers([h], dt=dt)
        comm.Barrier()
        if comm.rank == 0:
            for H in handlers:
                check_folder(rep, g, gs, seg, *H)
        comm.Barrier()
    if comm.size == 1:
        os.chdir('/')
    shutil.rmtree(where, ignore_errors=True)
    return rep.out


def change(rng, fs):
    for f in fs:
        if rng.random() < 0.6:
            f.change_scales(float(rng.choice([1, 1, 1.5, 2])))
            f['g' if rng.random() < 0.5 else 'c'] *= float(rng.uniform(0.5, 1.5))


def check_folder(rep, g, gs, seg, h, name, base, records, tasks, mode, par, hist, before):
    import h5py
    stem = base.stem
    # Which files should exist now
    if mode == 'overwrite':
        rep.count('overwrites', bool(hist['files']))
        hist.update(files={}, next=1, total=0)
    else:
        rep.count('appends', bool(hist['files']))
    old = dict(hist['files'])
    m = seg['max'] or 10**9
    new = {}
    for i, r in enumerate(records):
        new.setdefault(hist['next'] + i//m, []).append(r)
        r['write_number'] = hist['total'] + i + 1
    now = tree(base)
    expect = set(hist['by'])
    for n in list(old) + list(new):
        expect.add(f'{stem}_s{n}.h5')
    procs = {q for q in now if '_p' in os.path.basename(q) and os.path.dirname(q) in {f'{stem}_s{n}' for n in list(old) + list(new)}}
    rep.require(set(now) - procs == expect, 'files', f'{name} {mode}: files {sorted(set(now) - procs)}, expected {sorted(expect)}')
    for q, dg in hist['by'].items():
        rep.count('bystanders')
        rep.require(now.get(q) == dg, 'bystander', f'{name} {mode}: unrelated file {q} was {"changed" if q in now else "deleted"}')
    for n in old:
        for q in [f'{stem}_s{n}.h5'] + [q for q in before if os.path.dirname(q) == f'{stem}_s{n}']:
            rep.require(now.get(q) == before.get(q), 'earlier-set', f'{name} {mode}: earlier set file {q} was {"changed" if q in now else "deleted"}')
    rep.count('rollovers', max(len(new)-1, 0))
    for n, rows in new.items():
        f = base / f'{stem}_s{n}.h5'
        if not rep.require(f.is_file(), 'set-missing', f'{name}: set {n} missing'):
            continue
        rep.count('sets')
        with h5py.File(f, 'r') as file:
            check_file(rep, g, gs, file, n, rows, tasks, stem, par)
        if par == 'virtual':
            rep.count('virtual_sets')
        rep.state(g.name, par, seg['max'], mode, len(rows), g.dist.comm.size)
    hist['files'].update({n: len(v) for n, v in new.items()})
    if new:
        hist['next'] = max(new) + 1
        hist['total'] += len(records)


def check_file(rep, g, gs, file, n, rows, tasks, stem, par):
    rep.require(file.attrs['set_number'] == n, 'set-number', f'set_number {file.attrs["set_number"]} in set {n}')
    rep.require(file.attrs['handler_name'] == stem, 'handler-name', f'{file.attrs["handler_name"]}')
    rep.require(file.attrs['writes'] == len(rows), 'writes', f'writes {file.attrs["writes"]} of {len(rows)}')
    for sn in ['iteration', 'sim_time', 'timestep', 'write_number']:
        got = file['scales'][sn][:]
        want = np.array([r[sn] for r in rows])
        rep.require(got.shape == want.shape and np.array_equal(got, want), f'time-scale:{sn}', f'{sn} {got} instead of {want}')
    wt = file['scales/wall_time'][:]
    ok = wt.shape == (len(rows),) and all((abs(a - r['wall_time']) < 30 if r.get('explicit') else a == r['wall_time']) for a, r in zip(wt, rows))
    rep.require(ok, 'time-scale:wall_time', f'{wt} for {[r["wall_time"] for r in rows]}')
    rep.require(set(file['tasks']) == {t['name'] for t in tasks}, 'task-names', f'{sorted(file["tasks"])} instead of {sorted(t["name"] for t in tasks)}')
    for t in tasks:
        if t['name'] not in file['tasks']:
            continue
        dset = file['tasks'][t['name']]
        what = f"{g.name} task {t['k']} layout {t['layout']} scales {t['scales']} ({par}, {g.dist.comm.size} processes)"
        if not rep.require(dset.shape[0] == len(rows), 'dataset-writes', f'{what}: shape {dset.shape} for {len(rows)} writes'):
            continue
        if not all(t['space']):
            rep.count('coeff_tasks')
        for i, r in enumerate(rows):
            want, out = twin_value(g, gs, t, r['glob'], t['space'])
            rep.count('datasets_compared')
            rep.close(dset[i], want, 1e-7 if t['k'] in ('lap', 'grad') else 1e-10, f"data:{t['k']}", f'{what} write {r["write_number"]}')
        rep.require(dset.dtype == out.dtype, 'dtype', f'{what}: {dset.dtype}')
        check_dims(rep, gs, dset, out, t, what)


def check_dims(rep, g, dset, out, t, what):
    rank = len(out.tensorsig)
    space = t['space']
    scales = g.dist.remedy_scales(t['scales'])
    rep.require(list(np.atleast_1d(dset.attrs['grid_space'])) == list(space), 'attr-grid_space', f'{what}: {dset.attrs["grid_space"]}')
    rep.require(list(np.atleast_1d(dset.attrs['constant'])) == [bool(x) for x in out.domain.constant], 'attr-constant', f'{what}: {dset.attrs["constant"]}')
    rep.require(np.allclose(dset.attrs['scales'], scales), 'attr-scales', f'{what}: {dset.attrs["scales"]}')
    rep.require(dset.dims[0].label == 't', 'dim-label', f'{what}: {dset.dims[0].label}')
    for sn in ['sim_time', 'wall_time', 'timestep', 'iteration', 'write_number']:
        rep.require(sn in dset.dims[0].keys() and np.array_equal(dset.dims[0][sn][:], dset.file['scales'][sn][:]), 'time-scale-attached', f'{what}: {sn}')
    for ax in range(g.dim):
        dim = dset.dims[1+rank+ax]
        basis = out.domain.full_bases[ax]
        if basis is None:
            rep.require(dim.label == 'constant', 'dim-label', f'{what} axis {ax}: {dim.label}')
            continue
        sub = ax - g.dist.get_basis_axis(basis)
        coord = basis.coordsys.coords[sub].name
        rep.require(dim.label == (coord if space[ax] else 'k' + coord), 'dim-label', f'{what} axis {ax}: {dim.label} for coordinate {coord} {"grid" if space[ax] else "modes"}')
        if not rep.require(len(dim) == 1, 'dim-scale', f'{what} axis {ax}: {len(dim)} scales'):
            continue
        got = dim[0][()]
        rep.count('coordinates')
        if space[ax]:
            want = grid_of(g, basis, ax, sub, scales)
            rep.require(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-12), 'dim-grid', f'{what} axis {ax}: {got} instead of {want}')
            rep.require(got.shape == dset.shape[1+rank+ax:2+rank+ax], 'dim-length', f'{what} axis {ax} ({dim.label}): {got.shape} coordinates for {dset.shape}')
        elif basis.dim == 1 and g.name in G.CART and type(basis).__name__ in ('RealFourier', 'ComplexFourier', 'Jacobi'):
            N = basis.size
            if type(basis).__name__ == 'Jacobi':
                want = np.arange(N)
            elif type(basis).__name__ == 'RealFourier':
                want = np.arange(N)//2
            else:
                want = np.concatenate([np.arange(N//2), np.arange(-N//2, 0)])
                want[N//2] = abs(want[N//2])      # sign of the Nyquist mode is a convention
                got = np.where(np.arange(N) == N//2, np.abs(got), got) if got.shape == (N,) else got
            rep.require(got.shape == want.shape and np.array_equal(got, want), 'dim-modes', f'{what} axis {ax}: {np.asarray(got).tolist()} instead of {want.tolist()}')


def grid_of(g, basis, ax, sub, scales):
    name = type(basis).__name__
    if name in ('RealFourier', 'ComplexFourier'):
        a, b = basis.bounds
        M = int(np.ceil(basis.size*scales[ax]))
        return a + (b-a)*np.arange(M)/M
    return np.asarray(basis.global_grids(g.dist, scales[ax-sub:ax-sub+basis.dim])[sub]).ravel()
