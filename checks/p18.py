"""P18: checkpoints restart faithfully and post-processing keeps the data."""
import os
import signal
import shutil
import time
import pathlib
import numpy as np
import probs
import geoms as G
import timeref as TR
import p17

RULE = ("Restart cases run a problem with file output, some killed with SIGKILL at a random step or (crash cases) at a random HDF5 call inside a write, then restart fresh builds (and the same solver, rewound) from random writes and compare times, counters, state and the continued trajectory with a twin "
        "started from the recorded state and, for one-step schemes, with the uninterrupted run; appended output must continue the numbering. Transfer cases write fields of every geometry with known functions and load them at another resolution, "
        "layout, process count and parallel method. Post-processing cases merge virtual files, load tasks to xarray and divide writes between processes, and compare every value, coordinate and attribute with the original files.")
MIN = {'comparisons': 3000, 'restarts': 100, 'kills': 15, 'write_kills': 40, 'write_restarts': 40, 'rewinds': 10, 'transfers': 80, 'merged_tasks': 40, 'xarrays': 100, 'mpi_runs': 10, 'continued_steps': 300, 'rejections': 30}
BUDGET = {'quick': 400, 'thorough': 2400}
WORKERS = 7
CASE_S = 300
ASSUMPTIONS = ["a run is killed between or inside writes but not while HDF5 itself runs or while a new output file is being created (both can leave a file HDF5 cannot read)", "merging of distributed sets in the format of Dedalus 2 is not covered (no current handler writes it)"]


def cases(tier, rng):
    out = []
    schemes = TR.MULTISTEP + TR.RK
    fams = probs.names('ivp')
    k = int(rng.integers(100))
    for i in range(5 if tier == 'quick' else 30):
        for f in fams:
            out.append({'kind': 'restart', 'scheme': schemes[k % len(schemes)] if k % 2 else TR.RK[(k//2) % len(TR.RK)], 'spec': probs.random_spec(rng, f, small=True), 'i': i})
            k += 1
    for i in range(2 if tier == 'quick' else 12):
        for f in fams:
            out.append({'kind': 'crash', 'scheme': TR.RK[(k + i) % len(TR.RK)] if rng.random() < 0.7 else TR.MULTISTEP[k % len(TR.MULTISTEP)], 'spec': probs.random_spec(rng, f, small=True), 'i': i})
            k += 1
    for i in range(4 if tier == 'quick' else 20):
        for geo in ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl', 'cyl_annulus']:
            out.append({'kind': 'transfer', 'spec': G.random_spec(rng, geo, deg=2), 'i': i})
    for i in range(5 if tier == 'quick' else 25):
        geo = ['cart2', 'cart3', 'cart3', 'disk', 'ball', 'shell', 'sphere', 'cyl_disk', 'annulus'][int(rng.integers(9))]
        D = int(geo[-1]) if geo in G.CART else 2 if geo in ('disk', 'annulus', 'sphere') else 3
        n1, n2 = [(1, 4), (4, 1), (2, 3), (4, 2), (3, 4)][i % 5]
        m1, m2 = [p17.meshes(n, D) for n in (n1, n2)]
        out.append({'kind': 'mpi', 'spec': G.random_spec(rng, geo, deg=2), 'n': [n1, n2], 'mesh': [m1[int(rng.integers(len(m1)))], m2[int(rng.integers(len(m2)))]], 'i': i})
    for i in range(12 if tier == 'quick' else 60):
        geo = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk'][i % 9]
        out.append({'kind': 'post', 'spec': G.random_spec(rng, geo, deg=2), 'i': i})
    for c in out:
        if c['kind'] not in ('restart', 'crash') and c['spec']['g'] == 'ball':
            c['spec']['shape'] = list(c['spec']['shape'][:2]) + [max(c['spec']['shape'][2], c['spec']['shape'][1]//2 + 2)]
    return out


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


# Restart

def launch(case, opts, t0=None):
    P = probs.build(case['spec'])
    solver = P.ivp().build_solver(case['scheme'], **dict(P.solver_kw, **opts))
    P.set_initial()
    if case['spec']['fam'] == 'ode':
        for n in 'uvw':
            P.ns[n]['g'] = 0.5
    return P, solver


def add_output(P, solver, path, o):
    h = solver.evaluator.add_file_handler(path, iter=o['iter'], max_writes=o['max'], parallel=o['parallel'], mode=o['mode'])
    for f in P.vars:
        h.add_task(f, name=f.name, layout=o['layout'], scales=o['scales'](f))
    return h


def coeffs(P):
    out = []
    for f in P.vars:
        c = f.copy()
        c.change_scales(1)
        out.append(c['c'].copy())
    return out


def put(P, X):
    for f, x in zip(P.vars, X):
        f.preset_scales(1)
        f['c'] = x


def compare(ctx, case, P, X, mech, msg, n=0):
    ok = True
    worst = max([np.max(np.abs(x)) for x in X if x.size] + [0])
    for f, a, b in zip(P.vars, coeffs(P), X):
        sc = worst if f.name.startswith('tau') else max(np.max(np.abs(b)) if b.size else 0, 1e-2*min(worst, 1))
        tol = 1e-10*(1 + n)
        if case['spec']['fam'] in ('annheat', 'shellconv'):
            tol = 1e-2 if f.name.startswith('tau') else 1e-4
        ok = ctx.close(a, b, tol, mech, f"{case['spec']['fam']} {case['scheme']}: {msg}: {f.name}", scale=max(sc, 1e-6)) and ok
    return ok


def run_restart(case, ctx):
    import h5py
    rng = ctx.rng()
    N = 8
    ks = [float(0.01*rng.choice([0.5, 1, 1, 1.3])) for _ in range(N)]
    layout = 'c' if rng.random() < 0.3 else 'g'
    curved = case['spec']['fam'] in ('diskflow', 'annheat', 'shallow', 'ballconv', 'shellconv')
    sc = float(rng.choice([1, 1.5, 2])) if not curved else 1.5
    o = {'iter': int(rng.choice([1, 2])), 'max': [None, 2, 3][int(rng.integers(3))], 'parallel': ['gather', 'virtual'][int(rng.integers(2))], 'mode': 'overwrite', 'layout': layout,
         'scales': (lambda f: sc)}
    opts = {'enforce_real_cadence': [1, 3, 100, None][int(rng.integers(4))]}
    path = os.path.join(ctx.scratch, 'ck')
    # Uninterrupted run without any output: states before every step
    P, solver = launch(case, opts)
    states, times = [coeffs(P)], [solver.sim_time]
    for k in ks:
        solver.step(k)
        states.append(coeffs(P))
        times.append(solver.sim_time)
        if not np.isfinite(states[-1][0]).all() or max(np.max(np.abs(x)) if x.size else 0 for x in states[-1]) > 1e3:
            ctx.count('blowups')
            return
    # Run with output, possibly killed
    stop = N
    if rng.random() < 0.6:
        stop = int(rng.integers(2, N))
        pid = os.fork()
        if pid == 0:
            try:
                P1, s1 = launch(case, opts)
                add_output(P1, s1, path, o)
                for k in ks[:stop]:
                    s1.step(k)
                os.kill(os.getpid(), signal.SIGKILL)
            finally:
                os._exit(77)
        _, status = os.waitpid(pid, 0)
        if not (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL):
            raise RuntimeError(f"killed run ended with {status}")
        ctx.count('kills')
    else:
        P1, s1 = launch(case, opts)
        add_output(P1, s1, path, o)
        for i, k in enumerate(ks):
            s1.step(k)
            compare(ctx, case, P1, states[i+1], 'run-with-output', f"step {i} with output every {o['iter']}")
    writes = list(range(0, stop, o['iter']))     # iteration of each write
    sets = {}
    for w, it in enumerate(writes):
        sets.setdefault(1 + (w//o['max'] if o['max'] else 0), []).append((w+1, it))
    files = {n: os.path.join(path, f'ck_s{n}.h5') for n in sets}
    ctx.require(sorted(f for f in os.listdir(path) if f.endswith('.h5')) == sorted(os.path.basename(f) for f in files.values()), 'sets', f"{sorted(os.listdir(path))} for writes at {writes}, {o['max']} per set")
    # Restart from a few writes
    for rep in range(2):
        n = int(rng.choice(list(sets)))
        j = int(rng.integers(len(sets[n])))
        idx = j if rng.random() < 0.5 else j - len(sets[n])
        w, it = sets[n][j]
        P2, s2 = launch(case, opts)
        for f in P2.vars:
            f.change_scales(float(rng.choice([1, 1.5])))
            f['g' if rng.random() < 0.5 else 'c'] *= float(rng.uniform(-1, 1))      # whatever was there before is replaced
        steps = int(rng.integers(0, 3))
        rewound = rng.random() < 0.3 and case['scheme'] in TR.RK
        if rewound:
            for k in ks[:steps+2]:
                s2.step(k)
            ctx.count('rewinds')
        arg = files[n] if rng.random() < 0.5 else pathlib.Path(files[n])
        got = s2.load_state(arg, index=idx) if idx != -1 or rng.random() < 0.5 else s2.load_state(arg)
        what = f"set {n} index {idx} ({o['parallel']}, layout {layout}, scales {sc})"
        ctx.require(int(got[0]) == w and float(got[1]) == ks[it], 'load-return', f"{what}: returned {got} for write {w}, timestep {ks[it]}")
        ctx.require(s2.iteration == it and s2.initial_iteration == it, 'load-iteration', f"{what}: iteration {s2.iteration} (initial {s2.initial_iteration}) instead of {it}")
        tf = float(np.real(s2.problem.time['g'].ravel()[0]))
        ctx.require(s2.sim_time == times[it] and s2.initial_sim_time == times[it] and tf == times[it], 'load-time', f"{what}: time {s2.sim_time} (initial {s2.initial_sim_time}, field {tf}) instead of {times[it]}")
        compare(ctx, case, P2, states[it], 'load-state', what)
        # Stop conditions are about the time and iteration of the whole run
        for attr, now, later in (('stop_iteration', it, it + 1), ('stop_sim_time', times[it], times[it] + 1e-3)):
            for value, go in ((now, False), (later, True)):
                setattr(s2, attr, value)
                ctx.require(bool(s2.proceed) is go, 'load-stop', f"{what}: proceed is {s2.proceed} at iteration {it}, time {times[it]} with {attr} {value}")
            setattr(s2, attr, np.inf)
        ctx.count('restarts')
        ctx.state(case['scheme'], case['spec']['fam'], it, o['parallel'], layout, rewound)
        # Continue, next to a twin started from the recorded state
        P3, s3 = launch(case, opts)
        put(P3, states[it])
        s3.sim_time = s3.initial_sim_time = times[it]
        s3.iteration = s3.initial_iteration = it
        o2 = dict(o, mode='append')
        last = (rep == 1)
        if last:
            add_output(P2, s2, path, o2)
        for i in range(it, N):
            s2.step(ks[i])
            s3.step(ks[i])
            ctx.count('continued_steps')
            ok = compare(ctx, case, P2, coeffs(P3), 'continued', f"step {i} after restart at {it} from {what}{' on a used solver' if rewound else ''}", i)
            if case['scheme'] in TR.RK:
                ok = compare(ctx, case, P2, states[i+1], 'continued-as-uninterrupted', f"step {i} after restart at {it} from {what}{' on a used solver' if rewound else ''}", i) and ok
            ctx.require(s2.iteration == i+1 and abs(s2.sim_time - times[i+1]) < 1e-12, 'continued-clock', f"iteration {s2.iteration}, time {s2.sim_time} instead of {i+1}, {times[i+1]}")
            if not ok:
                return
        if last:
            # Appended output continues the numbering after the last write of the first run
            names = sorted((f for f in os.listdir(path) if f.endswith('.h5')), key=lambda f: int(f[4:-3]))
            wn, its = [], []
            for f in names:
                with h5py.File(os.path.join(path, f), 'r') as file:
                    wn += list(file['scales/write_number'][:])
                    its += list(file['scales/iteration'][:])
            # the first output of a handler is at its first step, then whenever the iteration passes a multiple of the cadence
            again = [i for i in range(it, N) if i == it or i % o['iter'] == 0]
            ctx.require(wn == list(range(1, len(writes) + len(again) + 1)), 'append-numbering', f"write numbers {wn} for {len(writes)} + {len(again)} writes")
            ctx.require(its == writes + again, 'append-iterations', f"iterations {its} instead of {writes} + {again}")
            ctx.count('appended')
    missing(case, ctx, rng, P, files[1], states, writes)


def missing(case, ctx, rng, P, file, states, writes):
    """Absent variables are reported, or kept when allowed."""
    import h5py
    bad = os.path.join(ctx.scratch, 'missing.h5')
    with h5py.File(bad, 'w') as out, h5py.File(file, 'r') as src:
        out.create_group('scales')
        out.create_group('tasks')
        for k in ['write_number', 'timestep', 'iteration', 'sim_time']:
            out['scales'][k] = src['scales'][k][:]
        drop = P.vars[int(rng.integers(len(P.vars)))].name
        for f in P.vars:
            if f.name != drop:
                d = out['tasks'].create_dataset(f.name, data=src['tasks'][f.name][:])
                d.attrs['grid_space'] = src['tasks'][f.name].attrs['grid_space']
    P2, s2 = launch(case, {})
    ctx.raises(lambda: s2.load_state(bad, 0), 'missing-variable', f"load_state accepted a file without variable {drop}", ok=(IOError,))
    P2, s2 = launch(case, {})
    before = coeffs(P2)
    s2.load_state(bad, 0, allow_missing=True)
    want = [b if f.name == drop else s for f, b, s in zip(P2.vars, before, states[writes[0]])]
    compare(ctx, case, P2, want, 'allow-missing', f"without {drop}")
    ctx.raises(lambda: s2.load_state(file, len(writes) + 50), 'bad-index', "load_state accepted an index beyond the writes")


# Runs killed in the middle of a write

def h5_events(on_event):
    """Report the start and the end of every HDF5 call that modifies an existing file (not while a new file is being created)."""
    import h5py
    creating = []

    def wrap(cls, name, tag):
        orig = getattr(cls, name)

        def call(self, *a, **kw):
            if not creating:
                on_event(tag)
            r = orig(self, *a, **kw)
            if not creating:
                on_event(tag)
            return r
        setattr(cls, name, call)
    for cls, name, tag in [(h5py.Dataset, '__setitem__', 'write'), (h5py.Dataset, 'resize', 'resize'), (h5py.AttributeManager, '__setitem__', 'attr'),
                           (h5py.Group, 'create_dataset', 'create'), (h5py.Group, 'create_virtual_dataset', 'virtual')]:
        wrap(cls, name, tag)
    init, close = h5py.File.__init__, h5py.File.close

    def new_init(self, name, mode='r', *a, **kw):
        if mode.startswith(('w', 'x')):
            creating.append(self)
            init(self, name, mode, *a, **kw)
        elif mode == 'r' or creating:
            init(self, name, mode, *a, **kw)
        else:
            on_event('open')
            init(self, name, mode, *a, **kw)
            on_event('open')

    def new_close(self):
        if self in creating:
            close(self)
            creating[:] = [c for c in creating if c is not self]
        elif creating or not self:
            close(self)
        else:
            on_event('close')
            close(self)
            on_event('close')
    h5py.File.__init__, h5py.File.close = new_init, new_close


def crash_sets(path, name):
    """Contents of every set: {set number: (writes attribute, write numbers, iterations, {task: array})}."""
    import h5py
    out = {}
    for f in os.listdir(path):
        if f.endswith('.h5'):
            with h5py.File(os.path.join(path, f), 'r') as file:
                wn = file['scales/write_number'][:]
                tasks = {k: file['tasks'][k][:len(wn)] if len(wn) else file['tasks'][k][:0] for k in file['tasks']}
                out[int(f[len(name)+2:-3])] = (int(file.attrs['writes']), [int(i) for i in wn], [int(i) for i in file['scales/iteration'][:]], tasks)
    return out


def run_crash(case, ctx):
    from dedalus.tools import post
    rng = ctx.rng()
    N = int(rng.integers(3, 7))
    k = 0.01
    o = {'iter': int(rng.choice([1, 1, 2])), 'max': [None, 1, 2, 3][int(rng.integers(4))], 'parallel': ['gather', 'virtual'][int(rng.integers(2))], 'mode': 'overwrite',
         'layout': 'gc'[int(rng.integers(2))], 'scales': (lambda f: 1)}

    def go(path, o, n, setup=None):
        P, s = launch(case, {})
        add_output(P, s, path, o)
        if setup:
            setup(P, s)
        for i in range(n):
            s.step(k)
        return P, s
    twin, path = os.path.join(ctx.scratch, 'twin', 'ck'), os.path.join(ctx.scratch, 'run', 'ck')
    os.makedirs(os.path.dirname(twin)), os.makedirs(os.path.dirname(path))
    # Uninterrupted twin, counting its HDF5 calls
    log = os.path.join(ctx.scratch, 'events')
    pid = os.fork()
    if pid == 0:
        code = 78
        try:
            tags = []
            h5_events(tags.append)
            go(twin, o, N)
            with open(log, 'w') as f:
                f.write(' '.join(tags))
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise RuntimeError(f"twin run ended with {status}")
    tags = open(log).read().split()
    want = crash_sets(twin, 'ck')
    full = {w: (it, {t: want[n][3][t][j] for t in want[n][3]}) for n in want for j, (w, it) in enumerate(zip(want[n][1], want[n][2]))}
    its = [i for i in range(N) if i % o['iter'] == 0]
    ctx.require([full[w][0] for w in sorted(full)] == its and sorted(full) == list(range(1, len(its)+1)), 'crash-twin', f"uninterrupted output has writes {sorted(full)} at iterations {[full[w][0] for w in sorted(full)]}")
    for n in want:
        ctx.require(want[n][0] == len(want[n][1]), 'writes-attr', f"set {n} says {want[n][0]} writes and holds {len(want[n][1])}")
    for rep in range(3):
        at = int(rng.integers(len(tags)))
        shutil.rmtree(os.path.dirname(path))
        os.makedirs(os.path.dirname(path))
        pid = os.fork()
        if pid == 0:
            try:
                count = [0]

                def on(tag):
                    if count[0] == at:
                        os.kill(os.getpid(), signal.SIGKILL)
                    count[0] += 1
                h5_events(on)
                go(path, o, N)
            finally:
                os._exit(77)
        _, status = os.waitpid(pid, 0)
        if not (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL):
            raise RuntimeError(f"killed run ended with {status}")
        ctx.count('write_kills')
        what = f"{case['spec']['fam']} {o['parallel']} max_writes={o['max']} layout={o['layout']} killed at HDF5 call {at} ({tags[at]}) of {len(tags)}"
        ctx.state('crash', case['spec']['fam'], o['parallel'], o['max'], tags[at], at)
        left = crash_sets(path, 'ck')
        have = {}
        for n in sorted(left):
            attr, wn, iters, tasks = left[n]
            ctx.require(attr == len(wn), 'writes-attr', f"{what}: set {n} says {attr} writes and holds {len(wn)}")
            for j, (w, it) in enumerate(zip(wn, iters)):
                have[w] = (it, {t: tasks[t][j] for t in tasks}, n, j)
        ctx.require(sorted(have) == list(range(1, len(have)+1)), 'crash-writes', f"{what}: writes {sorted(have)} left")
        # a write is over when all files it opened are closed
        files = tags.count('open')//2//len(its)
        ended = tags[:at].count('close')//2//files
        ctx.require(len(have) >= ended, 'crash-lost', f"{what}: only {len(have)} writes left after {ended} were complete")
        for w in have:
            ctx.require(have[w][0] == full[w][0], 'crash-kept', f"{what}: write {w} has iteration {have[w][0]} instead of {full[w][0]}")
            for t in full[w][1]:
                ctx.close(have[w][1][t], full[w][1][t], 1e-10 if not t.startswith('tau') and case['spec']['fam'] not in ('annheat', 'shellconv') else 1e-2, 'crash-kept', f"{what}: write {w} of {t} differs from the uninterrupted run", scale=max(np.max(np.abs(full[w][1][t])) if full[w][1][t].size else 0, 1e-6 if not t.startswith('tau') else 1))
        # Restart from the last complete write, appending
        last = max(have) if have else 0
        start = have[last][0] if last else 0

        def setup(P, s):
            if last:
                got = s.load_state(os.path.join(path, f'ck_s{have[last][2]}.h5'), have[last][3])
                ctx.require(int(got[0]) == last and s.iteration == start, 'crash-load', f"{what}: load_state returned {got} at iteration {s.iteration} for write {last}, iteration {start}")
        go(path, dict(o, mode='append'), N - start, setup)
        ctx.count('write_restarts')
        again = [i for i in range(start, N) if i == start or i % o['iter'] == 0]
        now = crash_sets(path, 'ck')
        ctx.require(set(left) <= set(now) and all(n in now and now[n][:3] == left[n][:3] and all(np.array_equal(now[n][3][t], left[n][3][t]) for t in left[n][3]) for n in left), 'crash-overwrote',
                    f"{what}: appending changed earlier sets: {[now.get(n, (None,)*3)[:3] for n in left]} from {[left[n][:3] for n in left]}")
        new = sorted((w, it) for n in now if n not in left for w, it in zip(now[n][1], now[n][2]))
        ctx.require(new == list(zip(range(last+1, last+1+len(again)), again)), 'crash-append', f"{what}: restart at iteration {start} after write {last} wrote (number, iteration) {new} instead of iterations {again}")
        for n in now:
            ctx.require(now[n][0] == len(now[n][1]), 'writes-attr', f"{what}: after restart set {n} says {now[n][0]} writes and holds {len(now[n][1])}")
        # One-step schemes: the restarted output is the uninterrupted one
        if case['scheme'] in TR.RK:
            by_it = {full[w][0]: full[w][1] for w in full}
            for n in now:
                for j, it in enumerate(now[n][2]):
                    for t in now[n][3]:
                        if it in by_it and not t.startswith('tau'):
                            scale = max(np.max(np.abs(by_it[it][t])) if by_it[it][t].size else 0, 1e-6)
                            tol = 1e-4 if case['spec']['fam'] in ('annheat', 'shellconv') else 1e-9
                            ctx.close(now[n][3][t][j], by_it[it][t], tol, 'crash-continued', f"{what}: {t} at iteration {it} after restart at {start}", scale=scale)
        # The listing used to share writes between processes counts exactly what is there
        paths = sorted(pathlib.Path(path).glob('*.h5'))
        starts, counts = post.get_assigned_writes(paths)
        ctx.require([int(c) for c in post.get_all_writes(paths)] == [len(now[n][1]) for n in sorted(now)] and [int(c) for c in counts] == [len(now[n][1]) for n in sorted(now)] and not np.any(starts), 'crash-listing',
                    f"{what}: post lists {post.get_all_writes(paths)}, starts {starts}, counts {counts} for {[(n, len(now[n][1])) for n in sorted(now)]}")


# Transfer to other resolutions

def resized(rng, spec):
    """Same geometry, another resolution that still holds polynomials of the same degree."""
    s = dict(spec)
    if s['g'] in G.CART:
        s['axes'] = [dict(ax) for ax in s['axes']]
        for ax, d, k in zip(s['axes'], s['deg'], s['kmax']):
            lo = (2*k + 2) if ax['b'] == 'F' else d + 1
            ax['N'] = max(lo, ax['N'] + int(rng.integers(-4, 7)))
            if ax['b'] == 'F':
                ax['N'] += ax['N'] % 2
        return s
    sh = list(s['shape'])
    g = s['g']
    up = int(rng.integers(1, 3))
    sh[0] += 4*up
    for i in range(1, len(sh)):
        sh[i] += 2*up
    if g == 'ball':
        sh[2] += up
    if g in ('disk', 'cyl_disk', 'disk_cyl'):
        sh[1] += up
    if rng.random() < 0.5:
        sh = [a + (b - a if i == len(sh) - 1 else 0) for i, (a, b) in enumerate(zip(s['shape'], sh))]
    if g == 'ball':
        sh[2] = max(sh[2], sh[1]//2 + 2)
    s['shape'] = sh
    if 'z' in s:
        s['z'] = dict(s['z'], N=s['z']['N'] + 2*int(rng.integers(0, 3)))
    return s


def known_fields(g, rng, seeds):
    fs, Ts = [], []
    maxr = 1 if g.name in ('sphere',) else 2
    for i in range(3):
        r = min(i, maxr)
        f = G.make_field(g, r, f'v{i}')
        fs.append(f)
        Ts.append(G.random_tensor(g, np.random.default_rng(seeds[i]), r))
    return fs, Ts


def times(a, T):
    out = np.empty(T.shape, dtype=object)
    for i in np.ndindex(T.shape):
        out[i] = a*T[i]
    return out


def problem_of(g, fs):
    import dedalus.public as d3
    pr = d3.IVP(fs, namespace={f.name: f for f in fs})
    for f in fs:
        pr.add_equation(f"dt({f.name}) + {f.name} = 0")
    return pr


def usable(g):
    """Scales at which a saved grid still holds the field."""
    return [1.5, 2.] if g.name not in G.CART else [1., 1.25, 1.5, 2.]


def run_transfer(case, ctx):
    import h5py
    rng = ctx.rng()
    spec = case['spec']
    g = G.build(spec)
    seeds = [int(rng.integers(1 << 30)) for _ in range(3)]
    fs, Ts = known_fields(g, rng, seeds)
    const = g.dist.Field(name='k')
    subs = G.subdomains(g)
    sub = subs[int(rng.integers(len(subs)))] if subs else None
    for f, T in zip(fs, Ts):
        G.set_field(g, f, T, [max(d, 1.5) for d in g.dealias])
    const['g'] = 2.25
    solver = problem_of(g, fs).build_solver('RK111')
    path = os.path.join(ctx.scratch, 'tr')
    h = solver.evaluator.add_file_handler(path, iter=1, parallel=['gather', 'virtual'][int(rng.integers(2))])
    scales = usable(g)[int(rng.integers(len(usable(g))))]
    for f in fs:
        h.add_task(f, name=f.name, layout='g', scales=scales)
    h.add_task(fs[0], name='v0c', layout='c')
    h.add_task(fs[1], name='v1c', layout='c')
    h.add_task(const, name='k', layout='g')
    if sub:
        lab, bases, gen, axes = sub
        Tsub = gen(np.random.default_rng(seeds[0]), 0)
        fsub = g.dist.Field(name='fsub', bases=bases)
        fsub.change_scales(G.norm_scales(g, [max(d, 1.5) for d in g.dealias]))
        fsub['g'] = G.on_grid_sub(g, Tsub, fsub.scales, axes)
        h.add_task(fsub, name='fsub', layout='g', scales=scales)
    solver.step(0.25)
    fac = [1., 1/1.25]
    solver.step(0.5)
    file = os.path.join(path, 'tr_s1.h5')
    for rep in range(3):
        spec2 = resized(rng, spec) if rep else spec
        g2 = G.build(spec2)
        fs2, _ = known_fields(g2, rng, seeds)
        idx = int(rng.integers(2))
        s2 = problem_of(g2, fs2).build_solver('RK111')
        for f in fs2:
            f['g'] = 7.
        try:
            s2.load_state(file, idx)
        except Exception as e:
            ctx.violation(f'transfer-exception:{type(e).__name__}', f"{spec['g']}: loading scales {scales} of {spec.get('shape') or [a['N'] for a in spec['axes']]} at {spec2.get('shape') or [a['N'] for a in spec2['axes']]}: {e}")
            return
        what = f"{spec['g']}: saved with scales {scales}, loaded at another resolution {spec2.get('shape') or [a['N'] for a in spec2['axes']]} (saved {spec.get('shape') or [a['N'] for a in spec['axes']]})"
        for f, T in zip(fs2, Ts):
            ctx.count('transfers')
            G.check_field(ctx, g2, f.copy(), times(fac[idx], T), 1e-7, f'transfer:rank{len(f.tensorsig)}', f'{what}: {f.name}', scales=[max(d, 1.5) for d in g2.dealias], scale=G.tmax(T, g2))
            ctx.require(tuple(np.round(f.scales, 12)) == tuple(np.round(f.domain.dealias, 12)), 'transfer-scales', f"{what}: loaded field left at scales {f.scales} (dealias {f.domain.dealias})")
        ctx.state(spec['g'], scales, rep, idx)
        with h5py.File(file, 'r') as F:
            # other names, functions of the data, and constants
            w = G.make_field(g2, 0, 'other')
            w.load_from_hdf5(F, idx, task='v0', func=lambda x: 3*x - 1)
            ref = times(fac[idx], Ts[0])
            one = G.make_field(g2, 0)
            one['g'] = 1
            w2 = ((w + 1)/3).evaluate()
            G.check_field(ctx, g2, w2, ref, 1e-7, 'load-func', what, scales=[max(d, 1.5) for d in g2.dealias], scale=G.tmax(Ts[0], g2) + 1)
            kk = g2.dist.Field(name='k')
            kk.load_from_hdf5(F, idx)
            ctx.close(kk['g'], 2.25*np.ones_like(kk['g']), 1e-14, 'load-constant', what)
            if sub:
                lab, bases, gen, axes = G.subdomains(g2)[[x[0] for x in subs].index(sub[0])]
                ff = g2.dist.Field(name='fsub', bases=bases)
                ff.load_from_hdf5(F, idx)
                ff.change_scales(G.norm_scales(g2, [max(d, 1.5) for d in g2.dealias]))
                ctx.close(ff['g'], G.on_grid_sub(g2, Tsub, ff.scales, axes), 1e-7, 'transfer-lower-dimensional', f'{what} {lab}', scale=max(G.tmax(Tsub, g2), 1e-12))
                ctx.count('transfers')
            same = (spec2 == spec)
            for nm, f0, T in (('v0c', fs[0], Ts[0]), ('v1c', fs[1], Ts[1])):
                c = G.make_field(g2, len(f0.tensorsig))
                if c.domain.dist.coeff_layout.global_shape(c.domain, 1) == F['tasks'][nm].shape[-g.dim:]:
                    if same:
                        c.load_from_hdf5(F, idx, task=nm)
                        ctx.count('transfers')
                        G.check_field(ctx, g2, c, times(fac[idx], T), 1e-7, 'load-coeff', f'{what} {nm}', scales=[max(d, 1.5) for d in g2.dealias], scale=G.tmax(T, g2))
                else:
                    ctx.raises(lambda: c.load_from_hdf5(F, idx, task=nm), 'coeff-resize', f"{what}: coefficients of another resolution were accepted", ok=(ValueError,))


# Across process counts

def run_mpi(case, ctx):
    p = dict(case, key=[ctx.seed, str(case)], dir=ctx.scratch)
    for phase in (0, 1):
        n = case['n'][phase]
        res = ctx.mpirun(n, 'ranks', dict(p, phase=phase), hang='P18')
        if res is None:
            return
        for r in res:
            for k, v in r['counts'].items():
                ctx.count(k, v)
            for m, msg in r['viol']:
                ctx.violation(m, msg)
    ctx.state(case['spec']['g'], *case['n'])


def ranks(comm, p, outdir):
    import logging
    logging.disable(logging.WARNING)
    import harness
    import h5py
    rep = p17.Report(comm)
    rng = harness.rng_for(*p['key'])
    spec = p['spec']
    seeds = [int(rng.integers(1 << 30)) for _ in range(3)]
    g = G.build(spec, comm=comm, mesh=p['mesh'][p['phase']])
    path = os.path.join(p['dir'], 'x')
    parallel = ['gather', 'virtual'][int(rng.integers(2))]
    scales = [max(1.5, d) for d in g.dealias]
    fs, Ts = known_fields(g, rng, seeds)
    file = os.path.join(path, 'x_s2.h5')
    if p['phase'] == 0:
        for f, T in zip(fs, Ts):
            G.set_field(g, f, T, scales)
        solver = problem_of(g, fs).build_solver('RK111')
        h = solver.evaluator.add_file_handler(path, iter=1, max_writes=2, parallel=parallel)
        for f in fs:
            h.add_task(f, name=f.name, layout='g', scales=tuple(scales))
            h.add_task(f, name=f.name + 'c', layout='c')
        for i in range(5):
            solver.step(0.25)
    else:
        spec2 = resized(rng, spec)
        g2 = G.build(spec2, comm=comm, mesh=p['mesh'][1])
        for G_, tag in ((g, 'same'), (g2, 'other')):
            fs, _ = known_fields(G_, rng, seeds)
            s = problem_of(G_, fs).build_solver('RK111')
            got = s.load_state(file, 0)
            rep.require(int(got[0]) == 3 and s.iteration == 2 and abs(s.sim_time - 0.5) < 1e-14, 'load-clock', f"{got} {s.iteration} {s.sim_time}")
            sc = [max(1.5, d) for d in G_.dealias]
            for f, T in zip(fs, Ts):
                f.change_scales(G.norm_scales(G_, sc))
                rep.close(f['g'], G.on_grid(G_, times(1/1.25**2, T), sc), 1e-7, 'transfer-processes', f"{spec['g']} {parallel} {p['n']} processes, {tag} resolution: {f.name}")
                rep.count('transfers')
            if tag == 'same':
                with h5py.File(file, 'r') as F:
                    for f, T in zip(fs, Ts):
                        f['g'] = 0
                        f.load_from_hdf5(F, 0, task=f.name + 'c')
                        f.change_scales(G.norm_scales(G_, sc))
                        rep.close(f['g'], G.on_grid(G_, times(1/1.25**2, T), sc), 1e-7, 'transfer-processes-coeff', f"{spec['g']} {parallel} {p['n']} processes: {f.name}")
        division(comm, rep, path)
        if parallel == 'virtual':
            merge_parallel(comm, rep, path)
    comm.Barrier()
    return rep.out


def division(comm, rep, path):
    """Writes are divided between the processes without loss or repetition."""
    from dedalus.tools import post
    files = sorted(str(f) for f in pathlib.Path(path).glob('x_s*.h5'))
    seen = []
    post.visit_writes(files, lambda f, start, count, tag: seen.extend((os.path.basename(str(f)), tag, int(i)) for i in range(start, start+count)), tag='q')
    every = comm.gather(seen)
    if comm.rank == 0:
        got = sorted(sum(every, []))
        want = sorted((os.path.basename(f), 'q', i) for f, n in zip(files, [2, 2, 1]) for i in range(n))
        rep.require(got == want, 'divided-writes', f"{every} instead of {want}")
    mine = [str(x) for x in post.get_assigned_sets(path)]
    every = comm.gather(mine)
    if comm.rank == 0:
        rep.require(sorted(sum(every, [])) == sorted(files), 'divided-sets', f"{every} instead of {files}")


def merge_parallel(comm, rep, path):
    import h5py
    from dedalus.tools import post
    before = {f: content(str(f)) for f in pathlib.Path(path).glob('x_s*.h5')} if comm.rank == 0 else None
    comm.Barrier()
    # injected delays: the other processes arrive while the first is writing its merged file
    File = h5py.File
    if comm.rank:
        time.sleep(0.25)
    else:
        def slow(*args, **kw):
            if kw.get('mode', 'r') == 'w':
                time.sleep(0.5)
            return File(*args, **kw)
        h5py.File = slow
    post.merge_virtual_analysis(path, cleanup=True)
    h5py.File = File
    comm.Barrier()
    if comm.rank == 0:
        for f, a in before.items():
            b = content(str(f))
            for d in differences(a, b):
                rep.require(False, 'merge', f"parallel merge of {f.name}: {d}")
            rep.require(not any(b['virtual'].values()), 'merge', f"{f.name} still virtual")
            rep.count('merged_tasks', len(a['tasks']))
        rep.require(not [q for q in os.listdir(path) if not q.endswith('.h5')], 'merge-cleanup', f"{os.listdir(path)}")


# Post-processing

def content(path):
    import h5py
    out = {'tasks': {}, 'virtual': {}, 'scales': {}, 'attrs': {}}
    with h5py.File(path, 'r') as f:
        out['attrs'] = {k: np.asarray(v).tolist() for k, v in f.attrs.items()}
        for n, s in f['scales'].items():
            out['scales'][n] = s[()]
        for n, d in f['tasks'].items():
            out['virtual'][n] = d.is_virtual
            out['tasks'][n] = {'data': d[()], 'dims': [(x.label, sorted((k, v.name) for k, v in x.items())) for x in d.dims],
                               'attrs': {k: np.asarray(v).tolist() for k, v in d.attrs.items() if k in ('constant', 'grid_space', 'scales')}}
    return out


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')


def differences(a, b):
    out = []
    if a['attrs'] != b['attrs']:
        out.append(f"attributes {b['attrs']} instead of {a['attrs']}")
    for part in ('scales', 'tasks'):
        if set(a[part]) != set(b[part]):
            out.append(f"{part} {sorted(b[part])} instead of {sorted(a[part])}")
    for n, x in a['scales'].items():
        if n in b['scales'] and not same(x, b['scales'][n]):
            out.append(f"scale {n} changed")
    for n, x in a['tasks'].items():
        y = b['tasks'].get(n)
        if y is not None:
            if not same(x['data'], y['data']):
                out.append(f"task {n} data changed")
            if x['dims'] != y['dims']:
                out.append(f"task {n} dimensions {y['dims']} instead of {x['dims']}")
            if x['attrs'] != y['attrs']:
                out.append(f"task {n} attributes {y['attrs']} instead of {x['attrs']}")
    return out


def run_post(case, ctx):
    import h5py
    from dedalus.tools import post
    from dedalus.core.evaluator import H5VirtualFileHandler
    rng = ctx.rng()
    spec = dict(case['spec'], i1=int(rng.integers(2)), i2=int(rng.integers(10)))
    if spec['g'] == 'sphere':
        spec['i1'] = 1
    g = G.build(spec)
    fs = p17.make_fields(g)
    for f in fs:
        f.fill_random('g', seed=int(rng.integers(1e6)), scales=1)
    import dedalus.public as d3
    pr = d3.IVP([fs[0]], namespace={'u': fs[0]})
    pr.add_equation("dt(u) + u = 0")
    solver = pr.build_solver('RK111')
    path = os.path.join(ctx.scratch, 'pp')
    m = [None, 2, 1][int(rng.integers(3))]
    h = solver.evaluator.add_file_handler(path, iter=1, parallel='virtual', max_writes=m)
    tasks = p17.random_tasks(g, rng, len(g.dist.layouts))
    for t in tasks:
        t['name'] = t['name'] or f'auto{tasks.index(t)}'
        h.add_task(p17.make_task(g, fs, t), layout=t['layout'] if isinstance(t['layout'], str) else g.dist.layouts[t['layout']], scales=t['scales'], name=t['name'])
    for i in range(4):
        solver.step(float(rng.uniform(0.05, 0.2)))
    files = sorted(pathlib.Path(path).glob('pp_s*.h5'))
    what = f"{spec['g']} tasks {[(t['k'], t['layout']) for t in tasks]}"
    for f in files:
        a = content(str(f))
        # xarray
        for squeeze in (True, False):
            arrays = post.load_tasks_to_xarray(str(f), squeeze_constant=squeeze)
            for n, x in a['tasks'].items():
                check_xarray(ctx, arrays[n], n, x, a, squeeze, f"{what}: {n}")
        pick = [t['name'] for t in tasks][:2]
        some = post.load_tasks_to_xarray(str(f), tasks=pick)
        ctx.require(sorted(some) == sorted(pick), 'xarray-tasks', f"{sorted(some)} instead of {pick}")
    copy = os.path.join(ctx.scratch, 'cp')
    shutil.copytree(path, copy)
    f = files[int(rng.integers(len(files)))]
    a = content(str(f))
    # Merging single tasks
    with h5py.File(os.path.join(copy, f.name), 'r+') as file:
        names = list(a['tasks'])
        for i, n in enumerate(names):
            H5VirtualFileHandler.merge_task(file, n, overwrite=bool(i % 2))
        ctx.raises(lambda: H5VirtualFileHandler.merge_task(file, names[1]) if len(names) > 1 else (_ for _ in ()).throw(ValueError), 'merge-twice', "merge_task accepted a merged task", ok=(ValueError,))
    b = content(os.path.join(copy, f.name))
    b['tasks'] = {n: b['tasks'][n if i % 2 else n + '_merged'] for i, n in enumerate(names)}
    ctx.require(not any(b['virtual'][n if i % 2 else n + '_merged'] for i, n in enumerate(names)), 'merge-task', 'still virtual')
    for d in differences(a, b):
        ctx.violation('merge-task', f"{what}: {d}")
    ctx.count('merged_tasks', len(names))
    # Merging everything
    cleanup = bool(rng.integers(2))
    before = {q: content(str(q)) for q in files}
    post.merge_virtual_analysis(path, cleanup=cleanup)
    ctx.require(sorted(q.name for q in pathlib.Path(path).glob('*.h5')) == sorted(q.name for q in files), 'merge-files', f"{sorted(os.listdir(path))}")
    ctx.require(any(q.is_dir() for q in pathlib.Path(path).iterdir()) != cleanup, 'merge-cleanup', f"cleanup {cleanup}: {sorted(os.listdir(path))}")
    shutil.rmtree(copy)
    for q in files:
        if cleanup is False:
            shutil.rmtree(str(q)[:-3], ignore_errors=True)      # merged files must not need the process files
        b = content(str(q))
        for d in differences(before[q], b):
            ctx.violation('merge', f"{what}: {d}")
        ctx.require(not any(b['virtual'].values()), 'merge', f"{q.name} still virtual")
        ctx.count('merged_tasks', len(before[q]['tasks']))
        ctx.count('comparisons', len(before[q]['tasks'])*3)
    ctx.state(spec['g'], m, cleanup, len(tasks))
    # xarray backend on merged files
    try:
        import xarray
        ds = post.DedalusXarrayBackend().open_dataset(str(files[0]), drop_variables=[tasks[0]['name']])
    except xarray.core.merge.MergeError if hasattr(xarray.core, 'merge') else ():
        return      # tasks with different coordinates under one name cannot share a data set
    except ValueError as e:
        if 'conflicting' in str(e) or 'duplicate' in str(e):
            return
        raise
    ctx.require(sorted(ds.data_vars) == sorted(t['name'] for t in tasks[1:]), 'xarray-dataset', f"{sorted(ds.data_vars)}")


def check_xarray(ctx, arr, n, x, a, squeeze, what):
    ctx.count('xarrays')
    keep = [i for i, (lab, _) in enumerate(x['dims']) if not (squeeze and lab == 'constant')]
    data = x['data'][tuple(slice(None) if i in keep else 0 for i in range(x['data'].ndim))]
    if not ctx.require(arr.shape == data.shape and np.array_equal(arr.values, data), 'xarray-data', f"{what}: shape {arr.shape} for {data.shape}"):
        return
    ctx.require(list(arr.dims) == [x['dims'][i][0] for i in keep], 'xarray-dims', f"{what}: {arr.dims}")
    ctx.require(np.array_equal(arr.coords['t'].values, a['scales']['sim_time']), 'xarray-time', what)
    for sn in ('iteration', 'write_number', 'timestep', 'wall_time'):
        ctx.require(np.array_equal(arr.coords[sn].values, a['scales'][sn]), 'xarray-time', f"{what}: {sn}")
    for i in keep[1:]:
        lab, scales = x['dims'][i]
        if scales and lab != 'constant' and a['scales'][scales[0][1].split('/')[-1]].ndim == 1:
            ctx.require(lab in arr.coords and np.array_equal(arr.coords[lab].values, a['scales'][scales[0][1].split('/')[-1]]), 'xarray-coords', f"{what}: {lab}")
