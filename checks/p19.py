"""P19: the compiled kernels stay inside their arrays, have no undefined behaviour and equal the plain formulas."""
import os
import sys
import traceback
import numpy as np
import harness
import geoms as G

RULE = ("A case runs a workload in two builds of the current sources: the plain one and one compiled with AddressSanitizer, UndefinedBehaviorSanitizer and Cython index checks. Kernel workloads call the sparse apply/solve kernels, spin recombination, FFTW plans, transposes (1-4 processes) and array helpers "
        "with random shapes (0, 1, odd, larger), axes, dtypes, strides, structures and thread counts; monitors require no sanitizer report, no index error, intact guard zones around every array, untouched inputs and matrices, fully written outputs, and results equal to NumPy formulas. "
        "Library workloads (transforms, evaluations, solves, steps) run in both builds and must give the same numbers. Non-trivial if kernel calls were compared.")
MIN = {'instrumented_calls': 2000, 'plain_calls': 2000, 'apply_csr': 600, 'solve_upper': 300, 'recombine': 150, 'fftw': 400, 'transposes': 150, 'helpers': 300, 'library_runs': 12, 'empty_arrays': 100, 'threads': 300}
BUDGET = {'quick': 300, 'thorough': 1500}
CASE_S = 240
WORKERS = 5
PAD = 64


def cases(tier, rng):
    out = []
    k = 1 if tier == 'quick' else 6
    for i in range(4*k):
        for san in (True, False):
            for what in ('csr', 'solve', 'recombine', 'fftw', 'helpers'):
                out.append({'kind': 'kernel', 'what': what, 'san': san, 'seed': int(rng.integers(10**9)), 'n': 300 if tier == 'quick' else 600})
    for i in range(2*k):
        for n in (1, 2, 3, 4):
            out.append({'kind': 'transpose', 'ranks': n, 'san': bool((i + n) % 2), 'seed': int(rng.integers(10**9)), 'n': 40 if tier == 'quick' else 80})
            out.append({'kind': 'transpose', 'ranks': n, 'san': not (i + n) % 2, 'seed': int(rng.integers(10**9)), 'n': 40 if tier == 'quick' else 80})
    for i in range(2*k):
        for geo in ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'disk_cyl']:
            s = G.random_spec(rng, geo, deg=1)
            if geo == 'ball':
                s['shape'][2] = max(s['shape'][2], s['shape'][1]//2 + 2)
            if 'dealias' in s:
                s['dealias'] = [max(1.25, x) for x in s['dealias']]
            out.append({'kind': 'library', 'spec': s, 'ranks': [1, 2, 1, 3][(i + len(out)) % 4] if geo in ('cart2', 'cart3', 'sphere', 'shell', 'ball', 'disk') else 1, 'seed': int(rng.integers(10**9))})
    return out


def PRE():
    import sanbuild
    sanbuild.build()


def sanrun(ctx, n, func, params, hang=None):
    import sanbuild
    d, pre = sanbuild.build()
    opts = {'LD_PRELOAD': ':'.join(pre), 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1', 'PYTHONPATH': f"{d}:{os.environ.get('PYTHONPATH', '')}"}
    mca = []
    for k, v in opts.items():
        mca += ['-x', f'{k}={v}']
    return ctx.mpirun(n, func, params, timeout=200, mca=mca)


def run(case, ctx):
    if case['kind'] == 'library':
        res = []
        for san in (False, True):
            r = sanrun(ctx, case['ranks'], 'library', case) if san else ctx.mpirun(case['ranks'], 'library', case, timeout=200)
            if r is None:
                return
            r = settle(ctx, case, r, san)
            res.append(r)
        ctx.count('library_runs')
        for a, b in zip(*res):
            ctx.require([k for k, _ in a] == [k for k, _ in b], 'library-steps', f"{case['spec']['g']}: different results {[k for k, _ in a]} {[k for k, _ in b]}")
            for (k, x), (_, y) in zip(a, b):
                ctx.close(x, y, 1e-8, 'library', f"{case['spec']}: {k} differs between the plain and the instrumented build", scale=max(1, np.max(np.abs(y), initial=0)))
        ctx.state('library', case['spec']['g'], case['ranks'], case['spec']['real'])
        return
    func = 'kernels' if case['kind'] == 'kernel' else 'transposes'
    n = case.get('ranks', 1)
    r = sanrun(ctx, n, func, case) if case['san'] else ctx.mpirun(n, func, case, timeout=200)
    if r is not None:
        settle(ctx, case, r, case['san'])


def settle(ctx, case, results, san):
    out = []
    for r in results:
        ctx.require(bool(r['san']) == bool(san), 'harness-build', 'wrong build loaded') if bool(r['san']) == bool(san) else None
        if bool(r['san']) != bool(san):
            raise harness.Inconclusive('wrong build loaded: ' + r['file'])
        for k, v in r['counts'].items():
            ctx.count(k, v)
        ctx.count('instrumented_calls' if san else 'plain_calls', r['calls'])
        for s in r['states']:
            ctx.state(*s)
        ctx.count('values_compared', r['values'])
        for mech, msg in r['problems']:
            ctx.violation(mech, ('instrumented build: ' if san else 'plain build: ') + msg)
        for _ in range(r['calls'] and 1):
            ctx.require(True, 'ran', '')
        out.append(r['data'])
    return out


# ---- in the workers

class Log:
    def __init__(self):
        import dedalus
        self.file = dedalus.__file__
        self.san = '/.verif-san/' in self.file
        self.counts, self.problems, self.states, self.calls, self.values, self.data = {}, [], set(), 0, 0, []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, mech, msg):
        if len(self.problems) < 10:
            self.problems.append((mech, msg[:900]))

    def close(self, a, b, tol, mech, msg):
        a, b = np.asarray(a), np.asarray(b)
        self.values += b.size
        if a.shape != b.shape:
            return self.bad(mech, f'{msg}: shape {a.shape} instead of {b.shape}')
        if b.size == 0:
            return
        scale = max(1, np.max(np.abs(b)))
        err = np.max(np.abs(a - b))
        if not err <= tol*scale:
            self.bad(mech, f'{msg}: differs by {err} of {scale}')

    def result(self):
        return {'file': self.file, 'san': self.san, 'counts': self.counts, 'problems': self.problems, 'states': sorted(self.states), 'calls': self.calls, 'values': self.values, 'data': self.data}


class Guarded:
    """Arrays inside blocks of known bytes, checked after every call."""
    def __init__(self):
        self.blocks = []

    def new(self, shape, dtype, fill=None):
        dtype = np.dtype(dtype)
        n = int(np.prod(shape, dtype=np.int64))*dtype.itemsize
        # 64-byte aligned start, as fftw allocates
        block = np.full(n + 3*PAD + 64, 0xA5, dtype=np.uint8)
        off = (-(block.ctypes.data + PAD)) % 64 + PAD
        a = np.ndarray(shape, dtype=dtype, buffer=block, offset=off) if n else np.zeros(shape, dtype)
        self.blocks.append((block, off, n))
        if fill is None:
            if dtype.kind in 'fc':
                a.fill(np.nan)
        else:
            a[...] = fill
        return a

    def intact(self):
        return all((b[:o] == 0xA5).all() and (b[o+n:] == 0xA5).all() for b, o, n in self.blocks)


def sizes(rng, nd, big=False):
    choices = [0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16] if not big else [1, 2, 3, 5, 8, 13, 33]
    return [int(rng.choice(choices)) for _ in range(nd)]


def values(rng, shape, dtype):
    dtype = np.dtype(dtype)
    x = rng.standard_normal(shape)
    if dtype.kind == 'c':
        x = x + 1j*rng.standard_normal(shape)
    return x.astype(dtype)


def strided(rng, x, kinds=('c', 'c', 'f', 'step', 'rev', 'swap', 'off')):
    """The same values in another memory layout."""
    kind = str(rng.choice(kinds))
    if kind == 'f':
        return np.asfortranarray(x), kind
    if kind == 'step':
        big = np.full([2*n + 1 for n in x.shape], np.nan, dtype=x.dtype)
        v = big[tuple(slice(0, 2*n, 2) for n in x.shape)]
        v[...] = x
        return v, kind
    if kind == 'rev':
        v = np.ascontiguousarray(x[tuple(slice(None, None, -1) for _ in x.shape)])
        return v[tuple(slice(None, None, -1) for _ in x.shape)], kind
    if kind == 'swap' and x.ndim > 1:
        p = rng.permutation(x.ndim)
        v = np.ascontiguousarray(x.transpose(p))
        return v.transpose(np.argsort(p)), kind
    if kind == 'off':
        big = np.full([n + 2 for n in x.shape], np.nan, dtype=x.dtype)
        v = big[tuple(slice(1, n + 1) for n in x.shape)]
        v[...] = x
        return v, kind
    return np.array(x, order='C'), 'c'


def along(matrix, x, axis):
    return np.moveaxis(np.tensordot(matrix, x, axes=(1, axis)), 0, axis)


def random_csr(rng, m, n, dtype, messy=True):
    """CSR matrix with empty rows, unsorted and repeated entries, and its dense value."""
    from scipy import sparse
    dtype = np.dtype(dtype)
    nnz = int(rng.integers(0, 2*m*n + 1)) if rng.random() < 0.3 else int(rng.integers(0, m + n + 1))
    nnz = nnz if m*n else 0
    rows, cols = rng.integers(0, max(m, 1), nnz), rng.integers(0, max(n, 1), nnz)
    if nnz and rng.random() < 0.3:
        rows = rows//2   # empty rows at the end
    data = values(rng, nnz, dtype) if dtype.kind in 'fc' else rng.integers(-3, 4, nnz).astype(dtype)
    order = np.argsort(rows, kind='stable')
    rows, cols, data = rows[order], cols[order], data[order]
    indptr = np.zeros(m + 1, dtype=np.int32)
    np.add.at(indptr, rows + 1, 1)
    indptr = np.cumsum(indptr).astype(np.int32)
    A = sparse.csr_matrix((data, cols.astype(np.int32), indptr), shape=(m, n))
    dense = np.zeros((m, n), dtype=dtype)
    np.add.at(dense, (rows, cols), data)
    if not messy or rng.random() < 0.4:
        A.sum_duplicates()
    return A, dense


def kernels(comm, case, outdir):
    log = Log()
    rng = np.random.default_rng(case['seed'])
    f = {'csr': one_csr, 'solve': one_solve, 'recombine': one_recombine, 'fftw': one_fftw, 'helpers': one_helper}[case['what']]
    for i in range(case['n']):
        state = rng.bit_generator.state['state']['state']
        desc = []
        try:
            f(rng, log, desc)
        except Exception as e:
            tb = traceback.format_exc()
            if type(e).__name__ == 'HarnessError' or 'dedalus' not in tb.split('p19.py')[-1]:
                raise
            log.bad(f"kernel-exception:{case['what']}:{type(e).__name__}", f"{desc}: {tb[-500:]}")
        log.calls += 1
    return log.result()


def one_csr(rng, log, desc):
    from dedalus.tools import array
    nd = int(rng.integers(1, 6))
    shape = sizes(rng, nd, big=rng.random() < 0.15 and nd <= 3)
    axis = int(rng.integers(nd))
    m = sizes(rng, 1)[0]
    dtype = np.dtype(str(rng.choice(['f4', 'f8', 'c8', 'c16', 'f8', 'c16'])))
    mtype = dtype if rng.random() < 0.7 else np.dtype(str(rng.choice(['f4', 'f8', 'i4', 'i8'])))
    A, dense = random_csr(rng, m, shape[axis], mtype)
    x0 = values(rng, shape, dtype)
    x, kind = strided(rng, x0)
    threads = int(rng.choice([1, 1, 2, 3, 8]))
    oshape = list(shape)
    oshape[axis] = m
    how = str(rng.choice(['none', 'given', 'given', 'view']))
    desc.append(f"apply_sparse shape {shape} axis {axis} rows {m} {mtype}@{dtype} input {kind} out {how} threads {threads} nnz {A.nnz}")
    log.count('apply_csr')
    if threads > 1:
        log.count('threads')
    if 0 in shape or m == 0:
        log.count('empty_arrays')
    g = Guarded()
    before = (A.indptr.copy(), A.indices.copy(), A.data.copy())
    want = along(dense.astype(np.result_type(mtype, dtype)), x0, axis)
    tol = 1e-4 if dtype.itemsize//(2 if dtype.kind == 'c' else 1) == 4 or mtype == np.float32 else 1e-11
    log.states.add(('csr', nd, axis, str(dtype), str(mtype), kind, how, 0 in shape))
    if how == 'none':
        y = array.apply_sparse(A, x, axis, num_threads=threads, check_shapes=bool(rng.integers(2)))
    elif how == 'given':
        y = g.new(oshape, dtype)
        r = array.apply_sparse(A, x, axis, out=y, num_threads=threads, check_shapes=bool(rng.integers(2)))
        if r is not y:
            log.bad('csr-return', f'{desc}: returns another array')
    else:
        # outputs in another memory layout are written or refused, never ignored
        y, okind = strided(rng, np.full(oshape, np.nan, dtype=dtype), kinds=('f', 'step', 'rev', 'swap', 'off'))
        desc.append(okind)
        try:
            array.apply_sparse(A, x, axis, out=y, num_threads=threads)
        except ValueError:
            log.count('refused_outputs')
            if np.isfinite(y).any():
                log.bad('csr-refused', f'{desc}: refused but written')
            return
    log.close(y, want, tol, 'csr', f'{desc}')
    if not np.array_equal(x, x0):
        log.bad('csr-input', f'{desc}: input changed')
    if not all(np.array_equal(a, b) for a, b in zip(before, (A.indptr, A.indices, A.data))):
        log.bad('csr-matrix', f'{desc}: matrix changed')
    if not g.intact():
        log.bad('csr-guard', f'{desc}: wrote outside the output')


def one_solve(rng, log, desc):
    from dedalus.tools import array
    from scipy import sparse
    nd = int(rng.integers(1, 6))
    shape = sizes(rng, nd, big=rng.random() < 0.15 and nd <= 3)
    axis = int(rng.integers(nd))
    n = shape[axis]
    dtype = np.dtype(str(rng.choice(['f4', 'f8', 'c8', 'c16', 'f8', 'c16'])))
    mtype = dtype if rng.random() < 0.7 else np.dtype(str(rng.choice(['f4', 'f8'])))
    dense = np.triu(values(rng, (n, n), mtype)*(rng.random((n, n)) < rng.choice([0.2, 0.6, 1.0])))*0.3
    dense[np.arange(n), np.arange(n)] = (1 + rng.random(n))*rng.choice([-1, 1], n)
    dense = dense.astype(mtype)
    A = sparse.csr_matrix(dense)
    messy = rng.random() < 0.4
    if messy:
        # unsorted, repeated entries
        c = A.tocoo()
        rows, cols, data = np.concatenate([c.row, c.row]), np.concatenate([c.col, c.col]), np.concatenate([c.data*mtype.type(0.25), c.data*mtype.type(0.75)])
        p = rng.permutation(len(rows))
        rows, cols, data = rows[p], cols[p], data[p]
        o = np.argsort(rows, kind='stable')
        indptr = np.concatenate([[0], np.cumsum(np.bincount(rows, minlength=n))]).astype(np.int32) if n else np.zeros(1, np.int32)
        A = sparse.csr_matrix((data[o], cols[o].astype(np.int32), indptr), shape=(n, n))
    else:
        A.sum_duplicates()
    b0 = values(rng, shape, dtype)
    threads = int(rng.choice([1, 1, 2, 3, 8]))
    how = str(rng.choice(['none', 'given', 'inplace', 'strided', 'view']))
    desc.append(f"solve_upper_sparse shape {shape} axis {axis} {mtype}/{dtype} out {how} threads {threads} messy {messy}")
    log.count('solve_upper')
    if threads > 1:
        log.count('threads')
    if 0 in shape:
        log.count('empty_arrays')
    log.states.add(('solve', nd, axis, str(dtype), str(mtype), how, messy, 0 in shape))
    g = Guarded()
    b = g.new(shape, dtype, b0)
    kw = dict(num_threads=threads, check_shapes=bool(rng.integers(2)))
    if how == 'none':
        y = array.solve_upper_sparse(A, b, axis, **kw)
        if y is None:
            return log.bad('solve-return', f'{desc}: nothing returned')
    elif how == 'inplace':
        y = b
        array.solve_upper_sparse(A, b, axis, out=b, **kw)
    elif how == 'given':
        y = g.new(shape, dtype)
        array.solve_upper_sparse(A, b, axis, out=y, **kw)
    elif how == 'strided':
        b, kind = strided(rng, b0)
        desc.append(kind)
        y = g.new(shape, dtype)
        array.solve_upper_sparse(A, b, axis, out=y, **kw)
    else:
        y, kind = strided(rng, np.full(shape, np.nan, dtype=dtype), kinds=('f', 'step', 'rev', 'swap', 'off'))
        desc.append(kind)
        try:
            array.solve_upper_sparse(A, b, axis, out=y, **kw)
        except ValueError:
            log.count('refused_outputs')
            return
    if not g.intact():
        log.bad('solve-guard', f'{desc}: wrote outside the output')
    if how != 'inplace' and not np.array_equal(b, b0):
        log.bad('solve-input', f'{desc}: right-hand side changed')
    if b0.size == 0:
        return
    # residual and, for moderate sizes, the solution itself
    single = dtype.itemsize//(2 if dtype.kind == 'c' else 1) == 4 or mtype == np.float32
    d = dense.astype(np.complex128 if dtype.kind == 'c' else np.float64)
    log.close(along(d, np.asarray(y).astype(d.dtype), axis) - b0, np.zeros(shape), (1e-2 if single else 1e-9)*max(1, float(np.max(np.abs(y)))), 'solve', f'{desc} residual')


def one_recombine(rng, log, desc):
    from dedalus.libraries import spin_recombination as sr
    s0, s1, s2, s4 = [int(rng.choice([1, 1, 2, 3, 4])) for _ in range(4)]
    s0 = int(rng.choice([0, 1, 2, 9]))
    s1 = int(rng.choice([2, 3, 4]))
    s = int(rng.integers(0, s1 - 1))
    s3 = 2*int(rng.choice([0, 1, 1, 2, 3, 8]))
    if rng.random() < 0.1:
        s4 = 0
    shape = (s0, s1, s2, s3, s4)
    x0 = values(rng, shape, 'f8')
    g = Guarded()
    x, y = g.new(shape, 'f8', x0), g.new(shape, 'f8')
    fwd = bool(rng.integers(2))
    desc.append(f"recombine_{'forward' if fwd else 'backward'} {shape} start {s}")
    log.count('recombine')
    if x0.size == 0:
        log.count('empty_arrays')
    log.states.add(('recombine', shape[1], s, fwd, s2, s3, x0.size == 0))
    (sr.recombine_forward if fwd else sr.recombine_backward)(s, x, y)
    want = x0.copy()
    # azimuthal components become spin components of interleaved (cos, msin) pairs: u± = (v ± i u)/sqrt2
    a, b = x0[:, s, :, 0::2] + 1j*x0[:, s, :, 1::2], x0[:, s+1, :, 0::2] + 1j*x0[:, s+1, :, 1::2]
    if fwd:
        p, q = (b - 1j*a)/np.sqrt(2), (b + 1j*a)/np.sqrt(2)
    else:
        p, q = 1j*(a - b)/np.sqrt(2), (a + b)/np.sqrt(2)
    want[:, s, :, 0::2], want[:, s, :, 1::2] = p.real, p.imag
    want[:, s+1, :, 0::2], want[:, s+1, :, 1::2] = q.real, q.imag
    log.close(y, want, 1e-13, 'recombine', f'{desc}')
    if not np.array_equal(x, x0):
        log.bad('recombine-input', f'{desc}: input changed')
    if not g.intact():
        log.bad('recombine-guard', f'{desc}: wrote outside')
    # there and back
    z = g.new(shape, 'f8')
    (sr.recombine_backward if fwd else sr.recombine_forward)(s, y, z)
    log.close(z, x0, 1e-13, 'recombine-round', f'{desc}: there and back')


PLANS = []


def one_fftw(rng, log, desc):
    from dedalus.libraries.fftw import fftw_wrappers as fw
    import scipy.fft as sf
    nd = int(rng.integers(1, 5))
    shape = [max(1, n) for n in sizes(rng, nd, big=rng.random() < 0.3 and nd <= 2)]
    axis = int(rng.integers(nd))
    kind = str(rng.choice(['fourier', 'fourier', 'cos', 'sin', 'hc']))
    dtype = np.dtype(str(rng.choice(['f8', 'c16'])))
    if rng.random() < 0.15 and nd > 1:
        k = int(rng.integers(nd))
        if k != axis:
            shape[k] = 0
    flags = ['FFTW_' + str(rng.choice(['ESTIMATE', 'ESTIMATE', 'MEASURE']))]
    if PLANS and rng.random() < 0.3:
        # reuse a plan made earlier
        kind, dtype, shape, axis, plan = PLANS[int(rng.integers(len(PLANS)))]
        log.count('plans_reused')
        desc.append('reused')
    else:
        cls = {'fourier': fw.FourierTransform, 'cos': fw.DiscreteCosineTransform, 'sin': fw.DiscreteSineTransform, 'hc': fw.R2HCTransform}[kind]
        desc.append(f'{kind} {dtype} {shape} axis {axis} {flags}')
        plan = cls(dtype.type, tuple(shape), axis, flags=flags)
        if len(PLANS) < 20:
            PLANS.append((kind, dtype, list(shape), axis, plan))
        elif rng.random() < 0.3:
            PLANS[int(rng.integers(20))] = (kind, dtype, list(shape), axis, plan)
    desc.append(f'{kind} {dtype} {shape} axis {axis}')
    log.count('fftw')
    if 0 in shape:
        log.count('empty_arrays')
    n = shape[axis]
    log.states.add(('fftw', kind, str(dtype), nd, axis, n, 0 in shape))
    x0 = values(rng, shape, dtype)
    cshape, cdtype = list(shape), dtype
    if kind == 'fourier':
        cdtype = np.dtype('c16')
        if dtype == 'f8':
            cshape[axis] = n//2 + 1
        if [int(k) for k in plan.cshape] != cshape:
            log.bad('fftw-shape', f'{desc}: coefficient shape {plan.cshape}')
        want = np.fft.rfft(x0, axis=axis) if dtype == 'f8' else np.fft.fft(x0, axis=axis)
    else:
        def real(x):
            return {'cos': lambda x: sf.dct(x, type=2, axis=axis), 'sin': lambda x: sf.dst(x, type=2, axis=axis), 'hc': lambda x: halfcomplex(x, axis)}[kind](x)
        if 0 in shape:
            want = x0.copy()
        else:
            want = real(x0) if dtype == 'f8' else real(x0.real) + 1j*real(x0.imag)
    g = Guarded()
    x, c = g.new(shape, dtype, x0), g.new(cshape, cdtype)
    plan.forward(x, c)
    log.close(c, want, 1e-12*max(1, n), 'fftw-forward', f'{desc}')
    if not g.intact():
        log.bad('fftw-guard', f'{desc}: forward wrote outside')
    back = g.new(shape, dtype)
    c2 = g.new(cshape, cdtype, want)
    plan.backward(c2, back)
    log.close(back, x0*(n if kind in ('fourier', 'hc') else 2*n), 1e-12*max(1, n), 'fftw-backward', f'{desc}')
    if not g.intact():
        log.bad('fftw-guard', f'{desc}: backward wrote outside')
    # buffers
    if x0.size:
        y = fw.create_copy(x0)
        if not np.array_equal(y, x0) or np.shares_memory(y, x0):
            log.bad('fftw-copy', f'{desc}: copy')
        z = fw.create_array(tuple(shape), dtype.type)
        if z.shape != tuple(shape) or z.dtype != dtype or z.any():
            log.bad('fftw-array', f'{desc}: array')
        z[...] = 1
        y[...] = 2
        del y
        if not (z == 1).all():
            log.bad('fftw-array', f'{desc}: arrays share memory')


def halfcomplex(x, axis):
    n = x.shape[axis]
    f = np.moveaxis(np.fft.rfft(x, axis=axis), axis, 0)
    out = np.concatenate([f.real, f.imag[1:(n + 1)//2][::-1]])
    return np.moveaxis(out, 0, axis)


def one_helper(rng, log, desc):
    from dedalus.tools import array as ar
    from scipy import sparse
    what = str(rng.choice(['dense', 'einsum', 'dot', 'matrix', 'matvec', 'matvecs', 'permute', 'perm', 'kron', 'drop', 'diag', 'view', 'vector', 'slice', 'pattern', 'splu', 'add', 'move', 'refuse']))
    nd = int(rng.integers(1, 5))
    shape = sizes(rng, nd)
    axis = int(rng.integers(nd))
    m = sizes(rng, 1)[0]
    dtype = np.dtype(str(rng.choice(['f8', 'c16'])))
    x0 = values(rng, shape, dtype)
    x, kind = strided(rng, x0)
    n = shape[axis]
    oshape = list(shape)
    oshape[axis] = m
    desc.append(f'{what} {shape} axis {axis} rows {m} {dtype} {kind}')
    log.count('helpers')
    if 0 in shape:
        log.count('empty_arrays')
    log.states.add(('helper', what, nd, axis, str(dtype), kind, 0 in shape))
    A, dense = random_csr(rng, m, n, dtype if rng.random() < 0.6 else 'f8')
    if what in ('dense', 'einsum', 'dot', 'matrix'):
        want = along(dense, x0, axis)
        neg = axis - nd if what in ('dense', 'dot') and rng.random() < 0.3 else axis
        if 0 in shape and what in ('dense', 'dot') and nd > 2 and shape[axis] == 0:
            return      # numpy cannot infer the flattened size
        mat = {'dense': dense, 'einsum': dense, 'dot': A, 'matrix': A if rng.random() < 0.5 else dense}[what]
        f = {'dense': ar.apply_dense, 'einsum': ar.apply_dense_einsum, 'dot': ar.apply_sparse_dot, 'matrix': ar.apply_matrix}[what]
        if what == 'matrix' and not sparse.issparse(mat) and nd > 2 and shape[axis] == 0:
            return
        if rng.random() < 0.5 and what != 'einsum':
            g = Guarded()
            out = g.new(oshape, np.result_type(dtype, dense.dtype))
            r = f(mat, x, neg, out=out)
            if r is not out:
                log.bad('helper-return', f'{desc}')
            if not g.intact():
                log.bad('helper-guard', f'{desc}')
        else:
            r = f(mat, x, neg)
        log.close(r, want, 1e-11, f'helper-{what}', f'{desc}')
    elif what in ('matvec', 'matvecs'):
        k = sizes(rng, 1)[0]
        X = values(rng, n if what == 'matvec' else (n, k), dense.dtype)
        out0 = values(rng, m if what == 'matvec' else (m, k), dense.dtype)
        out = out0.copy()
        r = (ar.csr_matvec if what == 'matvec' else ar.csr_matvecs)(A, X, out)
        log.close(out, out0 + dense @ X, 1e-11, f'helper-{what}', f'{desc}')
    elif what == 'permute':
        p = rng.permutation(n) if rng.random() < 0.7 else (rng.integers(0, n, m) if n else np.zeros(0, int))
        log.close(ar.permute_axis(x, axis, p), np.take(x0, p, axis=axis), 0, 'helper-permute', f'{desc}')
        if len(p) == n:
            y = np.array(x0)
            ar.permute_axis(y, axis, p, out=y)
            log.close(y, np.take(x0, p, axis=axis), 0, 'helper-permute', f'{desc} in place')
    elif what == 'perm':
        N = max(n, 1)
        p = rng.permutation(N + m)[:N]
        src = bool(rng.integers(2))
        if src:
            want = (np.arange(N + m)[None, :] == p[:, None])[:, :]
            got = ar.perm_matrix(p, source_index=True, M=None, sparse=False) if m == 0 else None
            if got is not None:
                log.close(got, want.astype(int), 0, 'helper-perm', f'{desc}')
        else:
            want = (np.arange(N + m)[:, None] == p[None, :]).astype(int)
            a, b = ar.perm_matrix(p, M=N + m, sparse=True).toarray(), ar.perm_matrix(p, M=N + m, sparse=False)
            log.close(a, want, 0, 'helper-perm', f'{desc}')
            log.close(b, want, 0, 'helper-perm', f'{desc}')
    elif what == 'kron':
        fs = [values(rng, (int(rng.integers(1, 4)), int(rng.integers(1, 4))), dtype) for _ in range(int(rng.integers(0, 4)))]
        want = np.identity(1)
        for f in fs:
            want = np.einsum('ij,kl->ikjl', want, f).reshape(want.shape[0]*f.shape[0], want.shape[1]*f.shape[1])
        log.close(ar.kron(*fs), want, 1e-12, 'helper-kron', f'{desc}')
        f = values(rng, (2, 3), dtype)
        k = int(rng.integers(0, 4))
        want = np.identity(1)
        for _ in range(k):
            want = np.einsum('ij,kl->ikjl', want, f).reshape(want.shape[0]*2, want.shape[1]*3)
        log.close(ar.nkron(f, k), want, 1e-12, 'helper-nkron', f'{desc} {k}')
    elif what == 'drop':
        B = A.copy()
        stored = np.diff(B.indptr) > 0
        log.close(ar.drop_empty_rows(B).toarray(), dense[stored], 1e-13, 'helper-drop', f'{desc}')
    elif what == 'diag':
        bl = []
        for _ in range(int(rng.integers(0, 4))):
            a, b = sizes(rng, 2)
            bl.append(random_csr(rng, a, b, dtype))
        want = np.zeros((sum(d.shape[0] for _, d in bl), sum(d.shape[1] for _, d in bl)), dtype)
        i = j = 0
        for _, d in bl:
            want[i:i+d.shape[0], j:j+d.shape[1]] = d
            i, j = i + d.shape[0], j + d.shape[1]
        pass_dense = rng.random() < 0.3
        if want.shape[0] and want.shape[1]:
            got = ar.sparse_block_diag([d if pass_dense else s for s, d in bl])
            log.close(got.toarray(), want, 1e-13, 'helper-diag', f'{desc}')
    elif what == 'view':
        if dtype == 'c16':
            y = np.array(x0, order='C')
            v = ar.interleaved_view(y)
            log.close(v, np.stack([x0.real, x0.imag], axis=-1), 0, 'helper-view', f'{desc}')
            if y.size:
                v[...] = 7
                if not (y == 7 + 7j).all():
                    log.bad('helper-view', f'{desc}: not a view')
        else:
            refused(log, desc, lambda: ar.interleaved_view(x))
    elif what == 'vector':
        d = int(rng.integers(1, 5))
        k = int(rng.integers(-d, d))
        v = values(rng, m, dtype)
        want = v.reshape([m if j == k % d else 1 for j in range(d)])
        log.close(ar.reshape_vector(v, dim=d, axis=k), want, 0, 'helper-vector', f'{desc}')
    elif what == 'slice':
        a, b = sorted(int(q) for q in rng.integers(0, n + 2, 2))
        st = int(rng.integers(1, 4))
        log.close(x[ar.axslice(axis, a, b, st)], np.take(x0, range(n)[a:b:st], axis=axis), 0, 'helper-slice', f'{desc}')
        if n:
            j = int(rng.integers(-n, n))
            log.close(x[ar.axindex(axis, j)], np.take(x0, j, axis=axis), 0, 'helper-index', f'{desc}')
    elif what == 'pattern':
        B, bd = random_csr(rng, m, n, dtype)
        Z = ar.zeros_with_pattern(A, B).tocsr()
        E = ar.expand_pattern(A, Z).tocsr()
        Z.sum_duplicates()
        E.sum_duplicates()
        log.close(E.toarray(), dense, 1e-13, 'helper-pattern', f'{desc}')
        log.close(Z.toarray(), 0*dense, 0, 'helper-pattern', f'{desc} zeros')
        if not (np.array_equal(Z.indptr, E.indptr) and np.array_equal(Z.indices, E.indices)):
            log.bad('helper-pattern', f'{desc}: patterns differ')
    elif what == 'splu':
        k = max(1, m)
        M = values(rng, (k, k), dtype)*0.2 + np.diag(1 + rng.random(k))
        inv = ar.splu_inverse(sparse.csr_matrix(M))
        for t in ('f8', 'c16'):
            b = values(rng, k, t)
            if dtype == 'f8' or t == 'c16':
                log.close(M @ (inv @ b), b, 1e-8, 'helper-splu', f'{desc} {t}')
    elif what == 'add':
        B, bd = random_csr(rng, m, m, dtype)
        C, cd = random_csr(rng, m, m, dtype)
        s = float(rng.standard_normal())
        log.close(ar.add_sparse(B, C).toarray(), bd + cd, 1e-13, 'helper-add', f'{desc}')
        log.close(ar.add_sparse(s, C).toarray(), s*np.identity(m) + cd, 1e-13, 'helper-add', f'{desc} scalar left')
        log.close(ar.add_sparse(B, s).toarray(), s*np.identity(m) + bd, 1e-13, 'helper-add', f'{desc} scalar right')
        log.close(ar.add_sparse(s, 2.0), s + 2.0, 1e-13, 'helper-add', f'{desc} scalars')
    elif what == 'move':
        to = int(rng.integers(nd))
        log.close(ar.move_single_axis(x, axis, to), np.moveaxis(x0, axis, to), 0, 'helper-move', f'{desc}')
    elif what == 'refuse':
        refused(log, desc, lambda: ar.apply_sparse(A.tocsc(), x, axis))
        if dtype == A.dtype:
            refused(log, desc, lambda: ar.apply_sparse(A, x, axis, out=x))
            refused(log, desc, lambda: ar.apply_sparse(A, x, nd, check_shapes=True, out=np.zeros(oshape, dtype)))
            refused(log, desc, lambda: ar.apply_sparse(A, x, -1, check_shapes=True))
            oshape[axis] += 1
            refused(log, desc, lambda: ar.apply_sparse(A, x, axis, check_shapes=True, out=np.zeros(oshape, dtype)))
        refused(log, desc, lambda: ar.csr_matvec(A, np.zeros(n + 1), np.zeros(m)))
        refused(log, desc, lambda: ar.csr_matvec(A, np.zeros(n), np.zeros(m + 1)))
        refused(log, desc, lambda: ar.csr_matvecs(A, np.zeros((n, 2)), np.zeros((m, 3))))
        refused(log, desc, lambda: ar.csr_matvecs(A, np.zeros((n + 1, 2)), np.zeros((m, 2))))
        refused(log, desc, lambda: ar.csr_matvecs(A, np.zeros(n), np.zeros(m)))


def refused(log, desc, fn):
    log.count('refusals')
    try:
        fn()
    except Exception:
        return
    import inspect
    log.bad('helper-accepted', f'{desc}: {inspect.getsource(fn).strip()} accepted')


def transposes(comm, case, outdir):
    import dedalus.public
    from dedalus.core.transposes import FFTWTranspose, AlltoallvTranspose
    log = Log()
    rng = np.random.default_rng(case['seed'])     # the same on every rank
    plans = []
    P, me = comm.size, comm.rank
    for i in range(case['n']):
        nd = int(rng.integers(2, 6))
        axis = int(rng.integers(nd - 1))
        shape = [int(rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 12])) for _ in range(nd)]
        chunk = [1]*nd
        chunk[axis], chunk[axis+1] = int(rng.choice([1, 1, 2, 3])), int(rng.choice([1, 1, 2, 3]))
        # (mesh-aligned sizes: the library hands out whole chunks)
        dtype = np.dtype(str(rng.choice(['f8', 'c16'])))
        kind = str(rng.choice(['fftw', 'a2a']))
        def owned(N, C, r):
            B = C*(-(-(-(-N//C))//P))
            return min(N, B*r), min(N, B*(r + 1))
        starve = any(owned(shape[k], chunk[k], r)[0] >= shape[k] for k in (axis, axis+1) for r in range(P))
        if kind == 'fftw' and starve:
            kind = 'a2a'
        desc = f'{kind} {dtype} {shape} axis {axis} chunks {chunk} rank {me} of {P}'
        plan = {'fftw': FFTWTranspose, 'a2a': AlltoallvTranspose}[kind](np.array(shape), np.array(chunk), dtype.type, axis, comm)
        plans.append((desc, kind, dtype, shape, axis, chunk, plan))
        if len(plans) > 6:
            plans.pop(0)
        for (desc, kind, dtype, shape, axis, chunk, plan) in [plans[-1], plans[int(rng.integers(len(plans)))]]:
            X = values(rng, shape, dtype)      # global array, known everywhere
            c0, c1 = owned(shape[axis+1], chunk[axis+1], me)
            r0, r1 = owned(shape[axis], chunk[axis], me)
            cl, rl = [slice(None)]*len(shape), [slice(None)]*len(shape)
            cl[axis+1], rl[axis] = slice(c0, c1), slice(r0, r1)
            cl, rl = X[tuple(cl)], X[tuple(rl)]
            g = Guarded()
            CL, RL = g.new(cl.shape, dtype, cl), g.new(rl.shape, dtype)
            log.count('transposes')
            if cl.size == 0 or rl.size == 0:
                log.count('empty_arrays')
            log.states.add(('transpose', kind, str(dtype), len(shape), axis, P, cl.size == 0, rl.size == 0, chunk[axis], chunk[axis+1]))
            try:
                plan.localize_rows(CL, RL)
                log.close(RL, rl, 0, 'transpose-rows', desc)
                CL2 = g.new(cl.shape, dtype)
                plan.localize_columns(RL, CL2)
                log.close(CL2, cl, 0, 'transpose-columns', desc)
            except Exception as e:
                log.bad(f'transpose-exception:{type(e).__name__}', f'{desc}: {traceback.format_exc()[-500:]}')
            if not g.intact():
                log.bad('transpose-guard', f'{desc}: wrote outside')
            log.calls += 1
    return log.result()


def library(comm, case, outdir):
    """Ordinary use: transforms, products, derivatives, a boundary value solve and steps."""
    import dedalus.public as d3
    harness.quiet_logging()
    log = Log()
    rng = np.random.default_rng(case['seed'])
    g = G.build(case['spec'], comm=comm) if 'comm' in G.build.__code__.co_varnames else G.build(case['spec'])
    u, v, f, p, q = G.make_field(g, 0, 'u'), G.make_field(g, 1, 'v'), G.make_field(g, 0, 'f'), G.make_field(g, 0, 'p'), G.make_field(g, 0, 'q')
    for k, x in enumerate((u, v, f)):
        x.fill_random('g', seed=int(case['seed'] % 1000) + k)
        x.low_pass_filter(scales=0.75) if case['spec']['g'] == 'cart1' else None
    def keep(k, x):
        log.data.append((k, np.array(x['g'])))
        log.data.append((k + ' c', np.array(x['c'])))
        log.calls += 1
    for x in (u, v, f):
        keep(x.name, x)
    for s in (1, 1.5):
        u.change_scales(s)
        v.change_scales(s)
        keep(f'u at {s}', u)
        keep(f'v at {s}', v)
    keep('u*f', (u*f).evaluate())
    keep('grad', d3.grad(u).evaluate())
    keep('div', d3.div(v).evaluate())
    keep('lap', d3.lap(u).evaluate())
    keep('u*v', (u*v).evaluate())
    P = d3.LBVP([p], namespace={'p': p, 'f': f})
    P.add_equation('3*p = f')
    s = P.build_solver()
    s.solve()
    keep('p', p)
    P = d3.IVP([q], namespace={'q': q, 'u': u, 'f': f})
    P.add_equation('dt(q) + 2*q = f - u*q')
    for scheme in ('RK222', 'SBDF2'):
        q['g'] = 0
        s = P.build_solver(scheme)
        for k in range(3):
            s.step(0.01)
            keep(f'q {scheme} {k}', q)
    return log.result()
