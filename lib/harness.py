"""Runs one property's check: cases -> isolated worker processes -> monitors -> verdict + evidence.

A check module (checks/<id>.py, lower case) defines
    RULE        text: how cases are made and what makes one non-trivial
    cases(tier, rng) -> list of JSON-able dicts, in a fixed order for a given seed
    run(case, ctx)   drives the real code and reports to ctx what its monitors observed
    MIN         {counter: least count}: below any of them the run is inconclusive
and optionally WORKERS (processes), CASE_S (watchdog per case), BUDGET {'quick': s, 'thorough': s},
PRE() (run once in the master; may raise Inconclusive), MPI functions (see ctx.mpirun).

Verdicts: exit 1 + VIOLATION line (an oracle or the code itself contradicts the property), exit 0 (held on
everything observed), exit 2 (inconclusive: watchdog, too few observations, harness trouble).
"""

import argparse
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import zlib

LIBC = ctypes.CDLL(None)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Inconclusive(Exception):
    pass


def rng_for(*keys):
    import numpy as np
    return np.random.default_rng([zlib.crc32(str(k).encode()) for k in keys])


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 20 else f"array{x.shape}"
    if isinstance(x, complex):
        return str(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


class Ctx:
    """What a case reports."""

    def __init__(self, prop, case, index, seed, tier):
        self.prop, self.case, self.index, self.seed, self.tier = prop, case, index, seed, tier
        self.counts = {}
        self.states = set()
        self.violations = []
        self.worst = {}
        self.scratch = None

    def rng(self, *extra):
        return rng_for(self.prop, self.seed, json.dumps(jsonable(self.case), sort_keys=True), *extra)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        """Record a distinct observed state / configuration."""
        self.states.add(str(key))

    def violation(self, mechanism, message, **witness):
        if len(self.violations) < 40:
            self.violations.append({'mechanism': mechanism, 'message': str(message)[:1500], 'witness': jsonable(witness)})

    def require(self, cond, mechanism, message, **witness):
        self.count('comparisons')
        if not cond:
            self.violation(mechanism, message, **witness)
        return bool(cond)

    def close(self, got, want, tol, mechanism, message='', scale=None, **witness):
        """Monitor: arrays agree to tol relative to the magnitude of the reference (or given scale)."""
        import numpy as np
        self.count('comparisons')
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.violation(mechanism, f"{message}: shape {got.shape} instead of {want.shape}", **witness)
            return False
        if got.size == 0:
            return True
        self.count('values', got.size)
        if scale is None:
            scale = float(np.max(np.abs(want)))
        scale = max(scale, 1e-300)
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
        bad = ~np.isfinite(err)
        if bad.any() and not np.isfinite(want).all():
            ok = np.array_equal(np.asarray(got), np.asarray(want), equal_nan=True)
            if ok:
                return True
        worst = float('inf') if bad.any() else float(err.max()) / scale
        self.worst[mechanism] = max(self.worst.get(mechanism, 0.), worst)
        if not worst <= tol:
            k = np.unravel_index(int(np.argmax(np.where(bad, np.inf, err))), got.shape)
            self.violation(mechanism, f"{message}: relative error {worst:.3e} > {tol:.1e} at index {k}: got {got[k]} want {want[k]}", **witness)
            return False
        return True

    def raises(self, fn, mechanism, message, ok=(Exception,)):
        """Monitor: fn must raise an exception."""
        self.count('comparisons')
        try:
            fn()
        except ok as e:
            self.count('rejections')
            return e
        self.violation(mechanism, message)
        return None

    def mpirun(self, n, func, params, timeout=150, env=None, mca=(), hang=None, _retry=False):
        """Run <check module>.func(comm, params, outdir) on n ranks; returns the list of per-rank results (pickled)."""
        out = tempfile.mkdtemp(dir=self.scratch)
        with open(f'{out}/params', 'wb') as f:
            pickle.dump((self.prop, func, params), f)
        e = dict(os.environ)
        e['TMPDIR'] = '/tmp'
        e.update(env or {})
        cmd = ['mpirun', '-n', str(n), '--oversubscribe', *mca, sys.executable, f'{VERIF}/lib/harness.py', '--mpi', out]
        p = subprocess.Popen(cmd, stdout=open(f'{out}/stdout', 'wb'), stderr=subprocess.STDOUT, cwd=out, env=e, start_new_session=True, stdin=subprocess.DEVNULL, preexec_fn=die_with_parent)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            if hang and not _retry:
                return self.mpirun(n, func, params, timeout, env, mca, hang, True)
            if hang:
                # Twice over several times the usual duration: some rank waits for ever
                self.violation('hang', f"mpirun -n {n} {func} did not finish within {timeout} s (twice)", params=params)
                return None
            raise Inconclusive(f"mpirun -n {n} {func} did not finish within {timeout} s")
        results = []
        errors = []
        for r in range(n):
            try:
                with open(f'{out}/result.{r}', 'rb') as f:
                    ok, val = pickle.load(f)
            except FileNotFoundError:
                ok, val = None, None
            if ok is False:
                errors.append((r, val))
            results.append(val)
        if errors:
            r, (kind, tb, in_repo) = errors[0]
            if in_repo:
                self.violation(f'exception:{kind}', f"rank {r} of {n} in {func}: {tb[-1200:]}", params=params)
            else:
                raise Inconclusive(f"harness error on rank {r} of {n}: {tb[-1500:]}")
            return None
        if rc != 0 or any(v is None for v in results):
            with open(f'{out}/stdout', 'rb') as f:
                text = f.read().decode('utf8', 'replace')
            if any(s in text for s in ('Signal: ', 'signal 11', 'signal 6', 'AddressSanitizer', 'runtime error:', 'malloc', 'corrupted')):
                self.violation('native-crash', f"mpirun -n {n} {func} rc={rc}: {text[-1200:]}", params=params)
                return None
            if 'MPI_ERR_' in text or 'MPI_ABORT' in text:
                self.violation('mpi-error', f"mpirun -n {n} {func} rc={rc}: {text[-1200:]}", params=params)
                return None
            raise Inconclusive(f"mpirun -n {n} {func} rc={rc}: {text[-1500:]}")
        self.count('mpi_runs')
        self.count('mpi_ranks', n)
        shutil.rmtree(out, ignore_errors=True)
        return results


def in_repo(e):
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def where(e):
    tb, last = e.__traceback__, ''
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/'):
            last = f"{os.path.basename(f)}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return last


def quiet_logging():
    import logging
    logging.getLogger().setLevel(logging.ERROR)
    for name in list(logging.root.manager.loggerDict):
        logging.getLogger(name).setLevel(logging.ERROR)
    logging.disable(logging.WARNING)
    import warnings
    warnings.simplefilter('ignore')


def load(prop):
    return importlib.import_module(prop.lower())


def run_case(mod, prop, case, index, seed, tier):
    ctx = Ctx(prop, case, index, seed, tier)
    ctx.scratch = tempfile.mkdtemp(prefix='verif-')
    old = os.getcwd()
    os.chdir(ctx.scratch)
    t = time.time()
    status, note = 'ok', ''
    try:
        mod.run(case, ctx)
    except Inconclusive as e:
        status, note = 'inconclusive', str(e)
    except MemoryError as e:
        status, note = 'inconclusive', 'MemoryError'
    except Exception as e:
        text = ''.join(traceback.format_exception(e))
        if in_repo(e):
            ctx.violation(f"exception:{type(e).__name__}:{where(e)}", text[-1400:])
        else:
            status, note = 'inconclusive', 'harness error: ' + text[-1800:]
    finally:
        os.chdir(old)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return {'index': index, 'status': status, 'note': note, 'counts': ctx.counts, 'states': sorted(ctx.states),
            'violations': ctx.violations, 'worst': ctx.worst, 'wall': time.time() - t}


def worker(prop, tier, seed):
    """Serve case indices read from stdin; answers go to the original stdout."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import numpy  # noqa
    mod = load(prop)
    quiet_logging()
    cs = mod.cases(tier, rng_for(prop, seed, tier))
    for line in sys.stdin:
        i = line.strip()
        if not i:
            break
        case = json.loads(i)
        res = run_case(mod, prop, case['case'], case['index'], seed, tier)
        out.write(json.dumps(jsonable(res)) + '\n')
        out.flush()


def die_with_parent():
    """End this process when the one that started it ends (ranks of a timed-out mpirun would spin for ever)."""
    LIBC.prctl(1, signal.SIGKILL)


def mpi_main(outdir):
    die_with_parent()
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    with open(f'{outdir}/params', 'rb') as f:
        prop, func, params = pickle.load(f)
    wd = f'{outdir}/rank{comm.rank}'
    os.makedirs(wd, exist_ok=True)
    try:
        mod = load(prop)
        quiet_logging()
        val = getattr(mod, func)(comm, params, outdir)
        res = (True, val if val is not None else True)
    except BaseException as e:
        res = (False, (f"{type(e).__name__}:{where(e)}", ''.join(traceback.format_exception(e)), in_repo(e)))
    with open(f'{outdir}/result.{comm.rank}.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(f'{outdir}/result.{comm.rank}.tmp', f'{outdir}/result.{comm.rank}')
    if not res[0]:
        # Other ranks may be waiting in a collective: give them time to report, then end the job
        time.sleep(1)
        comm.Abort(3)


class Pool:
    def __init__(self, prop, tier, seed, n, case_s):
        self.prop, self.tier, self.seed, self.n, self.case_s = prop, tier, seed, n, case_s
        self.results = []
        self.lock = threading.Lock()

    def spawn(self):
        return subprocess.Popen([sys.executable, os.path.abspath(__file__), '--worker', self.prop, self.tier, str(self.seed)],
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.errlog, 'ab'), text=True,
                                start_new_session=True)

    def serve(self, q, stop):
        p = None
        while not stop():
            try:
                i, case = q.get_nowait()
            except queue.Empty:
                break
            if p is None:
                p = self.spawn()
            killed = []
            def fire(p=p):
                killed.append(1)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            timer = threading.Timer(self.case_s, fire)
            timer.start()
            line = ''
            try:
                p.stdin.write(json.dumps({'index': i, 'case': case}) + '\n')
                p.stdin.flush()
                line = p.stdout.readline()
            except (BrokenPipeError, OSError):
                pass
            timer.cancel()
            if line.endswith('\n'):
                res = json.loads(line)
            else:
                rc = p.wait()
                res = {'index': i, 'status': 'ok', 'note': '', 'counts': {}, 'states': [], 'violations': [], 'worst': {}, 'wall': 0}
                if killed:
                    res.update(status='inconclusive', note=f'watchdog: case ran over {self.case_s} s')
                elif rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                    res['violations'] = [{'mechanism': 'native-crash', 'message': f'the process running the case died with signal {-rc}', 'witness': {}}]
                else:
                    res.update(status='inconclusive', note=f'worker ended with {rc}: {open(self.errlog, errors="replace").read()[-1500:]}')
                p = None
            with self.lock:
                self.results.append(res)
        if p is not None:
            try:
                p.stdin.close()
                p.wait(20)
            except Exception:
                os.killpg(p.pid, signal.SIGKILL)

    def run(self, cases, budget):
        t0 = time.time()
        fd, self.errlog = tempfile.mkstemp(prefix='verif-err-')
        os.close(fd)
        q = queue.Queue()
        for item in enumerate(cases):
            q.put(item)
        stop = lambda: time.time() - t0 > budget
        ts = [threading.Thread(target=self.serve, args=(q, stop)) for _ in range(max(1, min(self.n, len(cases))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        os.unlink(self.errlog)
        return sorted(self.results, key=lambda r: r['index'])


def known_findings(prop):
    out = {}
    path = f'{VERIF}/known_findings.jsonl'
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                k = json.loads(line)
                if k.get('status') == 'known' and k['property'] == prop:
                    out[k['mechanism']] = k['what']
    return out


def main():
    if sys.argv[1] == '--worker':
        return worker(sys.argv[2], sys.argv[3], int(sys.argv[4]))
    if sys.argv[1] == '--mpi':
        return mpi_main(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--only', help='substring of the case JSON')
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier = rep['seed'], rep['tier']
        cases = [rep['case']]
    else:
        cases = mod.cases(tier, rng_for(prop, seed, tier))
        if a.only:
            cases = [c for c in cases if a.only in json.dumps(jsonable(c))]
    cases = [jsonable(c) for c in cases]
    budget = getattr(mod, 'BUDGET', {'quick': 240, 'thorough': 3000})[tier]
    case_s = getattr(mod, 'CASE_S', 300 if tier == 'quick' else 900)
    results, fatal = [], None
    if hasattr(mod, 'PRE'):
        try:
            mod.PRE()
        except Inconclusive as e:
            fatal = str(e)
    if not fatal:
        results = Pool(prop, tier, seed, getattr(mod, 'WORKERS', 8), case_s).run(cases, budget)
    # Aggregate
    counts, states, viol, worst, inconclusive = {}, set(), {}, {}, []
    nontrivial = set()
    for r in results:
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
        states.update(r['states'])
        for k, w in r['worst'].items():
            worst[k] = max(worst.get(k, 0), w)
        for v in r['violations']:
            viol.setdefault(v['mechanism'], []).append((r['index'], v))
        if r['status'] != 'ok':
            inconclusive.append((r['index'], r['note']))
        elif sum(r['counts'].values()):
            nontrivial.add(hashlib.sha1(json.dumps(cases[r['index']], sort_keys=True).encode()).hexdigest())
    if hasattr(mod, 'POST') and not fatal and not a.replay and not a.only:
        for mech, msg in mod.POST(counts, states) or ():
            viol.setdefault(mech, []).append((0, {'mechanism': mech, 'message': msg, 'witness': {}}))
    known = known_findings(prop)
    new = {m: v for m, v in viol.items() if m not in known}
    if a.verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:8]:
            print(f"  {r['wall']:.1f}s case {r['index']} {json.dumps(cases[r['index']])[:160]}")
        print('  worst:', {k: f'{w:.1e}' for k, w in sorted(worst.items())})
        print('  states:', len(states), 'counts:', counts)
    sample_ix = [r['index'] for r in results if r['status'] == 'ok'][:60:12][:5]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results), 'distinct_nontrivial': len(nontrivial), 'rule': mod.RULE,
            'samples': [{'case': cases[i], 'observed': next(r for r in results if r['index'] == i)['counts']} for i in sample_ix],
            'observed': counts, 'distinct_states_observed': len(states), 'states_sample': sorted(states)[:40],
            'worst_relative_error_per_monitor': {k: float(f'{w:.3e}') for k, w in sorted(worst.items())[:60]},
            'cases_generated': len(cases), 'cases_inconclusive': len(inconclusive),
            'known_findings_observed': sorted(set(viol) & set(known)),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    if not a.only and not a.replay:
        with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
            json.dump(evidence, f, indent=1)
    for m in sorted(set(viol) & set(known)):
        print(f"KNOWN-FINDING: property={prop} {known[m]}")
    if new:
        os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True)
        for m, vs in list(sorted(new.items()))[:10]:
            i, v = vs[0]
            path = f"{VERIF}/evidence/replay/{prop}-{hashlib.sha1(m.encode()).hexdigest()[:10]}.json"
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': cases[i] if cases else None, 'violation': v}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{m}] seen in {len({x[0] for x in vs})} case(s): {v['message'][:1200 if a.verbose or a.replay else 500]}")
        print(f"{prop}: {len(results)} cases, {len(new)} violated mechanism(s), {evidence['wall_s']} s")
        return 1
    missing = {k: (counts.get(k, 0), n) for k, n in getattr(mod, 'MIN', {'comparisons': 1}).items() if counts.get(k, 0) < n}
    if a.replay or a.only:
        missing = {}
    if fatal or inconclusive or missing or not results:
        print(f"INCONCLUSIVE: {prop}: {fatal or ''} {len(inconclusive)} inconclusive case(s), monitors below their least count: {missing}")
        for i, note in inconclusive[:3]:
            print(f"  case {i} {json.dumps(cases[i])[:300]}: {note[-1500:]}")
        return 2
    print(f"{prop}: held on {len(results)} cases ({len(nontrivial)} distinct), {counts.get('comparisons', 0)} comparisons over {counts.get('values', 0)} values, {len(states)} distinct states, {evidence['wall_s']} s")
    return 0


if __name__ == '__main__':
    sys.exit(main())
