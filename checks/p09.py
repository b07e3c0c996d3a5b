"""P09: evaluating expressions uses current data and disturbs nothing."""
import numpy as np
import geoms as G
import refcalc as rc
import exprs as X

RULE = ("Random pools of expressions sharing fields and subexpressions are driven through random histories: evaluation (directly, by layout, through handlers, with evaluation identifiers, interrupted by an injected exception and retried), new data in any layout and scales, "
        "layout and scale changes, overwriting of returned results. After every step the result is compared with a reference recomputed from the current data, every field with the function it represents, and every result still held with its value.")
MIN = {'comparisons': 3000, 'evaluations': 500, 'writes': 180, 'held': 800, 'faults': 20, 'grouped': 120, 'regrouped': 60, 'overwritten': 40}
BUDGET = {'quick': 400, 'thorough': 2400}
WORKERS = 8
CASE_S = 120
ASSUMPTIONS = ["a returned field belongs to its expression: evaluating an expression that contains it may refresh it to the current value (STORE_OUTPUTS)"]
GEOS = ['cart1', 'cart2', 'cart3', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl_disk', 'disk_cyl']


def cases(tier, rng):
    out = []
    for i in range(8 if tier == 'quick' else 90):
        for geo in GEOS:
            s = X.wide_spec(rng, geo, deg=3)
            out.append({'spec': s, 'i': i, 'store': [bool(rng.random() < 0.6), bool(rng.random() < 0.6)], 'steps': 25 if geo in ('cart1', 'cart2', 'disk', 'sphere') else 18})
    return out


class Fault(Exception):
    pass


def run(case, ctx):
    import dedalus.public as d3
    import dedalus.core.future as F
    from dedalus.core.evaluator import Evaluator
    rng = ctx.rng()
    spec = case['spec']
    if spec['g'] == 'ball':
        spec['shape'][2] = max(spec['shape'][2], spec['shape'][1]//2 + 2)
    if 'dealias' in spec:
        spec['dealias'] = [max(1.25, x) for x in spec['dealias']]
    old = getattr(F, 'STORE_OUTPUTS', None), F.Future.store_last
    try:
        F.STORE_OUTPUTS, F.Future.store_last = case['store']
        history(case, ctx, rng, d3, F, Evaluator)
    finally:
        F.STORE_OUTPUTS, F.Future.store_last = old


def history(case, ctx, rng, d3, F, Evaluator):
    spec = case['spec']
    g = G.build(spec)
    B = X.Builder(g, rng, maxrank=2 if g.name != 'cart1' else 1)
    fine = [max(1.5, x) for x in g.dealias]
    pool = []
    for _ in range(int(rng.integers(3, 6))):
        n = B.gen(int(rng.integers(0, 2)) if g.n > 1 else 0, depth=int(rng.integers(1, 4)))
        pool.append(n)
    for n in list(pool):
        for m in n.nodes():
            if m.kids and rng.random() < 0.3:
                pool.append(m)
    # combinations reusing whole expressions
    for _ in range(2):
        a, b = B.pick(pool), B.pick(pool)
        if a.rank == b.rank and simple(g, a, b):
            pool.append(X.Node(a.expr - b.expr, lambda x, y: rc.add(x, y, 1, -1), a.rank, (a, b), op='sub'))
    # a general function that can be interrupted
    state = {'fail': False, 'calls': 0}
    def func(*args):
        state['calls'] += 1
        if state['fail']:
            raise Fault()
        return sum(np.asarray(a.data) for a in args)
    full = [n for n in pool if n.kids and B.full(n) and not X.radial(n)]
    if full:
        a = B.pick(full)
        lf = B.new_leaf(a.rank, B.units) if not B.subs else None
        kids = (a,) + ((X.Node(lf.field, None, lf.rank, leaf=lf),) if lf and lf.axes == tuple(range(g.dim)) else ())
        gf = d3.GeneralFunction(g.dist, a.expr.domain, a.expr.tensorsig, g.dtype, 'g', func, args=[k.expr for k in kids])
        gn = X.Node(gf, lambda *xs: xs[0] if len(xs) == 1 else rc.add(*xs), a.rank, kids, op='add' if len(kids) > 1 else 'scale')
        pool.append(gn)
        gn2 = X.Node(2*gf - a.expr, lambda x, y: rc.add(x, y, 2, -1), a.rank, (gn, a), op='sub')
        pool += [gn2, gn2]
    pool = [n for n in pool if n.kids]
    if not pool:
        return
    leaves = [l for l in B.leaves]
    evaluator = Evaluator(g.dist, {})
    held = []
    tol = {'annulus': 2e-5, 'shell': 2e-5, 'cyl_annulus': 2e-5}.get(g.name, 1e-7)
    tags = []

    def data_of(f, sc):
        c = f.copy()
        c.change_scales(sc)
        return np.array(c['g'])

    def compare(f, T, n, mech, what, alt=None):
        """A field (not disturbed by looking) against a reference tensor."""
        size = max(n.size(g, B.env), 1e-12) if n is not None else max(G.tmax(T, g), 1e-12)
        axes = tuple(i for i, b in enumerate(f.domain.full_bases) if b is not None)
        sc = tuple(s if i in axes else 1 for i, s in enumerate(g.dealias))
        got = data_of(f, sc)
        errs = []
        for t in [T] + ([alt] if alt is not None else []):
            errs.append(np.max(np.abs(got - G.on_grid_sub(g, t, g.dealias, axes)), initial=0))
        s2 = max(size, *(G.tmax(t, g) for t in [T] + ([alt] if alt is not None else [])))
        ctx.count('comparisons')
        if not min(errs) <= tol*s2:
            ctx.violation(mech, f"{g.name}: {what}: off by {min(errs):.3g} (size {s2:.3g}) after {'; '.join(tags[-6:])}")

    def check_leaves(what):
        for lf in leaves:
            axes = lf.axes
            sc = tuple(s if i in axes else 1 for i, s in enumerate(g.dealias))
            got = data_of(lf.field, sc)
            want = G.on_grid_sub(g, B.env[lf.key], g.dealias, axes)
            ctx.count('comparisons')
            err, s = np.max(np.abs(got - want), initial=0), max(np.max(np.abs(want), initial=0), 1e-12)
            if not err <= 10*tol*s:
                ctx.violation('operand', f"{g.name}: {what} changed the operand {lf.key} by {err:.3g} (size {s:.3g}); after {'; '.join(tags[-6:])}")
                B.write(lf, fine)

    def check_held(now=()):
        inside = [m for e in now for m in e.nodes()]
        for h in list(held):
            n, f, T = h
            if any(m is n for m in inside):
                # this field may belong to the expression just evaluated again, and is then refreshed
                compare(f, T, n, 'held-result', f"result of {n.text()[:80]} held while evaluating an expression containing it", alt=n.ref(B.env) if F.STORE_OUTPUTS else None)
                held[:] = [k for k in held if k is not h]
            else:
                compare(f, T, n, 'held-result', f"result of {n.text()[:80]} held")
            ctx.count('held')

    def drop(n):
        held[:] = [h for h in held if h[0] is not n]

    def keep(n, f):
        drop(n)
        held.append([n, f, n.ref(B.env)])
        del held[:-5]

    for step in range(case['steps']):
        act = B.pick(['eval']*5 + ['write']*3 + ['layout']*2 + ['group', 'group', 'fault', 'overwrite', 'ident', 'view'])
        if step == 0:
            act = 'eval'
        n = B.pick(pool)
        now = ()
        if act == 'eval':
            tags.append(f"evaluate {n.text()[:40]}")
            out = n.expr.evaluate()
            ctx.count('evaluations')
            ctx.state(g.name, n.op, case['store'], len(held))
            compare(out, n.ref(B.env), n, 'evaluate', n.text()[:120])
            now = (n,)
            check_held(now)
            keep(n, out)
        elif act == 'view':
            lay = B.pick(['g', 'c'])
            tags.append(f"view {n.text()[:40]} in {lay}")
            data = n.expr[lay]
            ctx.count('evaluations')
            out = n.expr.evaluate()
            compare(out, n.ref(B.env), n, 'evaluate', n.text()[:120])
            if lay == 'c':
                ctx.require(np.allclose(data, out['c'], rtol=1e-6, atol=1e-6*max(n.size(g, B.env), 1e-12)), 'view', f"{g.name}: data viewed in coefficients differ from the evaluated result: {n.text()[:100]}")
            drop(n)
            check_held((n,))
        elif act == 'ident':
            # one evaluation identifier shared by several expressions
            key = f"id{step}"
            ns = [n] + [B.pick(pool) for _ in range(2)]
            tags.append("evaluate with an identifier " + ' and '.join(m.text()[:30] for m in ns))
            outs = [m.expr.evaluate(id=key) for m in ns]
            for m, o in zip(ns, outs):
                compare(o, m.ref(B.env), m, 'evaluate-id', m.text()[:120])
                ctx.count('evaluations')
                drop(m)
            check_held(ns)
        elif act == 'group':
            ns = [B.pick(pool) for _ in range(int(rng.integers(1, 4)))]
            if rng.random() < 0.5:
                ns.append(B.pick(ns))       # the same expression in several tasks
            h = evaluator.add_dictionary_handler(group='now')
            lays = [B.pick(['g', 'c']) for _ in ns]
            scs = [B.pick([None, 1, 2, tuple(g.dealias)]) for _ in ns]
            for i, (m, lay) in enumerate(zip(ns, lays)):
                h.add_task(m.expr, layout=lay, scales=scs[i], name=f't{i}')
            tags.append('group ' + ' and '.join(m.text()[:30] for m in ns))
            # (nothing in the arguments tells evaluations apart)
            kw = dict(iteration=int(rng.choice([0, 1, 1, 4])), sim_time=float(rng.choice([0, 0.5])), wall_time=0., timestep=0.1) if rng.random() < 0.7 else {}
            used = [l for l in leaves if any(l.key in m.leaves() for m in ns)]
            for again in range(int(rng.integers(1, 5))):
                if again:
                    # the same tasks with other data
                    lf = B.pick(used or leaves)
                    tags.append(f"write {lf.key} and evaluate the group again")
                    B.fill(lf, lf.gen(rng), fine)
                    ctx.count('regrouped')
                evaluator.evaluate_group('now', **kw) if rng.random() < 0.5 else evaluator.evaluate_handlers([h], **kw)
                for i, (m, lay) in enumerate(zip(ns, lays)):
                    f = h[f't{i}']
                    ctx.require(f.layout is g.dist.get_layout_object(lay), 'handler-layout', f"{g.name}: task not left in the requested layout")
                    ctx.require(tuple(f.scales) == tuple(g.dist.remedy_scales(scs[i])), 'handler-scales', f"{g.name}: task left at scales {f.scales}, requested {scs[i]}")
                    ctx.require(all(h[f't{j}'] is not f for j in range(i)), 'handler-shared', f"{g.name}: two tasks with the same expression share one output")
                    compare(f, m.ref(B.env), m, 'evaluate-group', m.text()[:120])
                    ctx.count('grouped')
                    drop(m)
            evaluator.groups['now'].clear()
            evaluator.handlers.clear()
            check_held(ns)
        elif act == 'write':
            lf = B.pick(leaves)
            T = lf.gen(rng)
            tags.append(f"write {lf.key}")
            how = B.pick(['g', 'g', 'c', 'inplace'])
            B.fill(lf, T, fine)
            if how == 'c':
                tmp = lf.field.copy()
                if g.name in ('disk', 'annulus', 'cart1', 'cart2', 'sphere') or True:
                    lf.field['c'] = tmp['c']
            elif how == 'inplace':
                B.env[lf.key] = rc.scale(T, -2)
                lf.field[B.pick(['c', 'g'])] *= -2
            ctx.count('writes')
            check_held()
        elif act == 'layout':
            lf = B.pick(leaves)
            f = lf.field
            how = B.pick(['c', 'g', 'scales', 'partial'])
            tags.append(f"{how} {lf.key}")
            if how == 'scales':
                f.change_scales(tuple(B.pick([1.25, 1.5, 2]) if i in lf.axes else 1 for i in range(g.dim)))
            elif how == 'partial':
                f.change_layout(g.dist.layouts[int(rng.integers(len(g.dist.layouts)))])
            else:
                f[how]
        elif act == 'overwrite':
            tags.append(f"overwrite the result of {n.text()[:40]}")
            out = n.expr.evaluate()
            drop(n)
            out[B.pick(['g', 'c'])] = 7.25
            if rng.random() < 0.5:
                out.change_scales(1)
            ctx.count('overwritten')
            for m in pool:
                if any(k is n for k in m.nodes()):
                    drop(m)
            # results shared with other held nodes would show here
            check_held((n,))
        elif act == 'fault' and full:
            state['fail'] = True
            m = B.pick([gn, gn2])
            tags.append(f"interrupt {m.text()[:40]}")
            try:
                others = []
                if rng.random() < 0.5:
                    m.expr.evaluate()
                else:
                    # with other tasks, which are left unfinished when this one is interrupted
                    others = [B.pick(pool) for _ in range(int(rng.integers(0, 4)))]
                    tasks = others[:]
                    tasks.insert(int(rng.integers(len(others) + 1)), m)
                    h = evaluator.add_dictionary_handler()
                    for i, o in enumerate(tasks):
                        h.add_task(o.expr, name=f't{i}')
                    evaluator.evaluate_handlers([h])
                ctx.violation('fault', f"{g.name}: the injected exception was lost")
            except Fault:
                pass
            finally:
                state['fail'] = False
                evaluator.handlers.clear()
            ctx.count('faults')
            for k in list(held):
                if any(q is k[0] for e in [m] + others for q in e.nodes()):
                    drop(k[0])
            todo = [m] + others
            used = set(k for o in todo for k in o.leaves())
            for lf in [l for l in leaves if l.key in used]:
                if rng.random() < 0.5:
                    B.fill(lf, lf.gen(rng), fine)
            rng.shuffle(todo)
            for o in todo:
                out = o.expr.evaluate()
                compare(out, o.ref(B.env), o, 'after-exception', f"{o.text()[:100]} evaluated again after an interrupted evaluation and new data")
                ctx.count('after_faults')
                drop(o)
        check_leaves(tags[-1] if tags else act)


def simple(g, a, b):
    f = lambda n: [x is None for x in n.expr.domain.full_bases]
    return f(a) == f(b) and X.radial(a) == X.radial(b)
