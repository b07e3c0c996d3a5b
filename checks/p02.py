"""P02: random access histories on live fields against a model of the represented function."""
import numpy as np
import geoms as G
import hist

RULE = ("A case is one random geometry with several fields (ranks 0-2, full, partial and constant domains) put through a random history of reads, writes (whole, in place, preset), layout and scale changes, "
        "copies, gathers, grouped moves, locks and loads; after every operation the field's layout, scales, shape, dtype and data (and another field's data) are compared with the model. "
        "Non-trivial if the history ran at least one comparison.")
MIN = {'comparisons': 8000, 'steps': 2000, 'layout0': 100, 'layout1': 100, 'layout2': 100, 'group_moves': 20, 'rejections': 50}
BUDGET = {'quick': 240, 'thorough': 2400}


def cases(tier, rng):
    out = []
    for i in range(3 if tier == 'quick' else 40):
        for geo in G.CART + ['cart2'] + G.CURV:
            for real in (True, False):
                out.append({'spec': G.random_spec(rng, geo, real=real, deg=3), 'i': i})
    return out


def run(case, ctx):
    g, gs = G.build(case['spec']), G.build(case['spec'])
    rng = ctx.rng()
    for h in range(4):
        n = len(ctx.violations)
        H = hist.History(g, gs, rng, lambda mech, msg: ctx.violation(mech, msg), ctx.count)
        for k in range(40):
            H.step()
            ctx.state(g.name, H.log[-1].split()[0], H.models[0].f.layout.index)
            if len(ctx.violations) > n:
                return
