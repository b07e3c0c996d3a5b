"""Random access histories on real fields, with a model that knows which function every field represents.

The model keeps, per field, the exact global coefficients of the represented function (computed on an independent
single-process copy of the geometry with freshly created fields) and predicts the data of every layout and scale.
Works on one process and under MPI (every rank executes the same history).
"""
import numpy as np
import geoms as G

HOSTILE = [1, 1.5, 2, 1.25, 2.6, 0.5, 0.75, 1.1]


class Model:
    """One field (gf on the geometry under test) and the function it should represent."""

    def __init__(self, g, gs, f, fs, name):
        self.g, self.gs, self.f, self.proto, self.name = g, gs, f, fs, name
        self.C = np.zeros_like(np.array(fs['c']))
        self.scale = 1.
        self.raw = None
        self.memo = {}

    def fresh(self, C=None, scales=None, space=None):
        p = self.proto
        f = self.gs.dist.TensorField(p.tensorsig, bases=p.domain.bases, dtype=p.dtype)
        if C is not None:
            f['c'] = C
        return f

    def ref(self, space, scales):
        """Global data in the layout with given grid-space axes."""
        key = (tuple(bool(x) for x in space), tuple(scales))
        if key not in self.memo:
            f = self.fresh(self.C)
            f.change_scales(scales)
            f.change_layout(serial_layout(self.gs, space))
            self.memo[key] = np.array(f.data)
        return self.memo[key]

    def set(self, C):
        self.C = np.array(C)
        self.memo = {}
        m = float(np.abs(self.C).max()) if self.C.size else 0.
        self.scale = max(m, 1e-12)

    def truncate(self, space, scales):
        """The field has been on the grid (along axes in space) at these scales."""
        g = self.gs
        # curvilinear tensors have modes that need slightly more than one grid point per mode
        if all(s >= (1 if g.name in G.CART else 1.25) for s, x in zip(scales, space) if x) or not any(space):
            return
        if g.name in G.CART:
            C = self.C.copy()
            rank = len(self.proto.tensorsig)
            for ax, (s, x) in enumerate(zip(scales, space)):
                if not x or s >= 1 or self.proto.domain.full_bases[ax] is None:
                    continue
                spec = g.spec['axes'][ax]
                N = spec['N']
                Ng = int(np.ceil(s*N))
                ix = [slice(None)]*C.ndim
                if G.is_periodic(spec):
                    K = (Ng-1)//2
                    k = np.abs(np.fft.fftfreq(N, 1/N)) if g.dtype == np.complex128 else np.repeat(np.arange(N//2), 2)
                    ix[rank+ax] = k > K
                else:
                    ix[rank+ax] = np.arange(N) >= Ng
                C[tuple(ix)] = 0
        else:
            f = self.fresh(self.C)
            f.change_scales(scales)
            f.change_layout(serial_layout(g, space))
            C = np.array(f['c'])
        s = self.scale
        self.set(C)
        self.scale = s


def serial_layout(gs, space):
    for l in gs.dist.layouts:
        if tuple(bool(x) for x in l.grid_space) == tuple(bool(x) for x in space):
            return l
    raise KeyError(space)


class History:
    """report(ok, mechanism, message) receives every monitor verdict; count(name) every observation."""

    def __init__(self, g, gs, rng, report, count, nfields=3):
        self.g, self.gs, self.rng, self.report, self.count = g, gs, rng, report, count
        self.models = []
        self.log = []
        self.tol = 1e-9 if g.tol < 5e-9 else 1e-8
        n = g.dist.dim
        subs = [(s[1], sb[1]) for s, sb in zip(G.subdomains(g), G.subdomains(gs))] + [((), ())]
        for i in range(nfields):
            rank = int(rng.integers(0, 3 if n < 3 else 2))
            b, bs = (g.bases, gs.bases) if i == 0 or rng.random() < 0.6 else subs[int(rng.integers(len(subs)))]
            self.add(b, bs, rank, f'f{i}')

    def add(self, b, bs, rank, name):
        f = self.g.dist.TensorField((self.g.cs,)*rank, bases=b, name=name)
        fs = self.gs.dist.TensorField((self.gs.cs,)*rank, bases=bs, name=name)
        m = Model(self.g, self.gs, f, fs, name)
        self.models.append(m)
        self.write(m, 'c')
        return m

    def random_C(self, m, scales=None, space=None):
        f = m.fresh()
        if type(f.domain.bases[0]).__name__ in ('ShellRadialBasis', 'BallRadialBasis') if f.domain.bases else False:
            sub = next(s for s in G.subdomains(self.gs) if s[0].endswith('radial'))
            sc = m.proto.domain.dealias
            f.preset_scales(sc)
            f['g'] = G.on_grid_sub(self.gs, sub[2](self.rng, len(f.tensorsig)), tuple(self.gs.dist.remedy_scales(sc)), sub[3])
            return np.array(f['c'])
        x = self.rng.standard_normal(f['c'].shape)
        if self.g.dtype == np.complex128:
            x = x + 1j*self.rng.standard_normal(x.shape)
        f['c'] = x*f.valid_modes
        if np.prod(f['c'].shape) > 0:
            f.change_scales(m.proto.domain.dealias)
            f['g']
        return np.array(f['c'])*f.valid_modes

    def pick(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def scales(self):
        r = self.rng.random()
        n = self.g.dim
        if r < 0.35:
            return tuple(float(x) for x in self.g.dealias)
        if r < 0.5:
            return (1.,)*n
        if r < 0.65:
            return (float(self.pick(HOSTILE)),)*n if self.g.name in G.CART else (float(self.pick([1, 1.5, 2, 0.75])),)*n
        s = [float(self.pick(HOSTILE if self.g.name in G.CART else [1, 1.5, 2, 1.25])) for _ in range(n)]
        if self.g.name in ('disk', 'annulus', 'sphere', 'ball', 'shell') or 'cyl' in self.g.name:
            s = [max(x, 1.) for x in s]
        return tuple(s)

    def scale_arg(self, s):
        """The forms in which scales may be given."""
        if len(set(s)) == 1 and self.rng.random() < 0.5:
            return s[0]
        return self.pick([tuple(s), list(s), tuple(s)])

    def layout(self):
        return self.pick(list(self.g.dist.layouts))

    def local(self, f, glob):
        """This process's part of a global array in the field's present layout."""
        sl = (slice(None),)*len(f.tensorsig) + f.layout.slices(f.domain, f.scales)
        return glob[sl]

    # Operations (every one ends with the field's data checked against the model)

    def write(self, m, layout=None, scales=None):
        f = m.f
        layout = self.g.dist.get_layout_object(layout) if layout is not None else self.layout()
        if scales is None and self.rng.random() < 0.5:
            scales = self.scales()
        C = self.random_C(m)
        m.set(C)
        sc = tuple(self.g.dist.remedy_scales(scales)) if scales is not None else tuple(f.scales)
        m.truncate(layout.grid_space, sc)
        data = m.ref(layout.grid_space, sc)
        how = self.pick(['set', 'set', 'preset', 'inplace', 'local', 'buffer'])
        if scales is not None:
            arg = self.scale_arg(scales)
            if how == 'set':
                f.preset_scales(arg) if self.rng.random() < 0.5 else None
                f.preset_scales(arg)
        self.log.append(f'write {m.name} {how} l{layout.index} {scales}')
        sl = (slice(None),)*len(f.tensorsig) + layout.slices(f.domain, sc)
        loc = data[sl]
        if how == 'set':
            f[layout] = loc
        elif how in ('preset', 'local', 'buffer'):
            if scales is not None:
                f.preset_scales(arg)
            f.preset_layout(layout)
            if how == 'preset':
                f.data[:] = loc
            elif how == 'local':
                f.set_local_data(loc)
            else:
                np.copyto(f.data, loc)
        else:
            if scales is not None:
                v = f[layout, arg]
            else:
                v = f[layout]
            v[:] = loc
        return layout, sc

    def step(self):
        m = self.pick(self.models)
        f = m.f
        n = self.g.dim
        op = self.pick(['get', 'get', 'get', 'getscale', 'getscale', 'change_scales', 'layout', 'require_grid', 'require_coeff', 'require_axis', 'local', 'towards',
                        'write', 'write', 'scale', 'copy', 'gather', 'global', 'group', 'group', 'filter', 'norm', 'constant', 'load', 'unlock', 'badset'])
        before = (f.layout, tuple(f.scales))
        want_layout, want_scales = None, tuple(f.scales)
        L = self.g.dist.layouts
        if op == 'get':
            l = self.pick(['c', 'g', self.layout()])
            f[l]
            want_layout = self.g.dist.get_layout_object(l)
        elif op == 'getscale':
            l, s = self.pick(['c', 'g', self.layout()]), self.scales()
            f[l, self.scale_arg(s)]
            want_layout, want_scales = self.g.dist.get_layout_object(l), s
        elif op == 'change_scales':
            s = self.scales()
            f.change_scales(self.scale_arg(s))
            want_scales = s
        elif op == 'layout':
            l = self.layout()
            f.change_layout(l)
            want_layout = l
        elif op == 'require_grid':
            f.require_grid_space()
            self.ok(all(f.layout.grid_space), 'layout', 'require_grid_space leaves coefficient axes')
        elif op == 'require_coeff':
            f.require_coeff_space()
            self.ok(not any(f.layout.grid_space), 'layout', 'require_coeff_space leaves grid axes')
        elif op == 'require_axis':
            ax = int(self.rng.integers(n))
            if self.rng.random() < 0.5:
                f.require_grid_space(ax)
                self.ok(bool(f.layout.grid_space[ax]), 'layout', 'require_grid_space(axis)')
            else:
                f.require_coeff_space(ax)
                self.ok(not f.layout.grid_space[ax], 'layout', 'require_coeff_space(axis)')
        elif op == 'local':
            ax = int(self.rng.integers(n))
            f.require_local(ax)
            self.ok(bool(f.layout.local[ax]), 'layout', 'require_local(axis)')
        elif op == 'towards':
            k = f.layout.index
            if k + 1 < len(L) and (k == 0 or self.rng.random() < 0.5):
                f.towards_grid_space()
                want_layout = L[k+1]
            elif k > 0:
                f.towards_coeff_space()
                want_layout = L[k-1]
        elif op == 'write':
            want_layout, want_scales = self.write(m)
        elif op == 'scale':
            c = float(self.pick([2., -1., 0.5]))
            if self.rng.random() < 0.5:
                l = self.layout()
                f[l] *= c
                want_layout = l
            else:
                f.data *= c
            for lay, s in self.path(before[0], f.layout, before[1], before[1]):
                m.truncate(lay.grid_space, s)
            m.set(m.C*c)
        elif op == 'copy':
            k = f.copy()
            self.log.append(f'copy {m.name}')
            self.check_data(m, k, 'copy')
            # the copy is independent of the original
            if self.rng.random() < 0.5:
                k[self.layout()] = 3.
                k.change_scales(self.scales())
                k.data[...] = 5.
            elif self.rng.random() < 0.5:
                f[self.layout()] = 7.
                f.data[...] = 5.
                m.f = k
        elif op == 'gather':
            l = self.pick([None, 'c', 'g', self.layout()])
            want_layout = f.layout if l is None else self.g.dist.get_layout_object(l)
            out = f.allgather_data(l) if self.rng.random() < 0.5 else f.gather_data(layout=l)
            self.count('gathers')
            for lay, s in self.path(before[0], f.layout, before[1], tuple(f.scales)):
                m.truncate(lay.grid_space, s)
            if out is not None:
                want = m.ref(f.layout.grid_space, f.scales)
                self.ok(out.shape == want.shape, 'gather', f'gathered shape {out.shape} instead of {want.shape}')
                self.close(out, want, m, 'gather') if out.shape == want.shape else None
                out[...] = 11.
        elif op == 'global':
            layout, sc = self.write(m)
            C = self.random_C(m)
            m.set(C)
            m.truncate(f.layout.grid_space, f.scales)
            f.set_global_data(np.array(m.ref(f.layout.grid_space, f.scales)))
            want_layout, want_scales = layout, sc
            before = (layout, sc)
        elif op == 'group':
            fs = [x for x in self.models if x.f.layout is f.layout]
            k = f.layout.index
            up = k + 1 < len(L) and (k == 0 or self.rng.random() < 0.5)
            self.log.append(f"group {'up' if up else 'down'} {[x.name for x in fs]} l{k}")
            if up:
                self.g.dist.paths[k].increment([x.f for x in fs])
                want_layout = L[k+1]
            elif k > 0:
                self.g.dist.paths[k-1].decrement([x.f for x in fs])
                want_layout = L[k-1]
            for x in fs:
                if x is not m:
                    x.truncate(x.f.layout.grid_space, x.f.scales)
                    self.ok(x.f.layout is want_layout, 'layout', f'group move: {x.name} in layout {x.f.layout.index}')
            self.count('group_moves', len(fs) > 1)
        elif op == 'filter':
            s = tuple(max(1., x) for x in self.scales())
            self.log.append(f'filter {m.name} {s}')
            f.low_pass_filter(scales=s)
            for lay, sc in self.path(before[0], L[-1], before[1], s):
                m.truncate(lay.grid_space, sc)
        elif op == 'norm':
            p = self.pick([np.inf, 2, 1])
            l = self.pick([None, 'c', 'g'])
            v = f.allreduce_data_norm(l, order=p)
            for lay, s in self.path(before[0], f.layout, before[1], tuple(f.scales)):
                m.truncate(lay.grid_space, s)
            x = np.abs(m.ref(f.layout.grid_space, f.scales))
            want = (x.max() if p == np.inf else (x**p).sum()**(1/p)) if x.size else 0.
            self.ok(abs(v - want) <= 1e-9*max(want, m.scale), 'norm', f'order {p} norm {v} instead of {want}')
        elif op == 'constant':
            f['g'] = 0.
            m.set(0*m.C)
            want_layout = L[-1]
        elif op == 'load':
            C = self.random_C(m)
            m.set(C)
            if self.rng.random() < 0.5:
                f.load_from_global_coeff_data(np.array(C))
                want_layout, want_scales = L[0], tuple(f.scales)
            else:
                s = tuple(max(x, 1.) for x in self.scales())
                m.truncate((True,)*n, s)
                d = np.array(m.ref((True,)*n, s))
                f.load_from_global_grid_data(d, pre_slices=())
                want_scales = tuple(float(x) for x in m.proto.domain.dealias)
        elif op == 'badset':
            # data that cannot be stored: the field stays as it was
            l = self.pick(['c', 'g', self.layout()])
            key = (l, self.scale_arg(self.scales())) if self.rng.random() < 0.6 else l
            bad = np.zeros((7,) + (2,)*(n + len(f.tensorsig)), f.dtype)
            try:
                f[key] = bad
                self.ok(False, 'badset', f'data of shape {bad.shape} accepted by a field of shape {f.data.shape}')
            except ValueError:
                self.count('rejections')
            want_layout = before[0]
        elif op == 'unlock':
            from dedalus.core.field import LockedField
            k = LockedField(self.g.dist, bases=f.domain.bases, tensorsig=f.tensorsig, dtype=f.dtype)
            k.preset_scales(f.scales)
            allowed = [l for l in L if abs(l.index - f.layout.index) <= int(self.rng.integers(2))]
            k.lock_to_layouts(*allowed)
            k.preset_layout(f.layout)
            k.data[...] = f.data
            for l in L:
                if l in allowed:
                    if all(L[i] in allowed for i in range(min(l.index, k.layout.index), max(l.index, k.layout.index)+1)):
                        k.change_layout(l)
                        m.truncate(l.grid_space, k.scales)
                        self.check_data(m, k, 'locked')
                else:
                    try:
                        k[l]
                        self.ok(False, 'locked', 'a locked field moved to a layout that is not allowed')
                    except ValueError:
                        self.count('rejections')
                    if k.layout not in allowed:
                        self.ok(False, 'locked', 'locked field left its layouts')
            k.change_layout(f.layout)
            m.f = k.unlock()
            f = m.f
            self.check_data(m, m.f, 'unlock')
        self.log.append(f'{op} {m.name} -> l{m.f.layout.index} {tuple(m.f.scales)}')
        self.count('steps')
        f = m.f
        # grids visited on the way
        if op not in ('write', 'constant', 'load', 'global', 'filter', 'badset'):
            for lay, s in self.path(before[0], f.layout, before[1], tuple(f.scales)):
                m.truncate(lay.grid_space, s)
        if want_layout is not None:
            self.ok(f.layout is want_layout, 'layout', f'{op}: layout {f.layout.index} instead of {want_layout.index}')
        self.ok(np.allclose(f.scales, want_scales, rtol=1e-13), 'scales', f'{op}: scales {f.scales} instead of {want_scales}')
        self.check_data(m, f, op)
        other = self.pick(self.models)
        self.check_data(other, other.f, f'{op} (another field)')

    def path(self, l0, l1, s0, s1):
        """Layouts (with scales) passed between two states."""
        L = self.g.dist.layouts
        if s0 != s1 and any(l0.grid_space):
            # scales change on the coefficient side of the differing axes: back in coefficient space first
            out = [(l0, s0)]
            return out + [(l1, s1)]
        return [(max(l0, l1, key=lambda l: l.index), s1 if s0 != s1 else s0), (l1, s1)]

    def check_data(self, m, f, op):
        lay = f.layout
        want = self.local(f, m.ref(lay.grid_space, tuple(f.scales)))
        shape = tuple(c.dim for c in f.tensorsig) + tuple(lay.local_shape(f.domain, f.scales))
        self.ok(f.data.shape == shape == want.shape, 'shape', f'{op}: data shape {f.data.shape}, local shape {shape}, reference {want.shape}')
        self.ok(f.data.dtype == m.proto.dtype, 'dtype', f'{op}: {f.data.dtype}')
        self.count(f"layout{sum(bool(x) for x in lay.grid_space)}")
        if f.data.shape == want.shape:
            self.close(f.data, want, m, op)

    def ok(self, cond, mech, msg):
        self.count('comparisons')
        if not cond:
            self.report(f'{mech}:{self.g.name}', f'{msg}; history {self.log[-8:]}')

    def close(self, got, want, m, op):
        self.count('comparisons')
        self.count('values', np.size(want))
        if np.size(want) == 0:
            return
        scale = max(np.abs(want).max(), m.scale)
        err = np.abs(got - want).max()
        if not err <= self.tol*scale:
            self.report(f'history:{op.split()[0]}:{self.g.name}', f'{m.name} ({len(m.f.tensorsig)}, {[str(type(b).__name__) for b in m.f.domain.bases]}) layout {m.f.layout.index} scales {m.f.scales}: error {err:.2e} of {scale:.2e}; history {self.log[-10:]}')
