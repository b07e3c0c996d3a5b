"""Random linear expressions (problem left-hand sides) of random variables with non-constant coefficients."""
import numpy as np
import geoms as G


def edges(g):
    """(coord, bases without that coordinate's direction, positions) for the direction that boundary conditions act on."""
    import dedalus.public as d3
    n = g.name
    out = []
    if n in G.CART:
        for i, ax in enumerate(g.spec['axes']):
            if not G.is_periodic(ax):
                out.append((g.coords[i], tuple(b for j, b in enumerate(g.bases) if j != i), list(ax['bounds']), g.bases[i]))
    elif n in ('disk', 'annulus', 'cyl_disk', 'cyl_annulus', 'disk_cyl'):
        r = g.cs.coords[[c.name for c in g.coords].index('r')]
        pos = [g.spec['radius']] if 'disk' in n else g.spec['radii']
        edge = (g.basis.edge,) if 'disk' in n else (g.basis.outer_edge,)
        other = tuple(b for b in g.bases if b is not g.basis)
        bases = tuple(edge[0] if b is g.basis else b for b in g.bases)
        out.append((r, bases, pos, g.basis))
    elif n in ('ball', 'shell'):
        pos = [g.spec['radius']] if n == 'ball' else g.spec['radii']
        out.append((g.coords[2], (g.basis.surface if n == 'ball' else g.basis.outer_surface,), pos, g.basis))
    return out


def ncc_depth(e, nccs):
    """Largest number of non-constant coefficients multiplying a variable."""
    if any(e is f for f in nccs):
        return 1
    args = [a for a in getattr(e, 'args', []) if hasattr(a, 'domain')]
    d = [ncc_depth(a, nccs) for a in args]
    if not d:
        return 0
    return sum(d) if type(e).__name__.startswith(('Multiply', 'Dot', 'Cross', 'Product')) else max(d)


def deriv_depth(e):
    """Largest number of nested derivatives."""
    args = [a for a in getattr(e, 'args', []) if hasattr(a, 'domain')]
    own = {'Gradient': 1, 'Divergence': 1, 'Curl': 1, 'Laplacian': 2}
    n = max((v for k, v in own.items() if type(e).__name__.endswith(k)), default=0)
    return n + max([deriv_depth(a) for a in args], default=0)


class Lin:
    """maxrank: highest tensor rank of variables and intermediate expressions; ncc: allow non-constant coefficients."""

    def __init__(self, g, rng, ncc=True, maxrank=None, nvars=3, taus=True, ncc_rank=1, ncc_axes=None):
        self.g, self.rng, self.ncc = g, rng, ncc
        self.maxrank = maxrank if maxrank is not None else 2
        self.ncc_rank = ncc_rank
        self.vars, self.tvars, self.nccs = [], [], []
        self.ops = {}
        self.ncc_axes = ncc_axes
        self.meridional = False
        g_vars = [0, 1] + [int(rng.integers(0, self.maxrank+1))]
        for i, r in enumerate(g_vars[:nvars]):
            f = g.dist.TensorField((g.cs,)*r, name=f'v{i}', bases=g.bases)
            self.vars.append((f, r))
        self.edges = edges(g) if taus else []
        for c, bases, pos, b in self.edges:
            for r in (0, 1):
                f = g.dist.TensorField((g.cs,)*r, name=f't{len(self.tvars)}', bases=bases)
                self.tvars.append((f, r, c, b))

    def pick(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def all_vars(self):
        return [f for f, r in self.vars] + [t[0] for t in self.tvars]

    def randomize(self, depth=0, lifts_too=True):
        """Random data in every valid mode of every variable, short of the modes that would be truncated by products with
        the given number of non-constant coefficients (truncations before and after a change of basis differ)."""
        g = self.g
        for f in self.all_vars():
            f.preset_scales(1)
            f['c'] = 0
            x = self.rng.standard_normal(f['c'].shape)
            if g.dtype == np.complex128:
                x = x + 1j*self.rng.standard_normal(x.shape)
            f['c'] = x*f.valid_modes
            f['g']
            x = f['c']*f.valid_modes
            if depth and any(f is t[0] for t in self.tvars):
                x = 0*x if lifts_too else x    # lifted into truncated modes
            elif depth:
                x = x*self.keep(f, depth)
            f['c'] = x

    def keep(self, f, depth):
        g = self.g
        mask = True
        for ax in range(g.dim):
            basis = f.domain.full_bases[ax]
            if basis is None:
                continue
            group = g.dist.coeff_layout.local_group_arrays(f.domain, scales=1)[ax]
            if g.name in G.CART:
                spec = g.spec['axes'][ax]
                if G.is_periodic(spec):
                    limit = (spec['N']-1)//2 - (depth if g.dtype == np.complex128 else depth - 1)
                else:
                    limit = spec['N'] - 1 - 2*depth
            elif g.name == 'sphere':
                limit = None if ax == 0 else g.spec['shape'][1] - 2 - 3*depth
            elif ax == 1 and self.meridional:
                limit = g.spec['shape'][1] - 2 - 3*depth
            elif ax < g.dim-1:
                limit = None
            else:
                limit = g.spec['shape'][-1] - 1 - (2*depth if g.name in ('disk', 'ball') else 3*depth + 3)
            if limit is not None:
                mask = mask & np.ma.filled(np.abs(group) <= limit, False)
        return mask

    # Non-constant coefficients
    def new_ncc(self, rank):
        import dedalus.public as d3
        g, rng = self.g, self.rng
        real = g.spec['real']
        num = lambda n: rng.standard_normal(n) if real else rng.standard_normal(n) + 1j*rng.standard_normal(n)
        name = g.name
        if name in G.CART:
            D = g.D
            if self.ncc_axes is None:
                self.ncc_axes = self.pick([(D-1,), (D-1,), tuple(range(D))]) if D > 1 else (0,)
            sub = tuple(i for i in self.ncc_axes if rng.random() < 0.8) or (self.ncc_axes[-1],)
            gen = next(s for s in G.subdomains(g) if s[3] == sub)[2] if len(sub) < D else None
            s = g.spec
            low = dict(s, deg=[min(d, 2) for d in s['deg']], kmax=[min(k, 1) for k in s['kmax']])
            import refcalc as rc
            d = [x if i in sub else 0 for i, x in enumerate(low['deg'])]
            k = [x if i in sub else 0 for i, x in enumerate(low['kmax'])]
            T = rc.random_tensor(rng, g.kinds, rank, d, kmax=k, real=real, nterms=6)
            f = g.dist.TensorField((g.cs,)*rank, name=f'n{len(self.nccs)}', bases=tuple(g.bases[i] for i in sub))
            f['g'] = G.on_grid_sub(g, T, G.norm_scales(g, 1), sub)
        elif name == 'sphere':
            b = g.basis.latitude_basis
            f = g.dist.TensorField((g.cs,)*rank, name=f'n{len(self.nccs)}', bases=b)
            th = g.dist.local_grids(g.basis)[1]
            p = lambda: np.polynomial.polynomial.polyval(np.cos(th), num(3 if g.spec['shape'][1] > 8 else 2))
            v = np.array([np.sin(th)*p(), np.sin(th)*p()])
            w = np.array([np.sin(th)*p(), np.sin(th)*p()])
            f['g'] = p() if rank == 0 else v if rank == 1 else np.einsum('i...,j...->ij...', v, w)
        elif name == 'shell' and self.meridional:
            # Dependent on colatitude and radius: every ell of the problem is coupled
            b = g.basis.meridional_basis
            if g.basis.k and rng.random() < 0.5:
                b = b.clone_with(k=0)
            f = g.dist.TensorField((g.cs,)*rank, name=f'n{len(self.nccs)}', bases=b)
            ph, th, r = g.dist.local_grids(b)
            c, s = np.cos(th), np.sin(th)
            p = lambda: sum(x*y for x, y in zip(num(3), (1 + 0*r*c, r*c, 0.5*r + 0*c)))
            v, w = [np.array([x*s*r + 0*c, p()*s, p()]) for x in num(2)]
            f['g'] = p() if rank == 0 else v if rank == 1 else np.einsum('i...,j...->ij...', v, w)
        elif name in ('disk', 'annulus', 'ball', 'shell'):
            label, bases, gen, axes = next(s for s in G.subdomains(g) if s[0].endswith('radial'))
            old = g.spec['deg']
            g.spec['deg'] = 2
            T = gen(rng, rank)
            g.spec['deg'] = old
            f = g.dist.TensorField((g.cs,)*rank, name=f'n{len(self.nccs)}', bases=bases)
            if g.basis.k and rng.random() < 0.5:
                f = g.dist.TensorField((g.cs,)*rank, name=f'n{len(self.nccs)}', bases=(bases[0]._new_k(0),))
            f['g'] = G.on_grid_sub(g, T, G.norm_scales(g, 1), axes)
        else:
            return None
        if rank and rng.random() < 0.4:
            # One component only, of one sign (a buoyancy or background-flow direction)
            data = f['g'].copy()
            keep = (int(rng.integers(data.shape[0])) if name in G.CART else data.shape[0]-1,)*rank
            f['g'] = 0
            f['g'][keep] = data[keep] if name not in G.CART else -np.abs(np.max(data[keep])) - 0.5 + 0*data[keep]
            if name in G.CART and rng.random() < 0.5:
                f['g'][keep] += 0.1*data[keep]
            f['c']
        self.nccs.append((f, rank))
        return f

    def coeff(self, rank):
        """A coefficient expression of the given rank."""
        have = [f for f, r in self.nccs if r == rank]
        f = self.pick(have) if have and self.rng.random() < 0.6 else self.new_ncc(rank)
        if f is None:
            return None
        if rank == 0 and self.rng.random() < 0.15 and self.g.name in G.CART:
            f = self.pick([lambda: f*f, lambda: 1 + f, lambda: 2*f])()
        return f

    def number(self):
        x = float(np.round(self.rng.uniform(-2, 2), 3)) or 0.5
        if self.g.dtype == np.complex128 and self.rng.random() < 0.3:
            return complex(x, float(np.round(self.rng.uniform(-1, 1), 2)))
        return x

    def lift(self, rank):
        import dedalus.public as d3
        ok = [t for t in self.tvars if t[1] == rank]
        if not ok:
            return None
        f, r, c, b = self.pick(ok)
        n = -int(self.rng.integers(1, 3))
        lb = b
        if hasattr(b, 'derivative_basis') and self.rng.random() < 0.6:
            lb = b.derivative_basis(int(self.rng.integers(1, 3)))
        return d3.Lift(f, lb, n)

    def gen(self, rank, depth):
        for attempt in range(30):
            e = self._gen(rank, depth)
            if e is not None:
                return e
        return self.leaf(rank)

    def leaf(self, rank):
        ok = [f for f, r in self.vars if r == rank]
        if ok:
            return self.pick(ok)
        import dedalus.public as d3
        f, r = self.pick([v for v in self.vars if v[1] < 2])
        while r < rank:
            f, r = d3.grad(f), r+1
        if r > rank:
            f = d3.div(f)
        return f

    def _gen(self, rank, depth):
        import dedalus.public as d3
        g, rng = self.g, self.rng
        if depth <= 0:
            return self.leaf(rank)
        curv = g.name not in G.CART
        ops = ['add', 'add', 'num', 'lap', 'leaf', 'addlift']
        if rank >= 1:
            ops += ['grad', 'grad']
        if rank < self.maxrank:
            ops += ['div', 'div']
        if rank == 0 and self.maxrank >= 2 and g.name != 'sphere':
            ops += ['trace']
        if rank == 2:
            ops += ['transpose']
        if rank == 1 and g.n == 3 and 'cyl' not in g.name:     # rejected at build for cylinders
            ops += ['curl']
        if rank >= 1 and g.name in ('cart2', 'sphere'):
            ops += ['skew']
        if g.name == 'sphere':
            ops += ['cosine']
        if g.name in G.CART:
            ops += ['deriv', 'deriv']
            if g.D > 1 and rank + 1 <= self.maxrank:
                ops += ['comp']
        if self.ncc:
            ops += ['ncc0', 'ncc0']
            if self.ncc_rank and g.D > 1:
                ops += ['nccdot', 'nccdot'] if rank < self.maxrank else ['nccdot'] if self.ncc_rank >= 2 else []
                if rank >= 1:
                    ops += ['nccouter']
                if rank == 1 and g.n == 3:
                    ops += ['ncccross']
        op = self.pick(ops)
        sub = lambda r, d=depth-1: self.gen(r, d)
        e = None
        if op == 'leaf':
            e = self.leaf(rank)
        elif op == 'add':
            a, b = sub(rank), sub(rank)
            e = a + b if rng.random() < 0.5 else a - b
        elif op == 'addlift':
            l = self.lift(rank)
            if l is not None:
                e = sub(rank) + l
        elif op == 'num':
            c = self.number()
            e = self.pick([lambda x: c*x, lambda x: x*c, lambda x: x/c, lambda x: -x])(sub(rank))
        elif op in ('lap', 'grad', 'div', 'curl', 'trace', 'transpose', 'skew'):
            r = {'lap': rank, 'grad': rank-1, 'div': rank+1, 'curl': rank, 'trace': 2, 'transpose': 2, 'skew': rank}[op]
            e = getattr(d3, op)(sub(r))
        elif op == 'cosine':
            e = d3.MulCosine(sub(rank))
        elif op == 'deriv':
            e = d3.Differentiate(sub(rank), g.coords[int(rng.integers(g.D))])
        elif op == 'comp':
            e = d3.comp(sub(rank+1), index=int(rng.integers(rank+1)), comp=g.coords[int(rng.integers(g.D))])
        elif op == 'ncc0':
            f = self.coeff(0)
            if f is not None:
                x = sub(rank)
                e = f*x if rng.random() < 0.5 else x*f
        elif op == 'nccdot':
            r = int(rng.integers(1, min(self.ncc_rank, 2)+1)) if rank < self.maxrank else min(rank, 2)
            ra = rank + 2 - r
            if 1 <= ra <= self.maxrank:
                f = self.coeff(r)
                if f is not None:
                    x = sub(ra)
                    first = rng.random() < 0.5
                    a, b = (f, x) if first else (x, f)
                    if rng.random() < 0.6:
                        e = d3.dot(a, b)
                    else:
                        # contraction of other indices
                        e = d3.DotProduct(a, b, indices=(int(rng.integers(len(a.tensorsig))), int(rng.integers(len(b.tensorsig)))))
        elif op == 'nccouter':
            r = int(rng.integers(1, min(self.ncc_rank, rank)+1))
            f = self.coeff(r)
            if f is not None:
                x = sub(rank - r)
                e = f*x if rng.random() < 0.5 else x*f
        elif op == 'ncccross':
            f = self.coeff(1)
            if f is not None:
                x = sub(1)
                e = d3.cross(f, x) if rng.random() < 0.5 else d3.cross(x, f)
        if e is not None:
            self.ops[op] = self.ops.get(op, 0) + 1
        return e

    def reduce(self, e):
        """A boundary or integral functional of an expression."""
        import dedalus.public as d3
        g, rng = self.g, self.rng
        if self.edges and rng.random() < 0.75:
            c, bases, pos, b = self.pick(self.edges)
            x = d3.Interpolate(e, c, self.pick(pos))
            if g.name in ('ball', 'shell', 'disk', 'annulus') and e.tensorsig and rng.random() < 0.4:
                x = self.pick([d3.radial, d3.angular] if len(e.tensorsig) == 1 or g.dim == 3 else [d3.radial])(x, index=int(rng.integers(len(e.tensorsig))))
            return x
        if not e.tensorsig or g.name in G.CART:
            return self.pick([d3.Integrate, d3.Average])(e, g.cs)
        return None
