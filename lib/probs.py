"""Catalogue of small but complete problems (text equations over every geometry), built deterministically from a spec so that twins
can be made on other meshes, data types, libraries or solver options.

spec: {'fam': name, 'p': {...parameters}, 'real': bool, 'n': sizes, 'dealias': float, 'seed': int}
"""
import numpy as np


class Prob:
    """vars, ns (namespace of the text), eqs: list of (M, L, F, condition) with M the text under the time derivative (or None)."""

    def __init__(self, spec, dist):
        self.spec, self.dist = spec, dist
        self.vars, self.ns, self.eqs = [], {}, []
        self.init = {}     # variable name -> function(*grids) giving smooth initial data

    def var(self, name, bases=None, rank=0, cs=None):
        f = self.dist.TensorField((cs,)*rank, name=name, bases=bases) if rank else self.dist.Field(name=name, bases=bases)
        self.vars.append(f)
        self.ns[name] = f
        return f

    def eq(self, M, L, F, cond="True"):
        self.eqs.append((M, L, F, cond))

    # Problems
    def _add(self, problem, texts):
        for (t, cond) in texts:
            if cond == "True":
                problem.add_equation(t)
            else:
                problem.add_equation(t, condition=cond)
        return problem

    def ivp_texts(self):
        return [((f"dt({M}) + {L}" if L else f"dt({M})") + f" = {F.replace('|', '')}" if M else f"{L} = {F.replace('|', '')}", c) for M, L, F, c in self.eqs]

    def ivp(self, time=None):
        import dedalus.public as d3
        kw = {} if time is None else {'time': time}
        if time is None and 't' in self.ns:
            kw['time'] = self.ns['t']
        return self._add(d3.IVP(self.vars, namespace=self.ns, **kw), self.ivp_texts())

    def lbvp_texts(self, sigma=1.7):
        """Steady forced problem: sigma*M + L = linear part of the forcing (the 'f_*' fields)."""
        out = []
        for M, L, F, c in self.eqs:
            lhs = f"{sigma}*({M}) + {L}" if M and L else (f"{sigma}*({M})" if M else L)
            out.append((f"{lhs} = {self.forcing(F)}", c))
        return out

    def forcing(self, F):
        return (F.split('|')[0] if '|' in F else F) or '0'

    def lbvp(self, sigma=1.7):
        import dedalus.public as d3
        return self._add(d3.LBVP(self.vars, namespace=self.ns), self.lbvp_texts(sigma))

    def evp(self, eig='lam'):
        import dedalus.public as d3
        lam = self.dist.Field(name=eig)
        self.ns[eig] = lam
        texts = [((f"{eig}*({M}) + {L}" if L else f"{eig}*({M})") + " = 0" if M else f"{L} = 0", c) for M, L, F, c in self.eqs]
        return self._add(d3.EVP(self.vars, eigenvalue=lam, namespace=self.ns), texts)

    def nlbvp(self, sigma=1.7):
        import dedalus.public as d3
        texts = []
        for M, L, F, c in self.eqs:
            lhs = f"{sigma}*({M}) + {L}" if M and L else (f"{sigma}*({M})" if M else L)
            texts.append((f"{lhs} = {F.replace('|', '')}", c))
        return self._add(d3.NLBVP(self.vars, namespace=self.ns), texts)

    def set_initial(self, scale=1.0):
        """Smooth, exactly reproducible data (independent of process count)."""
        for name, fn in self.init.items():
            f = self.ns[name]
            f.preset_scales(f.domain.dealias)
            f['g'] = 0
            grids = [self.dist.local_grid(b, scale=f.domain.dealias[self.dist.first_axis(b)]) if b.dim == 1 else self.dist.local_grids(b, scales=f.domain.dealias) for b in f.domain.bases]
            flat = []
            for x in grids:
                flat += list(x) if isinstance(x, (tuple, list)) else [x]
            data = fn(*flat)
            if f.tensorsig:
                for i, d in enumerate(data):
                    f['g'][i] = scale*d
            else:
                f['g'] = scale*data
            f.change_scales(1)
        # keep only what coefficient space holds
        for f in self.vars:
            f['c']
        return self


def num(rng, lo=-1, hi=1):
    return float(np.round(rng.uniform(lo, hi), 3))


FAMILIES = {}


def family(dim, caps, cs='cart'):
    def wrap(fn):
        FAMILIES[fn.__name__] = dict(fn=fn, dim=dim, caps=set(caps.split()), cs=cs)
        return fn
    return wrap


def names(*caps):
    return [k for k, v in FAMILIES.items() if all(c in v['caps'] for c in caps)]


def random_spec(rng, fam, real=None, small=False):
    if real is None:
        real = bool(rng.integers(2))
    return {'fam': fam, 'real': bool(real), 'seed': int(rng.integers(1 << 30)), 'dealias': 1.5, 'small': bool(small)}


def coordsys(kind, dim):
    import dedalus.public as d3
    if kind == 'cart':
        return d3.CartesianCoordinates(*'xyz'[3-dim:] if dim == 3 else ('x', 'z')[2-dim:])
    if kind == 'polar':
        return d3.PolarCoordinates('phi', 'r')
    if kind == 'sphere':
        return d3.S2Coordinates('phi', 'theta')
    if kind == 'spherical':
        return d3.SphericalCoordinates('phi', 'theta', 'r')


def build(spec, comm=None, mesh=None, dist=None, **over):
    import dedalus.public as d3
    from mpi4py import MPI
    fam = FAMILIES[spec['fam']]
    rng = np.random.default_rng(spec['seed'])
    cs = coordsys(fam['cs'], fam['dim'])
    dtype = np.float64 if spec['real'] else np.complex128
    dist = d3.Distributor(cs, dtype=dtype, comm=MPI.COMM_SELF if comm is None else comm, mesh=mesh)
    P = Prob(spec, dist)
    P.cs = cs
    P.over = over
    P.lib = over.get('library')
    P.ns.update({n: getattr(d3, n) for n in d3.__all__}) if hasattr(d3, '__all__') else None
    P.ns.update({n: getattr(np, n) for n in ('pi', 'sin', 'cos', 'exp')})
    t = dist.Field(name='t')
    P.ns['t'] = t    # a time field of the problem's own data type
    P.solver_kw = {}
    fam['fn'](P, rng, d3)
    return P


def F_(P, d3, c, n, b=(0, 2*np.pi), **kw):
    kw = dict(dealias=P.spec['dealias'], **kw)
    if P.lib in ('matrix', 'scipy', 'fftw'):
        kw['library'] = P.lib
    return (d3.RealFourier if P.spec['real'] else d3.ComplexFourier)(c, size=n, bounds=b, **kw)


def C_(P, d3, c, n, b=(0, 1), **kw):
    kw = dict(dealias=P.spec['dealias'], **kw)
    lib = {'matrix': 'matrix', 'scipy': 'scipy_dct', 'fftw': 'fftw_dct'}.get(P.lib)
    if lib:
        kw['library'] = lib
    return d3.ChebyshevT(c, size=n, bounds=b, **kw)


# Families

@family(1, 'ivp evp ode nomesh lbvp')
def ode(P, rng, d3):
    """Coupled ordinary differential and algebraic equations on basis-less fields (scalars and vectors)."""
    cs = P.cs
    u, v, w = P.var('u'), P.var('v'), P.var('w')
    P.ns.update({k: num(rng) for k in ('a1', 'a2', 'a3', 'a4', 'a5', 'm1', 'n1', 'n2', 'n3')})
    P.ns['m1'] *= 0.5
    P.eq("u + m1*v", "a1*u + a2*v + a3*w", "|n1*u*v + n2*sin(3*t)")
    P.eq("v", "a4*u + 0.7*v", "|n3*cos(u)*w + 0.3*t")
    P.eq(None, "w + a5*u - 0.4*v", "0")
    P.consts = {k: P.ns[k] for k in ('a1', 'a2', 'a3', 'a4', 'a5', 'm1', 'n1', 'n2', 'n3')}
    P.init.update(u=lambda: 0.7, v=lambda: -0.4, w=lambda: -(0.7*P.ns['a5']) - 0.16)


@family(1, 'ivp evp lbvp periodic sep')
def kdv(P, rng, d3):
    cs = P.cs
    n = 16 if P.spec['small'] else 24
    xb = F_(P, d3, cs['z'], n, (0, 3))
    u = P.var('u', xb)
    f = P.ns['f'] = P.dist.Field(name='f', bases=xb)
    z = P.dist.local_grids(xb)[0]
    f['g'] = 0.5*np.sin(2*np.pi*z/3) + 0.2*np.cos(4*np.pi*z/3)
    P.ns.update(dz=lambda A: d3.Differentiate(A, cs['z']), a=0.02, b=0.004)
    P.eq("u", "- a*dz(dz(u)) - b*dz(dz(dz(u))) + 0.3*u", "f| - u*dz(u)")
    P.init['u'] = lambda z: 1.1 + np.cos(2*np.pi*z/3) + 0.3*np.sin(4*np.pi*z/3 + 0.4)


@family(1, 'ivp evp lbvp bounded taus ncc')
def cheb(P, rng, d3):
    cs = P.cs
    n = 16 if P.spec['small'] else 24
    zb = C_(P, d3, cs['z'], n)
    u, t1, t2 = P.var('u', zb), P.var('tau_1'), P.var('tau_2')
    f, n0 = (P.dist.Field(name=k, bases=zb) for k in ('f', 'n0'))
    z = P.dist.local_grids(zb)[0]
    f['g'] = np.sin(3*z)
    n0['g'] = 1 + 0.5*z**2
    P.ns.update(f=f, n0=n0, dz=lambda A: d3.Differentiate(A, cs['z']), lift=lambda A, n: d3.Lift(A, zb.derivative_basis(2), n))
    P.eq("n0*u", "- dz(dz(u)) + 0.5*n0*dz(u) + lift(tau_1, -1) + lift(tau_2, -2)", "f| - u*dz(u)")
    P.eq(None, "u(z=0)", "0.2")
    P.eq(None, "dz(u)(z=1) + 2*u(z=1)", "0.5|+0.1*sin(t)")
    P.init['u'] = lambda z: 0.2 + z*(1-z)**2*4
    P.noisy = True


@family(2, 'ivp evp lbvp bounded taus vector mesh')
def rbc(P, rng, d3):
    """First-order reduction with vector variables, pressure gauge and boundary conditions on two edges."""
    cs = P.cs
    nx, nz = (8, 10) if P.spec['small'] else (16, 14)
    xb, zb = F_(P, d3, cs['x'], nx, (0, 4)), C_(P, d3, cs['z'], nz)
    B = (xb, zb)
    P.var('p', B); P.var('b', B); P.var('u', B, 1, cs)
    P.var('tau_p'); P.var('tau_b1', xb); P.var('tau_b2', xb); P.var('tau_u1', xb, 1, cs); P.var('tau_u2', xb, 1, cs)
    ex, ez = cs.unit_vector_fields(P.dist)
    lift = lambda A: d3.Lift(A, zb.derivative_basis(1), -1)
    ns = P.ns
    ns.update(ez=ez, lift=lift, kappa=0.08, nu=0.06, Lz=1, grad_u=d3.grad(ns['u']) + ez*lift(ns['tau_u1']), grad_b=d3.grad(ns['b']) + ez*lift(ns['tau_b1']))
    f = ns['f'] = P.dist.Field(name='f', bases=B)
    x, z = P.dist.local_grids(*B)
    f['g'] = np.cos(np.pi*x/2)*z*(1-z)
    P.eq(None, "trace(grad_u) + tau_p", "0")
    P.eq("b", "- kappa*div(grad_b) + lift(tau_b2)", "f| - u@grad(b)")
    P.eq("u", "- nu*div(grad_u) + grad(p) - b*ez + lift(tau_u2)", "0| - u@grad(u)")
    P.eq(None, "b(z=0)", "Lz")
    P.eq(None, "u(z=0)", "0")
    P.eq(None, "b(z=Lz)", "0")
    P.eq(None, "u(z=Lz)", "0")
    P.eq(None, "integ(p)", "0")
    P.init['b'] = lambda x, z: (1-z) + 0.3*np.sin(np.pi*x/2)*z*(1-z) + 0.1*np.cos(np.pi*x)*z*(1-z)**2
    P.init['u'] = lambda x, z: (0.5*np.sin(np.pi*x/2)*2*z*(1-z)*(1-2*z), -0.5*np.pi/2*np.cos(np.pi*x/2)*z**2*(1-z)**2)


@family(2, 'ivp evp lbvp periodic sep vector cond mesh')
def stokes2(P, rng, d3):
    """Doubly periodic incompressible flow, the pressure gauge imposed by mode conditions."""
    cs = P.cs
    nx, nz = (8, 8) if P.spec['small'] else (16, 12)
    B = (F_(P, d3, cs['x'], nx, (0, 2)), F_(P, d3, cs['z'], nz, (-1, 1)))
    P.var('p', B); P.var('s', B); P.var('u', B, 1, cs)
    f = P.ns['f'] = P.dist.VectorField(cs, name='f', bases=B)
    x, z = P.dist.local_grids(*B)
    f['g'][0] = np.sin(np.pi*z); f['g'][1] = 0.5*np.cos(np.pi*x)
    P.ns.update(nu=0.05, D=0.03)
    P.eq("u", "grad(p) - nu*lap(u) + 0.2*u", "f| - u@grad(u)")
    P.eq("s", "- D*lap(s)", "0| - u@grad(s) + 0.1*sin(t)")
    P.eq(None, "div(u)", "0", "nx != 0 or nz != 0")
    P.eq(None, "p", "0", "nx == 0 and nz == 0")
    P.solver_kw = {'matrix_coupling': [False, False]}
    P.init['u'] = lambda x, z: (np.sin(np.pi*x)*np.sin(np.pi*z) + 0.4, np.cos(np.pi*x)*np.cos(np.pi*z) - 0.2 + 0.1*np.sin(2*np.pi*x))
    P.init['s'] = lambda x, z: np.cos(np.pi*z) + 0.3*np.sin(2*np.pi*x + 0.5) + 0.4


@family(3, 'ivp evp lbvp bounded taus ncc mesh')
def heat3(P, rng, d3):
    cs = P.cs
    n = (4, 6, 8) if P.spec['small'] else (8, 6, 10)
    B = (F_(P, d3, cs['x'], n[0], (0, 2)), F_(P, d3, cs['y'], n[1], (-1, 1)), C_(P, d3, cs['z'], n[2], (0, 2)))
    e = B[:2]
    u = P.var('u', B); P.var('tau_1', e); P.var('tau_2', e)
    n1 = P.ns['n1'] = P.dist.VectorField(cs, name='n1', bases=B[2])
    z = P.dist.local_grids(*B)[2]
    n1['g'][0] = 0.5 + z; n1['g'][2] = 0.3*z
    x, y, z = P.dist.local_grids(*B)
    f = P.ns['f'] = P.dist.Field(name='f', bases=B)
    f['g'] = np.sin(np.pi*x)*z + 0*y
    g = P.ns['g'] = P.dist.Field(name='g', bases=e)
    g['g'] = np.cos(np.pi*y) + 0*x if g['g'].size else 0
    P.ns.update(lift=lambda A, n: d3.Lift(A, B[2].derivative_basis(2), n))
    P.eq("u", "- 0.1*lap(u) + n1@grad(u) + lift(tau_1, -1) + lift(tau_2, -2)", "f| - u**2")
    P.eq(None, "u(z=0)", "0.3*g")
    P.eq(None, "u(z=2)", "0")
    P.init['u'] = lambda x, y, z: (np.cos(np.pi*y)*0.3*(1-z/2)) + 0.5*np.sin(np.pi*x)*np.cos(np.pi*y)*z*(2-z)


@family(3, 'ivp lbvp periodic sep mesh vector')
def waves3(P, rng, d3):
    """Triply periodic first-order wave system."""
    cs = P.cs
    B = (F_(P, d3, cs['x'], 6, (0, 2)), F_(P, d3, cs['y'], 8, (-1, 1)), F_(P, d3, cs['z'], 4, (0, 1)))
    P.var('h', B); P.var('u', B, 1, cs)
    P.eq("h", "1.3*div(u) - 0.02*lap(h)", "0.1|- h*div(u)*0.3")
    P.eq("u", "0.7*grad(h) + 0.2*u", "0|- 0.2*u@grad(u)")
    P.init['h'] = lambda x, y, z: np.sin(np.pi*x)*np.cos(np.pi*y) + 0.2*np.cos(2*np.pi*z)
    P.init['u'] = lambda x, y, z: (np.cos(np.pi*y)+0*x+0*z, 0.3*np.sin(np.pi*x + 2*np.pi*z)+0*y, 0.5 + 0*x*y*z)


def _disk(P, d3):
    n = (8, 6) if P.spec['small'] else (12, 10)
    return d3.DiskBasis(P.cs, shape=n, radius=1.5, dealias=P.spec['dealias'], dtype=P.dist.dtype)


@family(2, 'ivp evp lbvp bounded taus vector curv mesh', cs='polar')
def diskflow(P, rng, d3):
    cs, D = P.cs, _disk(P, d3)
    P.var('p', D); P.var('u', D, 1, cs); P.var('T', D)
    P.var('tau_p'); P.var('tau_u', D.edge, 1, cs); P.var('tau_T', D.edge)
    phi, r = P.dist.local_grids(D)
    f = P.ns['f'] = P.dist.VectorField(cs, name='f', bases=D)
    f['g'][0] = r*(1.5**2 - r**2); f['g'][1] = 0
    x, y = r*np.cos(phi), r*np.sin(phi)
    P.ns.update(nu=0.1, kappa=0.2, lift=lambda A: d3.Lift(A, D, -1), R=1.5)
    P.eq(None, "div(u) + tau_p", "0")
    P.eq("u", "- nu*lap(u) + grad(p) + lift(tau_u)", "f| - u@grad(u)")
    P.eq("T", "- kappa*lap(T) + lift(tau_T)", "1| - u@grad(T)")
    P.eq(None, "u(r=R)", "0")
    P.eq(None, "radial(grad(T)(r=R)) + T(r=R)", "0.5")
    P.eq(None, "integ(p)", "0")
    b = lambda r: (1 - (r/1.5)**2)
    P.init['u'] = lambda phi, r: (r*b(r), 0*r*phi)
    P.init['T'] = lambda phi, r: 0.5 + b(r)*(1 + 0.3*r*np.cos(phi) - 0.2*r**2*np.sin(2*phi))


@family(2, 'ivp evp lbvp bounded taus ncc curv mesh', cs='polar')
def annheat(P, rng, d3):
    cs = P.cs
    n = (8, 14) if P.spec['small'] else (12, 18)
    A = d3.AnnulusBasis(cs, shape=n, radii=(0.8, 2.), dealias=P.spec['dealias'], dtype=P.dist.dtype)
    P.var('u', A); P.var('tau_1', A.outer_edge); P.var('tau_2', A.outer_edge)
    phi, r = P.dist.local_grids(A)
    n0 = P.ns['n0'] = P.dist.Field(name='n0', bases=A.radial_basis)
    n0['g'] = 1 + 0.2*r**2
    f = P.ns['f'] = P.dist.Field(name='f', bases=A)
    f['g'] = r*np.cos(phi)
    P.ns.update(lift=lambda X, n: d3.Lift(X, A.derivative_basis(2), n))
    P.eq("u", "- 0.1*lap(u) + 0.5*n0*u + lift(tau_1, -1) + lift(tau_2, -2)", "f| - 0.3*u**2")
    P.eq(None, "u(r=0.8)", "0.4")
    P.eq(None, "radial(grad(u)(r=2.))", "0|+0.2*sin(2*t)")
    P.init['u'] = lambda phi, r: 0.4 + (r-0.8)*(2-r)**2*(1 + np.sin(phi) + 0.3*np.cos(2*phi))


@family(2, 'ivp evp lbvp sep vector curv mesh', cs='sphere')
def shallow(P, rng, d3):
    cs = P.cs
    n = (8, 6) if P.spec['small'] else (12, 8)
    n = (n[0], n[1] + P.over.get('theta', 0))
    S = d3.SphereBasis(cs, n, radius=1.3, dealias=P.spec['dealias'], dtype=P.dist.dtype)
    P.var('u', S, 1, cs); P.var('h', S)
    P.ns.update(zcross=lambda A: d3.MulCosine(d3.skew(A)), g=0.8, H=0.6, Om=0.5, nu=0.01)
    P.eq("u", "nu*lap(lap(u)) + g*grad(h) + 2*Om*zcross(u) + 0.1*u", "0| - u@grad(u)")
    P.eq("h", "nu*lap(lap(h)) + H*div(u) + 0.1*h", "1| - div(h*u)")
    P.init['u'] = lambda phi, th: (0.5*np.sin(th)*(1 + 0.5*np.cos(th)) + 0*phi, 0.2*np.sin(th)*np.cos(th)*np.sin(th)*np.cos(phi))
    P.init['h'] = lambda phi, th: 0.3*np.cos(th) + 0.2*np.sin(th)**2*np.cos(2*phi)


@family(3, 'ivp evp lbvp bounded taus vector curv mesh', cs='spherical')
def ballconv(P, rng, d3):
    cs = P.cs
    n = (4, 4, 5) if P.spec['small'] else (8, 6, 7)
    n = (n[0], n[1] + P.over.get('theta', 0), n[2])
    B = d3.BallBasis(cs, shape=n, radius=1., dealias=P.spec['dealias'], dtype=P.dist.dtype)
    S = B.surface
    P.var('p', B); P.var('u', B, 1, cs); P.var('T', B); P.var('tau_p'); P.var('tau_u', S, 1, cs); P.var('tau_T', S)
    phi, th, r = P.dist.local_grids(B)
    rv = P.ns['rvec'] = P.dist.VectorField(cs, name='rvec', bases=B.radial_basis)
    rv['g'][2] = r
    strain = d3.grad(P.ns['u']) + d3.trans(d3.grad(P.ns['u']))
    P.ns.update(nu=0.3, kappa=0.2, lift=lambda A: d3.Lift(A, B, -1), stress=d3.angular(d3.radial(strain(r=1), index=1)))
    P.eq(None, "div(u) + tau_p", "0")
    P.eq("u", "- nu*lap(u) + grad(p) - rvec*T + lift(tau_u)", "0| - cross(curl(u), u)")
    P.eq("T", "- kappa*lap(T) + lift(tau_T)", "1.2| - u@grad(T)")
    P.eq(None, "stress", "0", "ntheta != 0") if False else P.eq(None, "angular(u(r=1))", "0")
    P.eq(None, "radial(u(r=1))", "0")
    P.eq(None, "radial(grad(T)(r=1))", "-2")
    P.eq(None, "integ(p)", "0")
    P.init['T'] = lambda phi, th, r: 1 - r**2 + 0.2*(1-r**2)**2*(1 + r*np.cos(th) + 0.5*r*np.sin(th)*np.cos(phi))


@family(3, 'ivp evp lbvp bounded taus vector ncc curv mesh', cs='spherical')
def shellconv(P, rng, d3):
    cs = P.cs
    n = (4, 4, 6) if P.spec['small'] else (8, 4, 8)
    n = (n[0], n[1] + P.over.get('theta', 0), n[2])
    B = d3.ShellBasis(cs, shape=n, radii=(1., 2.), dealias=P.spec['dealias'], dtype=P.dist.dtype)
    S = B.outer_surface
    P.var('p', B); P.var('b', B); P.var('u', B, 1, cs)
    P.var('tau_p'); P.var('tau_b1', S); P.var('tau_b2', S); P.var('tau_u1', S, 1, cs); P.var('tau_u2', S, 1, cs)
    phi, th, r = P.dist.local_grids(B)
    er = P.dist.VectorField(cs, name='er', bases=B.radial_basis); er['g'][2] = 1
    rvec = P.dist.VectorField(cs, name='rvec', bases=B.radial_basis); rvec['g'][2] = r
    lift = lambda A: d3.Lift(A, B.derivative_basis(1), -1)
    ns = P.ns
    ns.update(er=er, rvec=rvec, lift=lift, kappa=0.3, nu=0.4, grad_u=d3.grad(ns['u']) + rvec*lift(ns['tau_u1']), grad_b=d3.grad(ns['b']) + rvec*lift(ns['tau_b1']))
    P.eq(None, "trace(grad_u) + tau_p", "0")
    P.eq("b", "- kappa*div(grad_b) + lift(tau_b2)", "0| - u@grad(b)")
    P.eq("u", "- nu*div(grad_u) + grad(p) - b*er + lift(tau_u2)", "0| - u@grad(u)")
    P.eq(None, "b(r=1)", "1")
    P.eq(None, "u(r=1)", "0")
    P.eq(None, "b(r=2)", "0")
    P.eq(None, "u(r=2)", "0")
    P.eq(None, "integ(p)", "0")
    P.init['b'] = lambda phi, th, r: (2/r - 1) + 0.3*(r-1)*(2-r)*(1 + np.cos(th) + np.sin(th)*np.sin(phi))
