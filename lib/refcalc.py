"""Independent reference calculus: exact tensor fields on flat space (and on embedded spheres).

A scalar is a finite sum of products of one-dimensional monomials. Each Cartesian axis is either polynomial
(x**e, e >= 0) or periodic (exp(1j*k*k0*x), k any integer); the algebra is closed under +, *, d/dx_i.
Nothing here uses the code under test.
"""

import numpy as np


class Poly:
    __slots__ = ('kinds', 't')

    def __init__(self, kinds, terms=None):
        self.kinds = kinds      # tuple: None for polynomial, k0 (float) for periodic
        self.t = dict(terms or {})

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = const(self.kinds, o)
        t = dict(self.t)
        for e, c in o.t.items():
            t[e] = t.get(e, 0) + c
        return Poly(self.kinds, t)

    __radd__ = __add__

    def __neg__(self):
        return Poly(self.kinds, {e: -c for e, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return Poly(self.kinds, {e: c*o for e, c in self.t.items()})
        t = {}
        for e, c in self.t.items():
            for f, d in o.t.items():
                g = tuple(i+j for i, j in zip(e, f))
                t[g] = t.get(g, 0) + c*d
        return Poly(self.kinds, t)

    __rmul__ = __mul__

    def d(self, i):
        k0 = self.kinds[i]
        t = {}
        for e, c in self.t.items():
            if k0 is None:
                if e[i]:
                    f = e[:i] + (e[i]-1,) + e[i+1:]
                    t[f] = t.get(f, 0) + c*e[i]
            elif e[i]:
                t[e] = t.get(e, 0) + c*1j*e[i]*k0
        return Poly(self.kinds, t)

    def __call__(self, *xs):
        """Evaluate at broadcastable coordinate arrays."""
        xs = [np.asarray(x) for x in xs]
        shape = np.broadcast_shapes(*[x.shape for x in xs])
        out = np.zeros(shape, dtype=complex)
        cache = {}
        for e, c in self.t.items():
            if c == 0:
                continue
            term = c
            for i, (k, x) in enumerate(zip(e, xs)):
                if k:
                    if (i, k) not in cache:
                        cache[i, k] = x**k if self.kinds[i] is None else np.exp(1j*k*self.kinds[i]*x)
                    term = term * cache[i, k]
            out = out + term
        return out

    def degree(self):
        return max([sum(k for k, kk in zip(e, self.kinds) if kk is None) for e, c in self.t.items() if c != 0] or [0])


def const(kinds, c):
    return Poly(kinds, {(0,)*len(kinds): c})


def mono(kinds, i):
    return Poly(kinds, {tuple(int(j == i) for j in range(len(kinds))): 1})


def random_poly(rng, kinds, deg, total=True, kmax=None, real=True, nterms=None):
    """Random scalar: deg total (or per-axis list) polynomial degree; |k| <= kmax on periodic axes."""
    D = len(kinds)
    degs = [deg]*D if np.isscalar(deg) else list(deg)
    kmax = degs if kmax is None else ([kmax]*D if np.isscalar(kmax) else list(kmax))
    ranges = [range(0, degs[i]+1) if kinds[i] is None else range(-kmax[i], kmax[i]+1) for i in range(D)]
    t = {}
    for e in np.ndindex(*[len(r) for r in ranges]):
        e = tuple(r[i] for r, i in zip(ranges, e))
        if total and np.isscalar(deg):
            if sum(k for k, kk in zip(e, kinds) if kk is None) > deg:
                continue
        size = 1 + sum(abs(k) for k in e)
        t[e] = complex(rng.normal(), rng.normal()) / size
    if nterms is not None and len(t) > nterms:
        keys = [list(t)[i] for i in sorted(rng.choice(len(t), nterms, replace=False))]
        t = {k: t[k] for k in keys}
    p = Poly(kinds, t)
    return real_part(p) if real else p


def real_part(p):
    t = {}
    for e, c in p.t.items():
        f = tuple(-k if kk is not None else k for k, kk in zip(e, p.kinds))
        t[e] = t.get(e, 0) + c/2
        t[f] = t.get(f, 0) + np.conj(c)/2
    return Poly(p.kinds, t)


# Tensors: object arrays of Poly, shape (D,)*rank

def tensor(shape, fn):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = fn(i)
    return out


def random_tensor(rng, kinds, rank, deg, **kw):
    D = len(kinds)
    return tensor((D,)*rank, lambda i: random_poly(rng, kinds, deg, **kw))


def kinds_of(T):
    return T[(0,)*T.ndim].kinds


def grad(T):
    D = len(kinds_of(T))
    return tensor((D,)+T.shape, lambda i: T[i[1:]].d(i[0]))


def div(T, index=0):
    T = np.moveaxis(T, index, 0)
    D = len(kinds_of(T))
    return tensor(T.shape[1:], lambda i: sum((T[(k,)+i].d(k) for k in range(D)), const(kinds_of(T), 0)))


def lap(T):
    D = len(kinds_of(T))
    return tensor(T.shape, lambda i: sum((T[i].d(k).d(k) for k in range(D)), const(kinds_of(T), 0)))


def curl(T, index=0, sign=1):
    """Right-handed curl acting on a vector (3D)."""
    eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}
    z = const(kinds_of(T), 0)
    T = np.moveaxis(T, index, 0)
    out = np.empty(T.shape, dtype=object)
    for i in np.ndindex(*T.shape):
        s = z
        for (a, b, c), e in eps.items():
            if a == i[0]:
                s = s + T[(c,)+i[1:]].d(b)*(e*sign)
        out[i] = s
    return np.moveaxis(out, 0, index)


def trace(T):
    return tensor(T.shape[2:], lambda i: sum((T[(k, k)+i] for k in range(T.shape[0])), const(kinds_of(T), 0)))


def transpose(T, a=0, b=1):
    return np.swapaxes(T, a, b)


def add(A, B, ca=1, cb=1):
    return tensor(A.shape, lambda i: A[i]*ca + B[i]*cb)


def scale(A, c):
    return tensor(A.shape, lambda i: A[i]*c)


def outer(A, B):
    return tensor(A.shape + B.shape, lambda i: A[i[:A.ndim]]*B[i[A.ndim:]])


def dot(A, B, ia=-1, ib=0):
    A = np.moveaxis(A, ia, -1)
    B = np.moveaxis(B, ib, 0)
    n = A.ndim - 1
    z = const(kinds_of(A), 0)
    return tensor(A.shape[:-1] + B.shape[1:], lambda i: sum((A[i[:n]+(k,)]*B[(k,)+i[n:]] for k in range(A.shape[-1])), z))


def cross(A, B, sign=1):
    idx = [(1, 2), (2, 0), (0, 1)]
    return tensor((3,), lambda i: (A[idx[i[0]][0]]*B[idx[i[0]][1]] - A[idx[i[0]][1]]*B[idx[i[0]][0]])*sign)


def evaluate(T, xs):
    """Array of shape T.shape + grid (complex)."""
    grid = np.broadcast_shapes(*[np.shape(x) for x in xs])
    out = np.empty(T.shape + grid, dtype=complex)
    for i in np.ndindex(*T.shape):
        out[i] = T[i](*xs)
    return out


def to_frame(Tv, E):
    """Rotate Cartesian components (rank leading axes) to a local frame; E has shape (n, D) + grid."""
    rank = Tv.ndim - (E.ndim - 2)
    for k in range(rank):
        Tv = np.moveaxis(Tv, k, 0)
        Tv = np.einsum('ai...,i...->a...', broadcast_E(E, Tv), Tv)
        Tv = np.moveaxis(Tv, 0, k)
    return Tv


def broadcast_E(E, Tv):
    extra = Tv.ndim - 1 - (E.ndim - 2)
    return E.reshape(E.shape[:2] + (1,)*extra + E.shape[2:])
