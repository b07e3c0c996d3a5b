"""Independent statement of the documented time-stepping schemes for M.dt(X) + L.X = F(X, t)."""
import numpy as np


def lagrange(ts, i, x):
    return np.prod([(x - ts[j])/(ts[i] - ts[j]) for j in range(len(ts)) if j != i])


def dlagrange(ts, i, x):
    s = 0.
    for k in range(len(ts)):
        if k == i:
            continue
        s += np.prod([(x - ts[j]) for j in range(len(ts)) if j not in (i, k)])
    return s/np.prod([ts[i] - ts[j] for j in range(len(ts)) if j != i])


def sbdf(order, ks):
    """Backward differences through the new and the last `order` points, extrapolation through the last `order`; ks newest first."""
    ts = [0.]
    for k in ks[:order]:
        ts.append(ts[-1] - k)        # t(n+1), t(n), t(n-1), ... relative to t(n+1)
    a = [dlagrange(ts, i, 0.) for i in range(order+1)]
    b = [1.] + [0.]*order
    c = [0.] + [lagrange(ts[1:], i, 0.) for i in range(order)]
    return a, b, c


def coefficients(name, ks, n):
    """(a, b, c) of step number n (from 0), ks the step sizes, newest first."""
    k = ks[0]
    if name.startswith('SBDF'):
        return sbdf(min(int(name[4:]), n+1), ks)
    if name == 'CNAB1' or n == 0:
        return [1/k, -1/k], [.5, .5], [0, 1]
    w = ks[0]/ks[1]
    if name == 'CNAB2':
        return [1/k, -1/k], [.5, .5], [0, 1 + w/2, -w/2]
    if name == 'MCNAB2':
        return [1/k, -1/k], [(8 + 1/w)/16, (7 - 1/w)/16, 1/16], [0, 1 + w/2, -w/2]
    if name == 'CNLF2':
        ts = [ks[0], 0., -ks[1]]
        return [dlagrange(ts, i, 0.) for i in range(3)], [1/(2*w), (1 - 1/w)/2, .5], [0, 1]
    raise KeyError(name)


MULTISTEP = ['CNAB1', 'SBDF1', 'CNAB2', 'MCNAB2', 'SBDF2', 'CNLF2', 'SBDF3', 'SBDF4']
RK = ['RK111', 'RK222', 'RK443', 'RKSMR', 'RKGFY']


def tableau(name):
    """(c, A, H): explicit and implicit weights of each stage, by stage increments where that is how the scheme is published."""
    if name == 'RK111':
        return [0, 1], [[0], [1]], [[0], [0, 1]]
    if name == 'RK222':
        g = 1 - 1/np.sqrt(2)
        d = 1 - 1/(2*g)
        return [0, g, 1], [[0], [g], [d, 1-d]], [[0], [0, g], [0, 1-g, g]]
    if name == 'RK443':
        return ([0, .5, 2/3, .5, 1], [[0], [.5], [11/18, 1/18], [5/6, -5/6, .5], [.25, 1.75, .75, -1.75]],
                [[0], [0, .5], [0, 1/6, .5], [0, -.5, .5, .5], [0, 1.5, -1.5, .5, .5]])
    if name == 'RKGFY':
        return [0, 1, 1], [[0], [1], [.5, .5]], [[0], [.5, .5], [.5, 0, .5]]
    if name == 'RKSMR':
        # Spalart, Moser & Rogers: low-storage increments
        al, be, ga, ze = (29/96, -3/40, 1/6), (37/160, 5/24, 1/6), (8/15, 5/12, 3/4), (0, -17/60, -5/12)
        A, H, c = [[0.]*4], [[0.]*4], [0.]
        for s in range(3):
            a, h = list(A[-1]), list(H[-1])
            a[s] += ga[s]
            if s:
                a[s-1] += ze[s]
            h[s] += al[s]
            h[s+1] += be[s]
            A.append(a); H.append(h); c.append(c[-1] + al[s] + be[s])
        return c, A, H
    raise KeyError(name)


class Reference:
    """Integrates blocks X (list of 2D arrays) with dense matrices M, L (lists) and F(X, t) -> list of blocks."""

    def __init__(self, name, M, L, F, X, t=0.):
        self.name, self.M, self.L, self.F = name, M, L, F
        self.X, self.t, self.n = [np.array(x) for x in X], t, 0
        self.hist, self.ks = [], []

    def step(self, k):
        (self.multistep if self.name in MULTISTEP else self.rk)(k)
        self.n += 1

    def multistep(self, k):
        nb = range(len(self.M))
        F = self.F(self.X, self.t)
        self.hist.insert(0, ([self.M[i] @ self.X[i] for i in nb], [self.L[i] @ self.X[i] for i in nb], [np.array(f) for f in F]))
        self.ks.insert(0, k)
        a, b, c = coefficients(self.name, self.ks, self.n)
        new = []
        for i in nb:
            rhs = 0
            for j in range(1, max(len(a), len(b), len(c))):
                MX, LX, Fj = self.hist[j-1]
                if j < len(c):
                    rhs = rhs + c[j]*Fj[i]
                if j < len(a):
                    rhs = rhs - a[j]*MX[i]
                if j < len(b) and b[j]:
                    rhs = rhs - b[j]*LX[i]
            new.append(np.linalg.solve(a[0]*self.M[i] + b[0]*self.L[i], rhs) if self.M[i].size else self.X[i])
        self.X = new
        self.t += k
        del self.hist[6:], self.ks[6:]

    def rk(self, k):
        c, A, H = tableau(self.name)
        nb = range(len(self.M))
        X0, t0 = self.X, self.t
        MX0 = [self.M[i] @ X0[i] for i in nb]
        Fs, LXs, X = [], [], X0
        for s in range(1, len(c)):
            Fs.append([np.array(f) for f in self.F(X, t0 + k*c[s-1])])
            LXs.append([self.L[i] @ X[i] for i in nb])
            new = []
            for i in nb:
                rhs = MX0[i] + 0.
                for j in range(s):
                    rhs = rhs + k*A[s][j]*Fs[j][i] - k*H[s][j]*LXs[j][i]
                new.append(np.linalg.solve(self.M[i] + k*H[s][s]*self.L[i], rhs) if self.M[i].size else X[i])
            X = new
        self.X, self.t = X, t0 + k
