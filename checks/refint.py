"""Reference one-interval integrators written from the textbook definitions (numpy, dense Newton, IFT)."""
import casadi as ca
import numpy as np


def erk_tableau(s):
    if s == 1:
        return np.zeros((1, 1)), np.array([1.]), np.array([0.])
    if s == 2:
        return np.array([[0, 0], [.5, 0]]), np.array([0., 1.]), np.array([0, .5])
    if s == 3:
        return np.array([[0, 0, 0], [.5, 0, 0], [-1, 2, 0]]), np.array([1 / 6, 4 / 6, 1 / 6]), np.array([0, .5, 1])
    return (np.array([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1., 0]]),
            np.array([1 / 6, 1 / 3, 1 / 3, 1 / 6]), np.array([0, .5, .5, 1]))


def collocation(s, kind):
    """nodes from the orthogonal polynomials, A and b by exact integration of the Lagrange basis"""
    from numpy.polynomial import polynomial as P, legendre as L
    if kind == 'GAUSS_LEGENDRE':
        c = (L.legroots([0] * s + [1]) + 1) / 2
    else:   # Radau IIA: roots of P_{s} - P_{s-1} (contains 1)
        co = np.zeros(s + 1)
        co[s], co[s - 1] = 1, -1
        c = (L.legroots(co) + 1) / 2
    c = np.sort(np.real(c))
    if kind != 'GAUSS_LEGENDRE':
        c[-1] = 1.0
    A, b = np.zeros((s, s)), np.zeros(s)
    for j in range(s):
        roots = [c[m] for m in range(s) if m != j]
        pol = P.polyfromroots(roots) if roots else np.array([1.0])
        pol = pol / P.polyval(c[j], pol)
        ip = P.polyint(pol)
        for i in range(s):
            A[i, j] = P.polyval(c[i], ip)
        b[j] = P.polyval(1.0, ip)
    return A, b, c


def lagrange_at(c, tau):
    return np.array([np.prod([(tau - c[m]) / (c[j] - c[m]) for m in range(len(c)) if m != j]) for j in range(len(c))])


class Ref:
    """d: result of exprs.dynamics; kind in ERK / IRK."""

    def __init__(self, d, kind, stages, steps, coll='GAUSS_LEGENDRE', expl=False):
        self.nx, self.nu, self.nz = d['x'].shape[0], d['u'].shape[0], d['z'].shape[0]
        self.np = d['p'].shape[0]
        self.kind, self.s, self.n = kind, stages, steps
        self.A, self.b, self.c = erk_tableau(stages) if kind == 'ERK' else collocation(stages, coll)
        if kind == 'ERK':
            a = [d['x'], d['u'], d['p'], d['pg'], d['t']]
            f = d['f_expl']
            self.f = ca.Function('f', a, [f, ca.jacobian(f, d['x']), ca.jacobian(f, d['u']), ca.jacobian(f, d['p'])])
        else:
            a = [d['xdot'], d['x'], d['u'], d['z'], d['p'], d['pg'], d['t']]
            G = d['G']
            self.g = ca.Function('g', a, [G, ca.jacobian(G, d['xdot']), ca.jacobian(G, d['x']), ca.jacobian(G, d['u']),
                                          ca.jacobian(G, d['z']), ca.jacobian(G, d['p'])])

    def integrate(self, x, u, p, T, t0=0.0, pg=None):
        """-> dict: x, S (nx x nx+nu), Sp, z, Sz (z at the start of the interval, stage interpolation), xs (stage states)"""
        nx, nu, nz, s = self.nx, self.nu, self.nz, self.s
        pg = np.zeros(0) if pg is None else pg
        h = T / self.n
        x = np.array(x, float)
        nv = nx + nu + self.np
        S = np.zeros((nx, nv))
        S[:, :nx] = np.eye(nx)
        U = np.zeros((nu, nv))
        U[:, nx:nx + nu] = np.eye(nu)
        Pm = np.zeros((self.np, nv))
        Pm[:, nx + nu:] = np.eye(self.np)
        out = {'stages': []}
        m = nx + nz
        K = np.zeros((s, m))
        worst = 0.0
        for k in range(self.n):
            t = t0 + k * h
            if self.kind == 'ERK':
                ks, dks = [], []
                for i in range(s):
                    xi = x + h * sum((self.A[i, j] * ks[j] for j in range(i)), np.zeros(nx))
                    dxi = S + h * sum((self.A[i, j] * dks[j] for j in range(i)), np.zeros((nx, nv)))
                    f, fx, fu, fp = [np.array(o) for o in self.f(xi, u, p, pg, t + self.c[i] * h)]
                    ks.append(f.ravel())
                    dks.append(fx @ dxi + fu @ U + fp @ Pm)
                    out['stages'].append((self.b[i] / self.n, t + self.c[i] * h - t0, xi, dxi[:, :nx + nu]))
                x = x + h * sum(self.b[i] * ks[i] for i in range(s))
                S = S + h * sum(self.b[i] * dks[i] for i in range(s))
                continue
            for it in range(60):
                R = np.zeros(s * m)
                J = np.zeros((s * m, s * m))
                ev = []
                for i in range(s):
                    xi = x + h * (self.A[i] @ K[:, :nx])
                    o = [np.array(q) for q in self.g(K[i, :nx], xi, u, K[i, nx:], p, pg, t + self.c[i] * h)]
                    ev.append(o)
                    R[i * m:(i + 1) * m] = o[0].ravel()
                    for j in range(s):
                        J[i * m:(i + 1) * m, j * m:j * m + nx] = h * self.A[i, j] * o[2] + (o[1] if i == j else 0)
                    J[i * m:(i + 1) * m, i * m + nx:(i + 1) * m] = o[4]
                d = np.linalg.solve(J, R)
                K = K - d.reshape(s, m)
                if np.max(np.abs(d)) < 1e-13 * (1 + np.max(np.abs(K))):
                    break
            else:
                return None
            worst = max(worst, np.linalg.cond(J))
            dR = np.zeros((s * m, nv))
            for i in range(s):
                dR[i * m:(i + 1) * m] = ev[i][2] @ S + ev[i][3] @ U + ev[i][5] @ Pm
            dK = -np.linalg.solve(J, dR).reshape(s, m, nv)
            for i in range(s):
                xi = x + h * (self.A[i] @ K[:, :nx])
                dxi = S + h * np.tensordot(self.A[i], dK[:, :nx], 1)
                out['stages'].append((self.b[i] / self.n, t + self.c[i] * h - t0, xi, dxi[:, :nx + nu]))
            if k == 0:
                w = lagrange_at(self.c, 0.0)
                out['z'] = w @ K[:, nx:]
                out['Sz'] = np.tensordot(w, dK[:, nx:], 1)
                out['xdot0'] = w @ K[:, :nx]
            x = x + h * (self.b @ K[:, :nx])
            S = S + h * np.tensordot(self.b, dK[:, :nx], 1)
        out.update(x=x, S=S[:, :nx + nu], Sp=S[:, nx + nu:], cond=worst)
        return out
