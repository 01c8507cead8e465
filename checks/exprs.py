"""Random smooth CasADi expressions and dynamics, expanded deterministically from a Rnd stream."""
import casadi as ca
import numpy as np


def zeros(cls, n):
    return cls.zeros(n, 1)


def term(r, v, amp):
    """one smooth nonlinear scalar term in the vector v"""
    n = v.shape[0]
    if n == 0:
        return amp * r.unif()
    i, j = r.int(0, n - 1), r.int(0, n - 1)
    c = amp * r.unif()
    k = r.int(0, 6)
    if k == 0:
        return c * ca.sin(r.unif() * 2 * v[i] + r.unif() * v[j] + r.unif())
    if k == 1:
        return c * v[i] * v[j]
    if k == 2:
        return c * ca.tanh(v[i] + r.unif() * v[j])
    if k == 3:
        return c * ca.exp(-0.5 * (v[i] - r.unif()) ** 2)
    if k == 4:
        return c * v[i] / (1 + v[j] ** 2)
    if k == 5:
        return c * ca.cos(v[i]) * v[j]
    return c * ca.sqrt(1 + v[i] ** 2 + 0.5 * v[j] ** 2)


def scalar(r, v, lin=1.0, amp=0.7, nterms=None):
    n = v.shape[0]
    e = r.unif() * 0.3
    for i in range(n):
        if r.bool(0.7):
            e = e + lin * r.unif() * v[i]
    for _ in range(r.int(1, 3) if nterms is None else nterms):
        e = e + term(r, v, amp)
    return e


def vector(r, m, v, lin=1.0, amp=0.7, nterms=None):
    return ca.vertcat(*[scalar(r, v, lin, amp, nterms) for _ in range(m)]) if m else None


def linear(r, m, v):
    return ca.mtimes(ca.DM(r.mat(m, v.shape[0])), v) + ca.DM(r.vec(m, -.3, .3))


def cat(cls, *vs):
    vs = [v for v in vs if v is not None and not (isinstance(v, list) and not v)]
    vs = [v for v in vs if v.shape[0] > 0]
    return ca.vertcat(*vs) if vs else cls.zeros(0, 1)


def dynamics(r, cls, nx, nu, nz, np_, npg=0, tdep=False, implicit=False, linear_dyn=False, amp=0.7, pg=None):
    """-> dict of symbols and expressions; f_expl(x,u,p,t) (nz==0) and residual G(xdot,x,u,z,p,t)=0."""
    S = cls
    d = {}
    x, u, z = S.sym('x', nx), S.sym('u', nu), S.sym('z', nz)
    xd = S.sym('xdot', nx)
    p, t = S.sym('p', np_), S.sym('t')
    pg = S.sym('pg', npg) if pg is None else pg
    args = cat(S, x, u, p, pg, *([ca.sin(t) if not linear_dyn else t] if tdep else []))
    vs = cat(S, args, *([z] if nz else []))
    if linear_dyn:
        f = linear(r, nx, vs)
    else:
        f = vector(r, nx, vs, lin=1.0, amp=amp)
    d.update(x=x, u=u, z=z, xdot=xd, p=p, pg=pg, t=t)
    if nz:
        if linear_dyn:
            gz = linear(r, nz, args)
            G_z = z - gz
        else:
            gz = vector(r, nz, args, lin=1.0, amp=amp)
            G_z = z + 0.2 * ca.sin(z) - gz
            if nz > 1:
                G_z = G_z + 0.15 * ca.mtimes(ca.DM(r.mat(nz, nz)), z)
    if implicit:
        M = ca.DM(np.eye(nx) + 0.25 / max(nx, 1) * r.mat(nx, nx))
        lhs = ca.mtimes(M, xd)
        if not linear_dyn and r.bool(0.6):
            lhs = lhs + 0.1 * ca.sin(xd) + 0.1 * xd * ca.cos(x)
        G_x = lhs - f
    else:
        G_x = xd - f
    d['f_expl'] = f if (nz == 0 and not implicit) else None
    d['G'] = ca.vertcat(G_x, G_z) if nz else G_x
    return d
