"""Random optimal control problems: a JSON spec -> (AcadosOcp, independent numpy/CasADi reference).

All numbers are expanded from spec['seed'] by name, so shrinking a dimension keeps the rest stable.
"""
import os
import numpy as np
import casadi as ca
from hypothesis import strategies as st

from common import Rnd, Skip
import exprs
import refint

INF = 1e10
_n = [0]
COSTS = ['LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL']


@st.composite
def spec(draw, integ=('ERK', 'ERK', 'IRK', 'DISCRETE'), hess=('GAUSS_NEWTON',), maxN=5, maxnx=4, z=True,
         phi=True, soft=True, pg=True, bgn=False, costs=tuple(COSTS), x0=('x0', 'x0', 'bx0', 'none'), minN=1, cons=True,
         nu_min=1, rev=True, onesided=True, scaling=True, linear=False, cint=True, tdep=True):
    b = st.booleans()
    c = {'seed': draw(st.integers(0, 2 ** 40)), 'sx': draw(b)}
    c['N'] = draw(st.integers(minN, maxN))
    c['nx'] = draw(st.integers(1, maxnx))
    c['nu'] = draw(st.integers(nu_min, 3))
    c['integ'] = draw(st.sampled_from(list(integ)))
    c['hess'] = draw(st.sampled_from(list(hess)))
    if c['integ'] in ('GNSF', 'LIFTED_IRK'):
        c['hess'] = 'GAUSS_NEWTON'
    if c['integ'] == 'GNSF':
        c['sx'] = True                # structure detection is documented for SX models only
    c['nz'] = draw(st.sampled_from([0, 0, 1, 2])) if (z and c['integ'] == 'IRK' and c['hess'] != 'EXACT') else 0
    c['np'] = draw(st.integers(0, 3))
    c['npg'] = draw(st.sampled_from([0, 0, 1, 2])) if pg and c['integ'] != 'GNSF' else 0
    c['linear'] = linear and draw(b)
    c['stages'] = draw(st.integers(1, 4)) if c['integ'] == 'ERK' else draw(st.integers(1, 3))
    c['steps'] = draw(st.integers(1, 2))
    c['grid'] = draw(st.sampled_from(['uniform', 'steps', 'nodes']))
    c['coll'] = draw(st.sampled_from(['GAUSS_LEGENDRE', 'GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA'])) if c['integ'] not in ('ERK', 'DISCRETE') else 'GAUSS_LEGENDRE'
    c['vsim'] = c['integ'] in ('ERK', 'IRK') and draw(st.integers(0, 3)) == 0      # stages and steps per shooting interval
    c['tdep'] = tdep and c['integ'] == 'IRK' and draw(st.integers(0, 2)) == 0
    c['cint'] = cint and c['integ'] == 'IRK' and c['nz'] == 0 and c['hess'] != 'EXACT' and draw(st.integers(0, 2)) == 0
    ct = [k for k in costs if not (c['hess'] == 'EXACT' and k == 'CONVEX_OVER_NONLINEAR')]
    cp = ct
    if c['cint']:
        cp = [k for k in ct if k in ('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR')]
        if not cp:
            c['cint'], cp = False, ct
    c['cost'] = draw(st.sampled_from(cp))
    c['cost0'] = draw(st.sampled_from([None] + cp))
    c['coste'] = draw(st.sampled_from(ct))
    c['Wdiag'] = draw(b)
    c['x0'] = draw(st.sampled_from(list(x0)))
    c['scaling'] = scaling and draw(st.integers(0, 3)) == 0
    if cons:
        c['nbu'] = draw(st.integers(0, c['nu']))
        c['nbx'] = draw(st.integers(0, c['nx']))
        c['nbxe'] = draw(st.integers(0, c['nx']))
        for k in ('ng', 'nge', 'nh0', 'nh', 'nhe'):
            c[k] = draw(st.sampled_from([0, 0, 1, 2]))
        c['bgp'] = draw(b) if (phi and c['hess'] != 'EXACT') else False
        c['soft'] = draw(st.integers(0, 7)) if soft else 0      # bit 0 path bounds, 1 path g/h, 2 stage 0 / terminal
        c['rev'] = rev and c['soft'] > 0 and draw(st.integers(0, 3)) == 0
        c['lbs'] = draw(b) if c['soft'] else False              # non-zero lower bounds of slacks
        c['onesided'] = draw(b) if onesided else False
    return c


OPT_KEYS = dict(coll='GAUSS_LEGENDRE', vsim=False, tdep=False, cint=False, eq0=True, share=True)
CONS_KEYS = dict(nbu=0, nbx=0, nbxe=0, ng=0, nge=0, nh0=0, nh=0, nhe=0, bgp=False, soft=0, rev=False, lbs=False, onesided=False)


class Dyn:
    """one-interval map with first and second derivatives"""

    def __init__(self, c, cls, r, pg=None):
        self.c = c
        d = exprs.dynamics(r, cls, c['nx'], c['nu'], c['nz'], c['np'], c['npg'], implicit=False,
                           linear_dyn=c['linear'], amp=0.4, tdep=c['tdep'], pg=pg)
        self.d = d
        self.kind = c['integ']
        nx, nu = c['nx'], c['nu']
        if self.kind == 'DISCRETE':
            x, u = d['x'], d['u']
            self.disc = x + 0.2 * d['f_expl']
            self.F = ca.Function('F', [x, u, d['p'], d['pg']],
                                 [self.disc, ca.jacobian(self.disc, ca.vertcat(x, u))])
        else:
            self.ns, self.nst = [c['stages']] * c['N'], [c['steps']] * c['N']
            if c['vsim']:
                rv = Rnd(c['seed'], 'vsim')
                self.ns = [rv.int(1, 4 if self.kind == 'ERK' else 3) for _ in range(c['N'])]
                self.nst = [rv.int(1, 3) for _ in range(c['N'])]
            self.refs = {}
            for a in set(zip(self.ns, self.nst)):
                self.refs[a] = refint.Ref(d, 'ERK' if self.kind == 'ERK' else 'IRK', a[0], a[1], c['coll'])
        self.stages = None

    def transition(self, n):
        """discrete dynamics to a state of another dimension"""
        d, r = self.d, Rnd(self.c['seed'], 'trans')
        v = ca.vertcat(d['x'], d['u'], d['p'], d['pg'])
        self.disc = ca.vertcat(*[exprs.linear(r, 1, ca.vertcat(d['x'], d['u'])) + 0.3 * exprs.term(r, v, 1.0) for _ in range(n)])
        self.F = ca.Function('F', [d['x'], d['u'], d['p'], d['pg']], [self.disc, ca.jacobian(self.disc, ca.vertcat(d['x'], d['u']))])

    def __call__(self, x, u, p, pg, T, k):
        """-> x+, J (nx x nx+nu), z, Jz"""
        if self.kind == 'DISCRETE':
            f, J = self.F(x, u, p, pg)
            return np.array(f).ravel(), np.array(J), np.zeros(0), np.zeros((0, len(x) + len(u)))
        o = self.refs[(self.ns[k], self.nst[k])].integrate(x, u, p, T, 0.0, pg)
        if o is None or not np.all(np.isfinite(o['x'])):
            raise Skip('reference integration does not converge')
        n = len(x) + len(u)
        self.stages = o['stages']
        z = o['z'] if self.c['nz'] else np.zeros(0)
        Jz = o['Sz'][:, :n] if self.c['nz'] else np.zeros((0, n))
        return o['x'], o['S'], z, Jz

    def sens_p(self, x, u, p, pg, T):
        raise NotImplementedError

    def hess(self, x, u, p, pg, T, k, mult):
        """sum_i mult_i * Hessian of x+_i (4th order differences of the exact Jacobian)"""
        n = len(x) + len(u)
        w0 = np.concatenate([x, u])
        nx = len(x)
        h = 2e-3
        H = np.zeros((n, n))

        def g(w):
            return self(w[:nx], w[nx:], p, pg, T, k)[1].T @ mult
        for i in range(n):
            e = np.zeros(n)
            e[i] = h
            H[:, i] = (-g(w0 + 2 * e) + 8 * g(w0 + e) - 8 * g(w0 - e) + g(w0 - 2 * e)) / (12 * h)
        return 0.5 * (H + H.T)


def residuals(st, it):
    return np.array([
        max(np.max(np.abs(s['stat'])) for s in st),
        max([np.max(np.abs(s['b'])) for s in st[:-1]]),
        max([0.0] + [np.max(s['ineq']) for s in st if s['ineq'].size]),
        max([0.0] + [np.max(np.abs(s['ineq'] * it['lam'][k])) for k, s in enumerate(st) if s['ineq'].size])])


def newname():
    _n[0] += 1
    return 'o%d' % _n[0]


class Problem:
    """the user's problem, evaluated independently of acados"""

    def __init__(self, c, shared=None):
        """shared: data common to the phases of a multi-phase problem (grid seed, p_global, start of the phase, transition)"""
        c = dict(CONS_KEYS, **dict(OPT_KEYS, **c))
        self.c = c
        self.shared = shared = shared or {}
        self.cls = ca.SX if c['sx'] else ca.MX
        r = Rnd(c['seed'], 'dyn')
        self.dyn = Dyn(c, self.cls, r, shared.get('pg'))
        if shared.get('nx_next'):
            self.dyn.transition(shared['nx_next'])
        d = self.d = self.dyn.d
        N, nx, nu, nz, np_ = c['N'], c['nx'], c['nu'], c['nz'], c['np']
        self.N, self.nx, self.nu, self.nz = N, nx, nu, nz
        self.n = nx + nu
        rr = Rnd(c['seed'], 'data')
        self.p0 = rr.vec(np_)
        self.P = [self.p0.copy() for _ in range(N + 1)]
        self.pg = Rnd(shared.get('seed', c['seed']), 'pg').vec(c['npg'])
        # grid
        rg = Rnd(shared.get('seed', c['seed']), 'grid')
        base = 0.2 if c['integ'] != 'DISCRETE' or shared else 0.25
        if c['grid'] == 'uniform':
            self.dt = np.full(N, base)
        else:
            self.dt = np.array([round(rg.unif(0.08, 0.35), 3) for _ in range(N)])
        self.tf = float(np.sum(self.dt))
        if c['scaling']:
            self.scale = np.array([rg.unif(0.3, 2.0) for _ in range(N + 1)])
        else:
            self.scale = np.concatenate([self.dt, [1.0]])
        # functions
        A0 = [d['x'], d['u'], d['z'], d['p'], d['pg']]
        self.targ = [d['t']]
        self.args = A0
        self.kinds = ['0' if c['cost0'] else 'p'] + ['p'] * (N - 1) + ['e']
        self.cost = {}
        for kind, ct in (('0', c['cost0']), ('p', c['cost']), ('e', c['coste'])):
            if ct:
                self.cost[kind] = self._cost(kind, ct)
        self.yref = [self.cost[self.kinds[k]].get('yref', np.zeros(0)).copy() for k in range(N + 1)]
        self.W = [self.cost[self.kinds[k]].get('W', np.zeros((0, 0))).copy() for k in range(N + 1)]
        self._nominal()
        self._constraints()

    # ---- cost -------------------------------------------------------------------------------------------
    def _cost(self, kind, ct):
        c, d, cls = self.c, self.d, self.cls
        r = Rnd(c['seed'], 'cost', kind, ct)
        nx, nu, nz = self.nx, self.nu, self.nz
        term = kind == 'e'
        x, u, z = d['x'], d['u'], d['z']
        nu_, nz_ = (0, 0) if term else (nu, nz)
        w = x if term else exprs.cat(cls, x, u)
        v = exprs.cat(cls, w, d['p'], d['pg'])
        nw = w.shape[0]
        extra = r.int(0, 2)
        ny = nw + extra
        out = {'type': ct, 'ny': ny}
        wt = np.array([r.unif(0.5, 2.0) for _ in range(ny)])
        W = np.diag(wt)
        if not c['Wdiag']:
            a = 0.3 * r.mat(ny, ny)
            W = W + a @ a.T
            W = 0.5 * (W + W.T)
        out['W'] = W
        out['yref'] = 0.6 * r.vec(ny)
        if ct == 'LINEAR_LS':
            Vx, Vu, Vz = np.zeros((ny, nx)), np.zeros((ny, nu_)), np.zeros((ny, nz_))
            Vx[:nx, :nx] = np.eye(nx)
            Vu[nx:nx + nu_, :] = np.eye(nu_)
            Vx[nw:] = r.mat(extra, nx)
            Vu[nw:] = r.mat(extra, nu_)
            Vx[:nw] += 0.2 * r.mat(nw, nx)
            Vz = 0.4 * r.mat(ny, nz_)
            out.update(Vx=Vx, Vu=Vu, Vz=Vz)
            y = ca.mtimes(ca.DM(Vx), x)
            if nu_:
                y = y + ca.mtimes(ca.DM(Vu), u)
            if nz_:
                y = y + ca.mtimes(ca.DM(Vz), z)
        else:
            ys = []
            for i in range(ny):
                e = w[i] if i < nw else 0
                e = e + (0.25 if i < nw else 0.6) * exprs.term(r, v, 1.0)
                if i >= nw:
                    e = e + exprs.linear(r, 1, w)
                if c['tdep'] and ct != 'EXTERNAL' and not term and r.bool(0.5):
                    e = e + r.unif() * ca.sin(3 * d['t'] + i)
                if nz_ and r.bool(0.4):
                    e = e + 0.4 * r.unif() * z[r.int(0, nz_ - 1)]
                ys.append(e)
            y = ca.vertcat(*ys)
        W_ = ca.DM(W)
        yr = cls.sym('yref', ny)
        mult = cls.sym('mult', ny)
        wz = exprs.cat(cls, w, z) if nz_ else w
        if ct in ('LINEAR_LS', 'NONLINEAR_LS'):
            out['y'] = y
            yh, _ = ca.hessian(ca.dot(mult, y), wz)
            out['fun'] = ca.Function('y', self.args + [mult] + self.targ, [y, ca.jacobian(y, wz), yh])
        elif ct == 'CONVEX_OVER_NONLINEAR':
            out['y'] = y
            rs = cls.sym('r_in_psi', ny)
            a = [r.unif(0.1, 0.8) for _ in range(ny)]
            psi = 0.5 * ca.mtimes([rs.T, W_, rs]) if not c['Wdiag'] else 0.5 * ca.sum1(ca.DM(np.diag(W)) * rs ** 2)
            for i in range(ny):
                if r.bool(0.6):
                    psi = psi + a[i] * ca.sqrt(1 + rs[i] ** 2)
            if c['np'] and r.bool():
                psi = psi + (0.2 + 0.1 * ca.sin(d['p'][0])) * rs[0] ** 2
            out.update(r=rs, psi=psi)
            H, g = ca.hessian(psi, rs)
            out['psi_fun'] = ca.Function('psi', [rs, d['p'], d['pg']], [psi, g, H])
            out['fun'] = ca.Function('y', self.args + self.targ, [y, ca.jacobian(y, wz)])
        else:
            e0 = y - ca.DM(out['yref'])
            l = 0.5 * ca.mtimes([e0.T, W_, e0])
            l = l + 0.2 * ca.sqrt(1 + ca.sumsqr(w)) + 0.15 * exprs.term(r, v, 1.0)
            if nz_:
                l = l + 0.3 * ca.sumsqr(z) + 0.2 * ca.sin(z[0]) + 0.2 * ca.sqrt(1 + (z[nz_ - 1] + exprs.linear(r, 1, w)) ** 2)
            out['l'] = l
            H, g = ca.hessian(l, wz)
            out['fun'] = ca.Function('l', self.args + self.targ, [l, g, H])
            out.pop('W')
            out.pop('yref')
        return out

    def _tot(self, J, Jz):
        """[x,u,z] Jacobian -> total [x,u] Jacobian"""
        n = J.shape[1] - self.nz if J.shape[1] > self.n else J.shape[1]
        if J.shape[1] == n:
            return J
        return J[:, :n] + J[:, n:] @ Jz

    def cost_eval(self, k, x, u, z, Jz, exact=False, stages=None):
        """unscaled stage cost without slacks: value, gradient, Hessian (Gauss-Newton or exact) wrt (x, u)"""
        term = k == self.N
        n = self.nx if term else self.n
        nz = 0 if term else self.nz
        if self.c['cint'] and not term:
            v, g, H = 0.0, np.zeros(n), np.zeros((n, n))
            for w, t, xi, dxi in stages:
                T = np.zeros((n, n))
                T[:self.nx] = dxi
                T[self.nx:, self.nx:] = np.eye(self.nu)
                a, b, c = self._cost_point(k, xi, u, z, T, False, t)
                v, g, H = v + w * a, g + w * b, H + w * c
            return v, g, H
        T = np.eye(n) if not nz else np.vstack([np.eye(n), Jz])
        return self._cost_point(k, x, u, z, T, exact, 0.0)

    def _cost_point(self, k, x, u, z, T, exact, t):
        co = self.cost[self.kinds[k]]
        a = [x, u, z, self.P[k], self.pg]
        if co['type'] in ('LINEAR_LS', 'NONLINEAR_LS'):
            y = np.array(co['fun'](*a, np.zeros(co['ny']), t)[0]).ravel()
            res = y - self.yref[k]
            W = self.W[k]
            _, J, Hy = [np.array(o) for o in co['fun'](*a, W @ res, t)]
            J = J @ T
            H = J.T @ W @ J
            if exact:
                H = H + T.T @ Hy @ T
            return 0.5 * res @ W @ res, J.T @ (W @ res), H
        if co['type'] == 'CONVEX_OVER_NONLINEAR':
            y, J = [np.array(o) for o in co['fun'](*a, t)]
            J = J @ T
            v, g, H = [np.array(o) for o in co['psi_fun'](y.ravel() - self.yref[k], self.P[k], self.pg)]
            return float(v.item()), J.T @ g.ravel(), J.T @ H @ J
        l, g, H = [np.array(o) for o in co['fun'](*a, t)]
        return float(l.item()), T.T @ g.ravel(), T.T @ H @ T

    # ---- nominal trajectory -------------------------------------------------------------------------------
    def _nominal(self):
        r = Rnd(self.c['seed'], 'nom')
        first = self.shared.get('start', 0)
        self.xn = [0.6 * r.vec(self.nx) if self.shared.get('x') is None else self.shared['x']]
        self.un, self.zn = [], []
        for k in range(self.N):
            u = 0.6 * r.vec(self.nu)
            xn, _, z, _ = self.dyn(self.xn[k], u, self.P[k], self.pg, self.dt[k], k)
            if k == first:
                self.x_next = xn
            if k < first or len(xn) != self.nx:       # stages of other phases
                xn = self.xn[k]
            if np.max(np.abs(xn)) > 50:
                raise Skip('nominal trajectory grows too large')
            self.un.append(u)
            self.zn.append(z)
            self.xn.append(xn)

    # ---- constraints --------------------------------------------------------------------------------------
    def _constraints(self):
        """per stage: list of rows (type, lower, upper), Jacobian/value functions and slack bookkeeping"""
        c, d, cls = self.c, self.d, self.cls
        N, nx, nu, nz = self.N, self.nx, self.nu, self.nz
        x, u, z = d['x'], d['u'], d['z']
        S = c['seed']

        def bounds(vals, tag, soft):
            """vals: rows over the stages; bounds contain the nominal values unless the row is soft"""
            vals = np.atleast_2d(vals)
            r = Rnd(S, 'bnd', tag)
            lo, up = [], []
            for i in range(vals.shape[1]):
                m1, m2 = r.choice([0.05, 0.3, 1.0]), r.choice([0.05, 0.3, 1.0])
                l, h = vals[:, i].min() - m1, vals[:, i].max() + m2
                if soft and i in soft and r.bool(0.6):
                    if r.bool():
                        l = vals[:, i].min() + 0.1
                        h = max(h, l + 0.3)
                    else:
                        h = vals[:, i].max() - 0.1
                        l = min(l, h - 0.3)
                if c['onesided'] and r.bool(0.4):
                    if r.bool():
                        l = -INF
                    else:
                        h = INF
                lo.append(l)
                up.append(h)
            return np.array(lo).reshape(-1), np.array(up).reshape(-1)

        def soften(tag, n, on):
            if not on or n == 0:
                return []
            r = Rnd(S, 'soft', tag)
            k = r.int(1, n)
            return sorted(r.subset(n, k))

        sb, sg, se = bool(c['soft'] & 1), bool(c['soft'] & 2), bool(c['soft'] & 4)
        rI = Rnd(S, 'idx')
        C = self.con = {}
        perm = rI.bool(0.3)

        def idx(n, k, tag):
            s = Rnd(S, 'idx', tag).subset(n, k)
            return s if perm else sorted(s)
        C['idxbu'] = idx(nu, c['nbu'], 'bu')
        C['idxbx'] = idx(nx, c['nbx'], 'bx')
        C['idxbx_e'] = idx(nx, c['nbxe'], 'bxe')
        if N == 1:
            C['idxbx'] = []          # no intermediate node carries state bounds
        C['idxsbu'] = soften('bu', len(C['idxbu']), sb)
        C['idxsbx'] = soften('bx', len(C['idxbx']), sb)
        C['idxsbx_e'] = soften('bxe', len(C['idxbx_e']), se)
        U, X = np.array(self.un), np.array(self.xn)
        C['lbu'], C['ubu'] = bounds(U[:, C['idxbu']], 'bu', C['idxsbu'])
        C['lbx'], C['ubx'] = bounds(X[1:max(N, 2), :][:, C['idxbx']], 'bx', C['idxsbx'])
        C['lbx_e'], C['ubx_e'] = bounds(X[N:, :][:, C['idxbx_e']], 'bxe', C['idxsbx_e'])
        if c['x0'] == 'x0':
            C['idxbx_0'] = list(range(nx))
            C['lbx_0'] = C['ubx_0'] = X[0].copy()
            C['idxbxe_0'] = list(range(nx))
        elif c['x0'] == 'bx0':
            k = Rnd(S, 'idx', 'nb0').int(1, nx)
            C['idxbx_0'] = idx(nx, k, 'bx0')
            C['lbx_0'], C['ubx_0'] = bounds(X[:1, :][:, C['idxbx_0']], 'bx0', [])
            C['idxbxe_0'] = []
            if c['eq0'] and Rnd(S, 'eq0').bool(0.5):      # some of them as equalities
                k2 = Rnd(S, 'eq0', 1).int(1, k)
                C['idxbxe_0'] = sorted(Rnd(S, 'eq0', 2).subset(k, k2))
                for i in C['idxbxe_0']:
                    C['lbx_0'][i] = C['ubx_0'][i] = X[0][C['idxbx_0'][i]]
        else:
            C['idxbx_0'], C['lbx_0'], C['ubx_0'], C['idxbxe_0'] = [], np.zeros(0), np.zeros(0), []
        rg = Rnd(S, 'CD')
        ng, nge = c['ng'], c['nge']
        C['C'], C['D'], C['C_e'] = rg.mat(ng, nx), rg.mat(ng, nu), rg.mat(nge, nx)
        C['idxsg'] = soften('g', ng, sg)
        C['idxsg_e'] = soften('ge', nge, se)
        C['lg'], C['ug'] = bounds(X[:N] @ C['C'].T + U @ C['D'].T, 'g', C['idxsg'])
        C['lg_e'], C['ug_e'] = bounds(X[N:] @ C['C_e'].T, 'ge', C['idxsg_e'])
        # nonlinear: h or convex-over-nonlinear phi
        self.hfun = {}
        for tag, n in (('0', c['nh0']), ('p', c['nh'] if N > 1 else 0), ('e', c['nhe'])):
            key = {'0': '_0', 'p': '', 'e': '_e'}[tag]
            C['nh' + key] = n
            C['hexpr' + key] = None
            if n == 0:
                C['idxsh' + key], C['lh' + key], C['uh' + key] = [], np.zeros(0), np.zeros(0)
                continue
            r = Rnd(S, 'h', tag)
            term = tag == 'e'
            w = x if term else exprs.cat(cls, x, u)
            v = exprs.cat(cls, w, d['p'], d['pg'])
            nz_ = 0 if term else nz
            wz = exprs.cat(cls, w, z) if nz_ else w
            if c['bgp']:
                nr = r.int(1, 3)
                # z does not enter r: acados' convex Hessian contribution uses the (x,u) Jacobian of r by design
                rex = ca.vertcat(*[exprs.linear(r, 1, w) + 0.4 * exprs.term(r, v, 1.0) for _ in range(nr)])
                rs = cls.sym('r_in_phi', nr)
                phis = []
                for _ in range(n):
                    phis.append(ca.sqrt(0.5 + ca.sumsqr(rs)) * r.unif(0.3, 1.0) + exprs.linear(r, 1, rs)
                                + 0.3 * r.unif(0, 1) * rs[0] ** 2)
                phi = ca.vertcat(*phis)
                h = ca.substitute(phi, rs, rex)
                ml = cls.sym('ml', n)
                pH, _ = ca.hessian(ca.dot(ml, phi), rs)
                pHe = ca.substitute(pH, rs, rex)
                Jr = ca.jacobian(rex, wz)
                C['phi' + key] = (rex, rs, phi)
                self.hfun[tag] = ca.Function('h', self.args + [ml], [h, ca.jacobian(h, wz), pHe, Jr])
            else:
                hs = []
                for _ in range(n):
                    e = exprs.linear(r, 1, w) + 0.5 * exprs.term(r, v, 1.0) + 0.3 * exprs.term(r, w, 1.0)
                    if nz_ and r.bool(0.5):
                        e = e + 0.5 * z[r.int(0, nz_ - 1)]
                    hs.append(e)
                h = ca.vertcat(*hs)
                ml = cls.sym('ml', n)
                pH, _ = ca.hessian(ca.dot(ml, h), wz)
                self.hfun[tag] = ca.Function('h', self.args + [ml], [h, ca.jacobian(h, wz), pH])
            C['hexpr' + key] = h
            C['idxsh' + key] = soften('h' + tag, n, se if tag != 'p' else sg)
            ks = {'0': [0], 'p': range(1, N), 'e': [N]}[tag]
            vals = [np.array(self.hfun[tag](self.xn[k], self.un[k] if k < N else np.zeros(nu),
                                            self.zn[k] if k < N else np.zeros(nz), self.P[k], self.pg, np.zeros(n))[0]).ravel()
                    for k in ks]
            C['lh' + key], C['uh' + key] = bounds(np.array(vals), 'h' + tag, C['idxsh' + key])
        self._slacks()
        self.refresh_bounds()
        # stage-wise copies of what can be changed at runtime
        self.pen = [{q: C[q + self.key(k)].copy() for q in ('zl', 'zu', 'Zl', 'Zu')} for k in range(N + 1)]
        self.CD = [(C['C'].copy(), C['D'].copy()) for _ in range(N)] + [(C['C_e'].copy(), np.zeros((nge, 0)))]

    def _slacks(self):
        """slack penalties and slack -> row maps"""
        C, c, S = self.con, self.c, self.c['seed']
        C['nsrow'] = {}
        offs = {}
        for key, lst in (('_0', ('sbu', None, 'sg', 'sh_0')), ('', ('sbu', 'sbx', 'sg', 'sh')), ('_e', (None, 'sbx_e', 'sg_e', 'sh_e'))):
            nb_u = len(C['idxbu']) if key != '_e' else 0
            nb_x = len(C['idxbx' + key])
            ng = len(C['lg_e']) if key == '_e' else len(C['lg'])
            off = [0, nb_u, nb_u + nb_x, nb_u + nb_x + ng]
            rows = []
            for o, name in zip(off, lst):
                if name:
                    rows += [o + i for i in C['idx' + name]]
            r = Rnd(S, 'pen', key)
            if c['rev'] and key != '_0' or (c['rev'] and key == '_0'):
                # reverse map: several rows may share a slack
                nrow = nb_u + nb_x + ng + C['nh' + key]
                rev = [-1] * nrow
                ns = 0
                for j, i in enumerate(rows):
                    if ns and r.bool(0.35) and c['share']:
                        rev[i] = r.int(0, ns - 1)
                    else:
                        rev[i] = ns
                        ns += 1
                C['idxs_rev' + key] = rev
            else:
                ns = len(rows)
                rev = [-1] * (nb_u + nb_x + ng + C['nh' + key])
                for j, i in enumerate(rows):
                    rev[i] = j
            C['rev' + key] = rev
            C['ns' + key] = ns
            C['nrow' + key] = len(rev)
            C['zl' + key], C['zu' + key] = [np.array([r.unif(0.1, 1.5) for _ in range(ns)]) for _ in range(2)]
            C['Zl' + key], C['Zu' + key] = [np.array([r.unif(0.2, 3.0) for _ in range(ns)]) for _ in range(2)]
            if c['lbs']:
                C['ls' + key], C['us' + key] = [np.array([r.choice([0., 0., 0.05, 0.1]) for _ in range(ns)]) for _ in range(2)]
            else:
                C['ls' + key], C['us' + key] = np.zeros(ns), np.zeros(ns)

    def key(self, k):
        return '_0' if k == 0 else ('_e' if k == self.N else '')

    def refresh_bounds(self):
        """stage-wise bound vectors in the row order [bu bx g h]"""
        C, N = self.con, self.N
        self.lo, self.up, self.lsb, self.usb = [], [], [], []
        for k in range(N + 1):
            ky = self.key(k)
            bu = ([], []) if k == N else (C['lbu'], C['ubu'])
            g = (C['lg_e'], C['ug_e']) if k == N else (C['lg'], C['ug'])
            self.lo.append(np.concatenate([bu[0], C['lbx' + ky], g[0], C['lh' + ky]]))
            self.up.append(np.concatenate([bu[1], C['ubx' + ky], g[1], C['uh' + ky]]))
            self.lsb.append(C['ls' + ky].copy())
            self.usb.append(C['us' + ky].copy())

    def nrows(self, k):
        return self.con['nrow' + self.key(k)]

    def ns(self, k):
        return self.con['ns' + self.key(k)]

    def eqrows(self, k):
        """rows declared as equalities (initial state)"""
        if k:
            return []
        return [len(self.con['idxbu']) + i for i in self.con['idxbxe_0']]

    def masks(self, k):
        return (self.lo[k] > -INF).astype(float), (self.up[k] < INF).astype(float)

    def con_eval(self, k, x, u, z, Jz, mult=None):
        """values, Jacobian wrt (x,u) and the curvature added by `mult` (exact for h; convex part for phi)"""
        C, nx, nu = self.con, self.nx, self.nu
        n = self.nx if k == self.N else self.n
        ky = self.key(k)
        val, J = [], []
        if k < self.N:
            for i in C['idxbu']:
                e = np.zeros(n)
                e[nx + i] = 1
                val.append(u[i])
                J.append(e)
        for i in C['idxbx' + ky]:
            e = np.zeros(n)
            e[i] = 1
            val.append(x[i])
            J.append(e)
        if k < self.N:
            g = self.CD[k][0] @ x + self.CD[k][1] @ u
            Jg = np.hstack(self.CD[k])
        else:
            g, Jg = self.CD[k][0] @ x, self.CD[k][0]
        val += list(g)
        J += list(Jg)
        H = np.zeros((n, n))
        nh = C['nh' + ky]
        if nh:
            tag = {'_0': '0', '': 'p', '_e': 'e'}[ky]
            nz = 0 if k == self.N else self.nz
            T = np.eye(n) if not nz else np.vstack([np.eye(n), Jz])
            m = np.zeros(nh) if mult is None else mult[-nh:]
            o = [np.array(q) for q in self.hfun[tag](x, u, z, self.P[k], self.pg, m)]
            val += list(o[0].ravel())
            J += list(o[1] @ T)
            if self.c['bgp']:
                Jr = o[3] @ T
                H = Jr.T @ o[2] @ Jr
            else:
                H = T.T @ o[2] @ T
        return np.array(val), np.array(J).reshape(len(val), n), H

    def slack_cost(self, k, sl, su):
        q = self.pen[k]
        return float(q['zl'] @ sl + q['zu'] @ su + 0.5 * sl @ (q['Zl'] * sl) + 0.5 * su @ (q['Zu'] * su))

    def slack_map(self, k):
        """rows x ns selection matrix"""
        rev = self.con['rev' + self.key(k)]
        M = np.zeros((len(rev), self.ns(k)))
        for i, j in enumerate(rev):
            if j >= 0:
                M[i, j] = 1
        return M

    # ---- whole-problem evaluation at an iterate ------------------------------------------------------------
    def evaluate(self, it, exact=False, ks=None):
        """it: dict of lists x,u,pi,lam,sl,su.  -> per-stage linearization and KKT pieces (of the stages ks)"""
        N = self.N
        out = {'cost': 0.0, 'st': []}
        for k in range(N + 1):
            s = {}
            if ks is not None and k not in ks:
                out['st'].append(None)
                continue
            x = it['x'][k]
            u = it['u'][k] if k < N else np.zeros(self.nu)
            if k < N:
                xn, A, z, Jz = self.dyn(x, u, self.P[k], self.pg, self.dt[k], k)
                s['A'], s['b'], s['z'], s['Jz'] = A, xn - it['x'][k + 1], z, Jz
            else:
                z, Jz = np.zeros(self.nz), None
            v, g, H = self.cost_eval(k, x, u, z, Jz, exact, self.dyn.stages)
            sl, su = it['sl'][k], it['su'][k]
            out['cost'] += self.scale[k] * (v + self.slack_cost(k, sl, su))
            s['stagecost'] = v
            g, H = self.scale[k] * g, self.scale[k] * H
            nr, ns = self.nrows(k), self.ns(k)
            lam = it['lam'][k]
            ll, lu, lls, lus = lam[:nr], lam[nr:2 * nr], lam[2 * nr:2 * nr + ns], lam[2 * nr + ns:]
            cv, J, Hc = self.con_eval(k, x, u, z, Jz, (lu if self.c['bgp'] else lu - ll))
            s['costgrad'] = g.copy()
            s['grad'] = g
            if exact or self.c['bgp']:
                H = H + Hc
            if exact and k < N:
                H = H + self.dyn.hess(x, u, self.P[k], self.pg, self.dt[k], k, it['pi'][k])
            s['H'] = H
            s['c'], s['J'] = cv, J
            M = self.slack_map(k)
            q = self.pen[k]
            sc = self.scale[k]
            s['gsl'] = sc * (q['zl'] + q['Zl'] * sl)
            s['gsu'] = sc * (q['zu'] + q['Zu'] * su)
            s['Zl'], s['Zu'] = sc * q['Zl'], sc * q['Zu']
            ml, mu = self.masks(k)
            # inequality functions (negative = satisfied)
            fl = self.lo[k] - cv - M @ sl
            fu = cv - self.up[k] - M @ su
            fls, fus = self.lsb[k] - sl, self.usb[k] - su
            s['ineq'] = np.concatenate([fl * ml, fu * mu, fls, fus])
            s['mask'] = np.concatenate([ml, mu, np.ones(2 * ns)])
            # stationarity
            rs = g - J.T @ (ll - lu)
            if k < N:
                rs = rs + s['A'].T @ it['pi'][k]
            if k > 0:
                rs[:self.nx] -= it['pi'][k - 1]
            s['stat'] = np.concatenate([rs, s['gsl'] - M.T @ ll - lls, s['gsu'] - M.T @ lu - lus])
            out['st'].append(s)
        if ks is None:
            out['res'] = residuals(out['st'], it)
        return out

    # ---- acados side ----------------------------------------------------------------------------------------
    def acados(self, name=None):
        """-> AcadosOcp described through the public interface"""
        from acados_template import AcadosOcp, AcadosModel
        c, d, C = self.c, self.d, self.con
        _n[0] += 1
        ocp = AcadosOcp()
        m = AcadosModel()
        m.name = name or 'o%d' % _n[0]
        m.x, m.u = d['x'], d['u']
        if c['nz']:
            m.z = d['z']
        if c['np']:
            m.p = d['p']
            ocp.parameter_values = self.p0.copy()
        if c['npg']:
            m.p_global = d['pg']
            ocp.p_global_values = self.pg.copy()
        if c['integ'] == 'DISCRETE':
            m.disc_dyn_expr = self.dyn.disc
        elif c['integ'] == 'ERK':
            m.f_expl_expr = d['f_expl']
        else:
            m.xdot = d['xdot']
            m.f_impl_expr = d['G']
        ocp.model = m
        o = ocp.solver_options
        o.N_horizon = self.N
        o.integrator_type = c['integ']
        o.sim_method_num_stages, o.sim_method_num_steps = c['stages'], c['steps']
        if c['vsim']:
            o.sim_method_num_stages, o.sim_method_num_steps = np.array(self.dyn.ns), np.array(self.dyn.nst)
        o.collocation_type = c['coll']
        if c['cint']:
            o.cost_discretization = 'INTEGRATOR'
        if c['tdep']:
            m.t = d['t']
        o.sim_method_newton_iter = 40
        o.hessian_approx = c['hess']
        if c['grid'] == 'uniform':
            o.tf = self.tf
        elif c['grid'] == 'steps':
            o.tf = self.tf
            o.time_steps = self.dt.copy()
        else:
            o.tf = self.tf
            o.shooting_nodes = np.concatenate([[0.0], np.cumsum(self.dt)])
        if c['scaling']:
            o.cost_scaling = self.scale.copy()
        for kind, suf in (('0', '_0'), ('p', ''), ('e', '_e')):
            if kind not in self.cost:
                continue
            co = self.cost[kind]
            ct = co['type']
            setattr(ocp.cost, 'cost_type' + suf, ct)
            if ct in ('LINEAR_LS', 'NONLINEAR_LS'):
                setattr(ocp.cost, 'W' + suf, co['W'].copy())
            if ct != 'EXTERNAL':
                setattr(ocp.cost, 'yref' + suf, co['yref'].copy())
            if ct == 'LINEAR_LS':
                setattr(ocp.cost, 'Vx' + suf, co['Vx'])
                if kind != 'e':
                    setattr(ocp.cost, 'Vu' + suf, co['Vu'])
                    if c['nz']:
                        setattr(ocp.cost, 'Vz' + suf, co['Vz'])
            elif ct == 'NONLINEAR_LS':
                setattr(m, 'cost_y_expr' + suf, co['y'])
            elif ct == 'CONVEX_OVER_NONLINEAR':
                setattr(m, 'cost_y_expr' + suf, co['y'])
                setattr(m, 'cost_r_in_psi_expr' + suf, co['r'])
                setattr(m, 'cost_psi_expr' + suf, co['psi'])
            else:
                setattr(m, 'cost_expr_ext_cost' + suf, co['l'])
        K = ocp.constraints
        if c['nbu']:
            K.idxbu, K.lbu, K.ubu = np.array(C['idxbu']), C['lbu'], C['ubu']
        if C['idxbx']:
            K.idxbx, K.lbx, K.ubx = np.array(C['idxbx']), C['lbx'], C['ubx']
        if C['idxbx_e']:
            K.idxbx_e, K.lbx_e, K.ubx_e = np.array(C['idxbx_e']), C['lbx_e'], C['ubx_e']
        if c['x0'] == 'x0':
            K.x0 = self.xn[0].copy()
        elif c['x0'] == 'bx0':
            K.idxbx_0, K.lbx_0, K.ubx_0 = np.array(C['idxbx_0']), C['lbx_0'], C['ubx_0']
            if C['idxbxe_0']:
                K.idxbxe_0 = np.array(C['idxbxe_0'])
        if c['ng']:
            K.C, K.D, K.lg, K.ug = C['C'], C['D'], C['lg'], C['ug']
        if c['nge']:
            K.C_e, K.lg_e, K.ug_e = C['C_e'], C['lg_e'], C['ug_e']
        for suf in ('_0', '', '_e'):
            if not C['nh' + suf]:
                continue
            if c['bgp']:
                rex, rs, phi = C['phi' + suf]
                setattr(K, 'constr_type' + suf, 'BGP')
                setattr(m, 'con_r_expr' + suf, rex)
                setattr(m, 'con_r_in_phi' + suf, rs)
                setattr(m, 'con_phi_expr' + suf, phi)
                setattr(K, 'lphi' + suf, C['lh' + suf])
                setattr(K, 'uphi' + suf, C['uh' + suf])
            else:
                setattr(m, 'con_h_expr' + suf, C['hexpr' + suf])
                setattr(K, 'lh' + suf, C['lh' + suf])
                setattr(K, 'uh' + suf, C['uh' + suf])
        for suf in ('_0', '', '_e'):
            if not C['ns' + suf]:
                continue
            for q in ('zl', 'zu', 'Zl', 'Zu'):
                setattr(ocp.cost, q + suf, C[q + suf])
        if c['rev']:
            for suf in ('_0', '', '_e'):
                if C['ns' + suf]:
                    setattr(K, 'idxs_rev' + suf, np.array(C['idxs_rev' + suf]))
                    if c['lbs']:
                        setattr(K, 'ls' + suf, C['ls' + suf])
                        setattr(K, 'us' + suf, C['us' + suf])
        else:
            self._set_idxs(K)
        g = ocp.code_gen_options
        g.ext_fun_compile_flags = '-O0'
        g.code_export_directory = os.path.join(os.getcwd(), 'c_' + m.name)
        g.json_file = os.path.join(os.getcwd(), m.name + '.json')
        return ocp

    def _set_idxs(self, K):
        C, c = self.con, self.c
        ph = 'phi' if c['bgp'] else 'h'
        # order of slacks per stage: bu, bx, g, h
        for suf, parts in (('_0', [('sh_0', 's' + ph + '_0')]),
                           ('', [('sbu', 'sbu'), ('sbx', 'sbx'), ('sg', 'sg'), ('sh', 's' + ph)]),
                           ('_e', [('sbx_e', 'sbx_e'), ('sg_e', 'sg_e'), ('sh_e', 's' + ph + '_e')])):
            off = 0
            if suf == '_0':
                off = len(C['idxsbu']) + len(C['idxsg'])
            for mine, theirs in parts:
                n = len(C['idx' + mine])
                if n:
                    setattr(K, 'idx' + theirs, np.array(C['idx' + mine]))
                    if c['lbs']:
                        setattr(K, 'l' + theirs, C['ls' + suf][off:off + n])
                        setattr(K, 'u' + theirs, C['us' + suf][off:off + n])
                off += n
        if c['lbs'] and C['ns_0']:
            # slack bounds of bu and g are shared by stage 0 and the path
            nb, nbx, ng = len(C['idxsbu']), len(C['idxsbx']), len(C['idxsg'])
            for q in ('ls', 'us'):
                C[q + '_0'][:nb] = C[q][:nb]
                C[q + '_0'][nb:nb + ng] = C[q][nb + nbx:nb + nbx + ng]
            self.refresh_bounds()


def prob_labels(c):
    L = [c['integ'], c['hess'], 'cost:' + c['cost'], 'cost_e:' + c['coste'], 'x0:' + c['x0'], 'sx' if c['sx'] else 'mx', 'grid:' + c['grid']]
    for k in ('nz', 'np', 'npg', 'nbu', 'nbx', 'ng', 'nh', 'nh0', 'nhe', 'nge', 'soft'):
        if c.get(k):
            L.append(k + '>0')
    for k in ('bgp', 'rev', 'onesided', 'scaling', 'lbs', 'vsim', 'tdep', 'cint'):
        if c.get(k):
            L.append(k)
    return L


def random_iterate(P, seed, spread=0.5, z=False):
    """primal-dual point near nothing in particular; duals non-negative, zero on absent bounds"""
    r = Rnd(seed, 'iterate')
    it = {'x': [], 'u': [], 'pi': [], 'lam': [], 'sl': [], 'su': []}
    for k in range(P.N + 1):
        it['x'].append(P.xn[k] + spread * r.vec(P.nx))
        it['u'].append(P.un[k] + spread * r.vec(P.nu) if k < P.N else np.zeros(0))
        if k < P.N:
            it['pi'].append(r.vec(P.nx))
        nr, ns = P.nrows(k), P.ns(k)
        ml, mu = P.masks(k)
        lam = np.array([max(0.0, r.unif(-0.5, 1.0)) for _ in range(2 * nr + 2 * ns)])
        lam[:nr] *= ml
        lam[nr:2 * nr] *= mu
        it['lam'].append(lam)
        it['sl'].append(np.array([r.unif(0, 0.5) for _ in range(ns)]))
        it['su'].append(np.array([r.unif(0, 0.5) for _ in range(ns)]))
    return it


def set_iterate(s, P, it):
    for k in range(P.N + 1):
        s.set(k, 'x', it['x'][k])
        if k < P.N:
            if P.nu:
                s.set(k, 'u', it['u'][k])
            s.set(k, 'pi', it['pi'][k])
        if P.nrows(k) + P.ns(k):
            s.set(k, 'lam', it['lam'][k])
        if P.ns(k):
            s.set(k, 'sl', it['sl'][k])
            s.set(k, 'su', it['su'][k])


def get_iterate(s, P):
    it = {'x': [], 'u': [], 'pi': [], 'lam': [], 'sl': [], 'su': []}
    for k in range(P.N + 1):
        it['x'].append(s.get(k, 'x'))
        it['u'].append(s.get(k, 'u') if k < P.N else np.zeros(0))
        if k < P.N:
            it['pi'].append(s.get(k, 'pi'))
        it['lam'].append(s.get(k, 'lam'))
        it['sl'].append(s.get(k, 'sl'))
        it['su'].append(s.get(k, 'su'))
    return it


def cleanup(ocp):
    import shutil
    d = ocp.code_gen_options.code_export_directory
    if os.path.isabs(d) and '/c_' in d:
        shutil.rmtree(d, ignore_errors=True)
