"""The CasADi back end states the same nonlinear program as the OCP description: values, bounds, multipliers, Hessian, setters."""
import casadi as ca
import numpy as np
from hypothesis import strategies as st
import c28
import formul
from common import Rnd, expect, expect_close

KINDS = ['LINEAR_LS', 'LINEAR_LS', 'NONLINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL']
INF = 1e9
FIELDS = ('x', 'u', 'sl', 'su', 'pi', 'lam')


def init(job):
    import acados_template.utils as U
    U.is_tera_version_sufficient = lambda *a: True


@st.composite
def full(draw):
    c = formul.dims(draw, st, nz=False)
    c['op'] = op = draw(st.sampled_from(['nlp', 'nlp', 'nlp', 'solve', 'solve', 'solve', 'single']))
    c['N'] = draw(st.integers(1, 4))
    c['hess'] = op == 'solve' and draw(st.booleans())
    if c['hess']:
        k = draw(st.sampled_from(['LINEAR_LS', 'NONLINEAR_LS']))
        c['kinds'] = [k, k, k]
        c['ha'] = draw(st.sampled_from(['GAUSS_NEWTON', 'EXACT']))
        c['flags'] = draw(st.integers(0, 7))
    else:
        c['kinds'] = [draw(st.sampled_from(KINDS + [None])), draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS))]
    c['con'] = [draw(st.integers(0, 63)) for _ in range(3)]
    c['phi'] = draw(st.integers(0, 7))
    c['soft'] = draw(st.booleans())
    c['sb'] = draw(st.booleans())
    c['x0'] = draw(st.booleans())
    if op == 'single':
        c['x0'] = True
        c['con'] = [v & ~2 for v in c['con']]
    c['scal'] = draw(st.booleans())
    c['nug'] = draw(st.integers(0, 3))
    c['integ'] = draw(st.sampled_from(['ERK', 'ERK', 'DISCRETE']))
    c['sim'] = [draw(st.integers(1, 3)), draw(st.sampled_from([1, 2, 3, 4]))]
    c['vsim'] = draw(st.integers(0, 7)) == 0
    return c


def strategy(tier):
    return full()


BUTCHER = {1: ([[]], [1.]), 2: ([[], [.5]], [0., 1.]), 3: ([[], [.5], [-1., 2.]], [1 / 6, 2 / 3, 1 / 6]),
           4: ([[], [.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6])}


def rk(f, x, h, steps, stages):
    A, b = BUTCHER[stages]
    for _ in range(steps):
        K = []
        for row in A:
            K.append(f(x + h / steps * sum((a * k for a, k in zip(row, K)), 0)))
        x = x + h / steps * sum(bi * k for bi, k in zip(b, K))
    return x


class Ref:
    """the optimisation problem as described, with dense symbolic expressions built here"""

    def __init__(self, c):
        ocp, d, rows = c28.formulate(c, c['soft'], groups=('h',))
        self.ocp, self.d, self.c = ocp, d, c
        r = Rnd(c['seed'], 'ref')
        so, con = ocp.solver_options, ocp.constraints
        N = self.N = c['N']
        nx, nu = c['nx'], c['nu']
        x, u, p, pg = d['x'], d['u'], d['p'], d['pg']
        self.soft = {sf: [i for i, w in enumerate(rows[sf]) if w[3] is not None] for sf in formul.STAGES}
        self.lb = {}
        for sf in formul.STAGES:
            n = len(self.soft[sf])
            lb = np.zeros((2, n))
            if c['sb'] and n:
                lb = r.mat(2, n, -.5, .5)
                setattr(con, 'lsh' + sf, lb[0].copy())
                setattr(con, 'ush' + sf, lb[1].copy())
            self.lb[sf] = lb
            if c['phi'] & (1 << formul.STAGES.index(sf)):
                m, ny = r.int(1, 2), r.int(1, 2)
                v = ca.vertcat(x, p, pg) if sf == '_e' else ca.vertcat(x, u, p, pg)
                rs = d['S'].sym('r_phi' + sf, ny)
                re = ca.vertcat(*[ca.sin(ca.mtimes(ca.DM(r.mat(1, v.shape[0])), v)) + .5 * v[0] for _ in range(ny)])
                ph = ca.vertcat(*[ca.mtimes([rs.T, ca.DM(r.spd(ny, .3)), rs]) + ca.mtimes(ca.DM(r.mat(1, ny)), rs) for _ in range(m)])
                lo = r.vec(m, -1, .4)
                up = lo + np.abs(r.vec(m, 0, 1.2))
                if r.bool():
                    lo[:] = -1e10
                setattr(ocp.model, 'con_phi_expr' + sf, ph)
                setattr(ocp.model, 'con_r_expr' + sf, re)
                setattr(ocp.model, 'con_r_in_phi' + sf, rs)
                setattr(con, 'constr_type' + sf, 'BGP')
                setattr(con, 'lphi' + sf, lo)
                setattr(con, 'uphi' + sf, up)
                e = ca.substitute(ph, rs, re)
                rows[sf] = [w for w in rows[sf]]
                for i in range(m):
                    J = ca.jacobian(re, ca.vertcat(u, x))
                    H = ca.substitute(ca.hessian(ph[i], rs)[0], rs, re)
                    rows[sf].append((e[i], lo[i], up[i], None, ca.mtimes([J.T, H, J])))
        self.rows = rows
        if c['integ'] == 'DISCRETE':
            ocp.model.disc_dyn_expr = x + .1 * ocp.model.f_expl_expr
            so.integrator_type = 'DISCRETE'
        else:
            so.sim_method_num_steps, so.sim_method_num_stages = c['sim']
            if c['vsim']:
                so.sim_method_num_steps = np.array([r.int(1, 3) for _ in range(N)])
                so.sim_method_num_stages = np.array([r.int(1, 4) for _ in range(N)])
        if c['scal']:
            so.cost_scaling = r.vec(N + 1, .1, 2)
        if c['nug'] & 1:
            so.time_steps = r.vec(N, .1, 1)
            so.tf = float(np.sum(so.time_steps))
        self.dt = np.full(N, so.tf / N) if so.time_steps is None else np.array(so.time_steps)
        self.scal = np.append(self.dt, 1.) if so.cost_scaling is None else np.array(so.cost_scaling)
        self.sim = [(int(np.ravel(so.sim_method_num_steps)[min(k, np.size(so.sim_method_num_steps) - 1)]),
                     int(np.ravel(so.sim_method_num_stages)[min(k, np.size(so.sim_method_num_stages) - 1)])) for k in range(N)]
        so.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
        if c['hess']:
            so.hessian_approx = c['ha']
            so.exact_hess_cost, so.exact_hess_dyn, so.exact_hess_constr = [int(bool(c['flags'] & (1 << i))) for i in range(3)]
            if c['ha'] == 'EXACT':
                so.exact_hess_cost = 1
        self.p = [np.array(ocp.parameter_values, float) for _ in range(N + 1)]
        self.pg = np.array(ocp.p_global_values, float)
        self.ny = {}
        self.yref = []
        for k in range(N + 1):
            sf = self.csf(k)
            y = getattr(ocp.cost, 'yref' + sf)
            self.yref.append(np.zeros(0) if y is None or getattr(ocp.cost, 'cost_type' + sf) == 'EXTERNAL' else np.array(y, float))
        self.lo = [np.array([w[1] for w in rows[self.sf(k)]], float) for k in range(N + 1)]
        self.up = [np.array([w[2] for w in rows[self.sf(k)]], float) for k in range(N + 1)]
        self.bnd = None

    def sf(self, k):
        return '_e' if k == self.N else ('_0' if k == 0 else '')

    def csf(self, k):
        sf = self.sf(k)
        return '' if sf == '_0' and self.c['kinds'][0] is None else sf

    def bx(self, k):
        """per group: number of rows in the order bu, bx, g, h, phi"""
        o, sf = self.ocp.constraints, self.sf(k)
        n = lambda v: int(np.size(v))  # noqa: E731
        g = n(o.lg_e) if k == self.N else n(o.lg)
        return {'u': 0 if k == self.N else n(o.lbu), 'x': n(getattr(o, 'lbx' + sf)), 'g': g,
                'h': n(getattr(o, 'lh' + sf)), 'phi': n(getattr(o, 'lphi' + sf))}

    def build(self):
        """functions of the values of one stage"""
        d = self.d
        x, u, z, p, pg = d['x'], d['u'], d['z'], d['p'], d['pg']
        S = d['S']
        self.fun = []
        v = ca.vertcat(u, x)
        f = ca.Function('f', [x, u, p, pg], [self.ocp.model.f_expl_expr])
        o = self.ocp
        for k in range(self.N + 1):
            csf = self.csf(k)
            y = getattr(o.cost, 'yref' + csf)
            if self.yref[k].size:
                setattr(o.cost, 'yref' + csf, self.yref[k])
            M = formul.Meaning(o, d, csf)
            setattr(o.cost, 'yref' + csf, y)
            rows = self.rows[self.sf(k)]
            e = ca.vertcat(*[w[0] for w in rows]) if rows else S.zeros(0, 1)
            R = ca.Function('R', [x, u, p, pg], [e, ca.densify(ca.jacobian(e, v))])
            Hr = [ca.Function('H', [x, u, p, pg], [ca.densify(w[4] if len(w) > 4 else ca.hessian(w[0], v)[0])]) for w in rows]
            D = None
            if k < self.N:
                xn = o.model.disc_dyn_expr if self.c['integ'] == 'DISCRETE' else rk(lambda q: f(q, u, p, pg), x, self.dt[k], *self.sim[k])
                lam = S.sym('lam', x.shape[0])
                D = ca.Function('D', [x, u, p, pg, lam], [xn, ca.densify(ca.jacobian(xn, v)), ca.densify(ca.hessian(ca.dot(lam, xn), v)[0])])
            self.fun.append((M, R, Hr, D))

    def evaluate(self, it):
        """cost, Lagrangian gradient per stage, margins, Hessian blocks in (u, x) per stage"""
        if self.bnd != repr((self.yref,)):
            self.build()
            self.bnd = repr((self.yref,))
        N, c = self.N, self.c
        nx, nu = c['nx'], c['nu']
        cost, low, upp = 0., [], []
        L = [np.zeros(nu + nx) for _ in range(N + 1)]
        S = [None] * (N + 1)
        H = []
        for k in range(N + 1):
            M, R, Hr, D = self.fun[k]
            sf = self.sf(k)
            x, u = it['x'][k], (it['u'][k] if k < N else np.zeros(nu))
            val, gr, hs, gn = M({'x': x, 'u': u, 'z': np.zeros(0), 'p': self.p[k], 'pg': self.pg})
            soft = self.soft[sf]
            pen = np.array([self.rows[sf][i][3] for i in soft]).reshape(-1, 4)
            sl, su = it['sl'][k], it['su'][k]
            cost += self.scal[k] * (val + pen[:, 0] @ sl + pen[:, 1] @ su + .5 * pen[:, 2] @ sl ** 2 + .5 * pen[:, 3] @ su ** 2)
            L[k] += self.scal[k] * gr
            v, J = [np.array(o) for o in R(x, u, self.p[k], self.pg)]
            v = v.ravel()
            n, ns = v.size, len(soft)
            lam = it['lam'][k]
            ll, lu, lsl, lsu = lam[:n], lam[n:2 * n], lam[2 * n:2 * n + ns], lam[2 * n + ns:]
            L[k] += J.T @ (lu - ll)
            S[k] = np.concatenate([self.scal[k] * (pen[:, 0] + pen[:, 2] * sl) - lsl - ll[soft],
                                   self.scal[k] * (pen[:, 1] + pen[:, 3] * su) - lsu - lu[soft]])
            ml, mu = v - self.lo[k], self.up[k] - v
            ml[soft] += sl
            mu[soft] += su
            low.append(np.concatenate([ml, sl - self.lb[sf][0]]))
            upp.append(np.concatenate([mu, su - self.lb[sf][1]]))
            exact = c['hess'] and c['ha'] == 'EXACT'
            Hk = self.scal[k] * (hs if exact or c['kinds'][0] == 'LINEAR_LS' else gn)
            nh = self.bx(k)
            first = n - nh['h'] - nh['phi']
            for i in range(n):
                isphi = i >= n - nh['phi']
                if isphi or (i >= first and exact and c['flags'] & 4):
                    Hk = Hk + (lu - ll)[i] * np.array(Hr[i](x, u, self.p[k], self.pg))
            if D is not None:
                xn, JD, HD = [np.array(o) for o in D(x, u, self.p[k], self.pg, it['pi'][k])]
                gap = xn.ravel() - it['x'][k + 1]
                low.append(-np.abs(gap))
                L[k] += JD.T @ it['pi'][k]
                L[k + 1][nu:] -= it['pi'][k]
                if exact and c['flags'] & 2:
                    Hk = Hk + HD
            H.append((Hk, self.scal[k] * pen[:, 2], self.scal[k] * pen[:, 3]))
        return dict(cost=cost, L=L, S=S, low=low, upp=upp, H=H)

    def random(self, r, s=1.):
        N, c = self.N, self.c
        it = {f: [] for f in FIELDS}
        for k in range(N + 1):
            it['x'].append(r.vec(c['nx'], -s, s))
            n, ns = len(self.rows[self.sf(k)]), len(self.soft[self.sf(k)])
            soft = self.soft[self.sf(k)]
            if k < N:
                it['u'].append(r.vec(c['nu'], -s, s))
                it['pi'].append(r.vec(c['nx'], -s, s))
            it['sl'].append(r.vec(ns, 0, s))
            it['su'].append(r.vec(ns, 0, s))
            ll, lu = r.vec(n, .1, 1), r.vec(n, .1, 1)
            for i in range(n):
                if i not in soft:
                    (ll if r.bool() else lu)[i] = 0.     # one multiplier per two-sided constraint in the CasADi problem
            it['lam'].append(np.concatenate([ll, lu, r.vec(2 * ns, .1, 1)]))
        return it


def margins(vals, lo, up):
    vals, lo, up = [np.array(v, float).ravel() for v in (vals, lo, up)]
    expect(vals.size == lo.size == up.size, 'sizes of constraint and bounds: %d %d %d' % (vals.size, lo.size, up.size))
    out = []
    for v, a, b in zip(vals, lo, up):
        if a == b:
            out.append(-abs(v - a))     # equality: orientation is free
            continue
        if a > -INF:
            out.append(v - a)
        if b < INF:
            out.append(b - v)
    return np.sort(out)


def ref_margins(P, it, ev):
    out = []
    for k in range(P.N + 1):
        n = len(P.lo[k])
        sf = P.sf(k)
        for i in range(n):
            a, b = P.lo[k][i], P.up[k][i]
            if a == b and i not in P.soft[sf]:
                out.append(-abs(low(P, ev, k, i)))
                continue
            if a > -INF:
                out.append(low(P, ev, k, i))
            if b < INF:
                out.append(upp(P, ev, k, i))
        for i in range(len(P.soft[sf])):
            out.append(low(P, ev, k, n + i))
            out.append(upp(P, ev, k, n + i))
    for k in range(P.N):
        out.extend(ev['low'][2 * k + 1])
    return np.sort(out)


def low(P, ev, k, i):
    return ev['low'][2 * k][i]


def upp(P, ev, k, i):
    return ev['upp'][k][i]


def iterate(it, N, nz=0):
    from acados_template import AcadosOcpIterate
    return AcadosOcpIterate(**{f: [v.copy() for v in it[f]] for f in FIELDS}, z=[np.zeros(0)] * N)


def run(c):
    from acados_template import AcadosCasadiOcpSolver
    P = Ref(c)
    ocp = P.ocp
    r = Rnd(c['seed'], 'run')
    if c['op'] == 'single':
        return single(P, r)
    nx, nu, N = c['nx'], c['nu'], c['N']
    ns = sum(len(P.soft[P.sf(k)]) for k in range(N + 1))
    opts = {'print_time': False, 'record_time': True, 'max_iter': 0, 'print_header': False, 'print_iteration': False, 'print_status': False, 'error_on_fail': False,
            'qpsol': 'qrqp', 'qpsol_options': {'print_iter': False, 'print_header': False, 'error_on_fail': False}}
    name = 'sqpmethod'
    if c['op'] == 'solve':
        name, opts = 'ipopt', {'print_time': False, 'record_time': True, 'ipopt': {'print_level': 0, 'sb': 'yes', 'max_iter': 60, 'tol': 1e-9, 'bound_relax_factor': 0.}}
    nonuni = c['integ'] == 'ERK' and len(set(P.sim)) > 1
    ocp.make_consistent(verbose=False)
    try:
        s = AcadosCasadiOcpSolver(ocp, solver=name, verbose=False, casadi_solver_opts=opts, use_acados_hessian=c['hess'])
    except NotImplementedError as e:
        expect(nonuni, 'not implemented: %s' % e)
        return dict(nontrivial=False, labels=['refused'])
    labels = ['op:' + c['op'], c['integ'], 'sx' if c['sx'] else 'mx', 'soft:%s' % bool(ns), 'phi:%s' % bool(c['phi']), 'hess:%s' % (c.get('ha') if c['hess'] else '-')] + \
        ['kind:%s' % k for k in set(c['kinds'])]
    if ns and c['sb']:
        labels.append('slack bounds')
    # what the description states before any setter was called: initial guess of the states
    x_init = np.array(ocp.constraints.x0, float).ravel() if c['x0'] else np.zeros(nx)
    nlp = s.casadi_nlp
    F = ca.Function('F', [nlp['x'], nlp['p']], [nlp['f'], nlp['g'], ca.densify(ca.gradient(nlp['f'], nlp['x']))])
    lg, lx = ca.MX.sym('lg', nlp['g'].shape[0]), None
    G = ca.Function('G', [nlp['x'], nlp['p']], [ca.densify(ca.jacobian(nlp['g'], nlp['x']))])
    for turn in range(3):
        if turn == 1:
            for k in range(N + 1):
                if r.bool() and c['np']:
                    P.p[k] = r.vec(c['np'])
                    how = r.int(0, 2)
                    if how == 0:
                        s.set(k, 'p', P.p[k].copy())
                    else:
                        idx = np.array(r.perm(c['np'])[:r.int(1, c['np'])], dtype=int)
                        full_ = s.p[s.index_map['p_in_p_nlp'][k]].copy()
                        full_[idx] = P.p[k][idx]
                        s.set_params_sparse(k, idx, P.p[k][idx].copy())
                        P.p[k] = full_
                if r.bool() and P.yref[k].size:
                    P.yref[k] = r.vec(P.yref[k].size)
                    (s.set if r.bool() else s.cost_set)(k, 'yref', P.yref[k].copy())
                    expect_close('cost_get yref at stage %d' % k, s.cost_get(k, 'yref'), P.yref[k], 0, 0)
            if c['npg'] and r.bool():
                P.pg = r.vec(c['npg'])
                s.set_p_global_and_precompute_dependencies(P.pg.copy())
            labels.append('parameters set')
        if turn == 2:
            for k in range(N + 1):
                off = 0
                for g, n in P.bx(k).items():
                    sl = slice(off, off + n)
                    off += n
                    if n and r.bool():
                        lo = np.array(P.lo[k])
                        up = np.array(P.up[k])
                        for i in range(sl.start, sl.stop):
                            if lo[i] > -INF:
                                lo[i] = r.unif(-1, 0)
                            if up[i] < INF:
                                up[i] = r.unif(0, 1)
                        if g == 'x' and k == 0 and c['x0']:
                            lo[sl] = up[sl] = r.vec(n)
                        setter = s.set if g in 'xu' and r.bool() else s.constraints_set
                        nm = ('l' if g in ('g', 'h', 'phi') else 'lb') + g, ('u' if g in ('g', 'h', 'phi') else 'ub') + g
                        setter(k, nm[0], lo[sl].copy())
                        setter(k, nm[1], up[sl].copy())
                        P.lo[k], P.up[k] = lo, up
                        expect_close('constraints_get %s at stage %d' % (nm[0], k), np.array(s.constraints_get(k, nm[0])).ravel(), lo[sl], 0, 0)
                        expect_close('constraints_get %s at stage %d' % (nm[1], k), np.array(s.constraints_get(k, nm[1])).ravel(), up[sl], 0, 0)
            labels.append('bounds set')
        it = P.random(r, 1.5 if turn else .7)
        obj = iterate(it, N)
        if r.bool():
            s.set_iterate(obj)
        elif r.bool():
            s.set_iterate(obj.flatten())
        else:
            for f in FIELDS:
                for k, v in enumerate(it[f]):
                    s.set(k, f, v.copy())
        ev = P.evaluate(it)
        f, g, gf = [np.array(o).ravel() for o in F(s.w0, s.p)]
        expect_close('objective of the NLP', f, [ev['cost']], 1e-9, 1e-9)
        m = np.concatenate([margins(s.w0, s.bounds['lbx'], s.bounds['ubx']), margins(g, s.bounds['lbg'], s.bounds['ubg'])])
        expect_close('constraint margins of the NLP (sorted)', np.sort(m), ref_margins(P, it, ev), 1e-8, 1e-9)
        jac = np.array(G(s.w0, s.p))
        grad = gf.ravel() + jac.T @ s.lam_g0.ravel() + s.lam_x0.ravel()
        im = s.index_map
        for k in range(N + 1):
            if k < N:
                expect_close('Lagrangian gradient w.r.t. u at stage %d' % k, grad[im['u_in_w'][k]], ev['L'][k][:nu], 1e-8, 1e-8)
            expect_close('Lagrangian gradient w.r.t. x at stage %d' % k, grad[im['x_in_w'][k]], ev['L'][k][nu:], 1e-8, 1e-8)
            n2 = ev['S'][k].size // 2
            if n2:
                expect_close('Lagrangian gradient w.r.t. sl at stage %d' % k, grad[im['sl_h_in_w'][k]], ev['S'][k][:n2], 1e-8, 1e-8)
                expect_close('Lagrangian gradient w.r.t. su at stage %d' % k, grad[im['su_h_in_w'][k]], ev['S'][k][n2:], 1e-8, 1e-8)
        if c['hess']:
            T = np.array(s.nlp_hess_l_custom(s.w0, s.p, 1., s.lam_g0))
            expect(np.all(np.tril(T, -1) == 0), 'Hessian is not upper triangular')
            H = T + T.T - np.diag(np.diag(T))
            W = np.zeros_like(H)
            for k in range(N + 1):
                idx = (list(im['u_in_w'][k]) if k < N else []) + list(im['x_in_w'][k])
                Hk = ev['H'][k][0]
                if k == N:
                    Hk = Hk[nu:, nu:]
                W[np.ix_(idx, idx)] += Hk
                for j, nm in ((1, 'sl_h_in_w'), (2, 'su_h_in_w')):
                    if len(ev['H'][k][j]):
                        W[im[nm][k], im[nm][k]] += ev['H'][k][j]
            expect_close('Hessian of the Lagrangian (%s, flags %d)' % (c['ha'], c['flags']), H, W, 1e-7, 1e-8)
        if c['op'] == 'nlp':
            s.solve()
            check_get(s, P, it, 1e-12)
            expect_close('get_cost', s.get_cost(), ev['cost'], 1e-9, 1e-9)
        else:
            solved = kkt(s, P, r, labels)
    return dict(nontrivial=True, labels=labels)


def single(P, r):
    """single shooting: objective and constraints at the simulated states"""
    from acados_template import AcadosCasadiOcpSolver
    c, N = P.c, P.N
    opts = {'print_time': False, 'record_time': True, 'max_iter': 0, 'print_header': False, 'print_iteration': False, 'print_status': False,
            'error_on_fail': False, 'qpsol': 'qrqp', 'qpsol_options': {'print_iter': False, 'print_header': False, 'error_on_fail': False}}
    s = AcadosCasadiOcpSolver(P.ocp, solver='sqpmethod', verbose=False, casadi_solver_opts=opts, use_single_shooting=True)
    for k in range(N + 1):
        P.p[k] = r.vec(c['np'])
        s.set(k, 'p', P.p[k].copy())
    it = P.random(r)
    for f in ('u', 'sl', 'su'):
        for k, v in enumerate(it[f]):
            s.set(k, f, v.copy())
    it['x'][0] = np.array(P.ocp.constraints.x0, float).ravel()
    P.build()
    for k in range(N):
        it['x'][k + 1] = np.array(P.fun[k][3](it['x'][k], it['u'][k], P.p[k], P.pg, np.zeros(c['nx']))[0]).ravel()
    ev = P.evaluate(it)
    s.solve()
    expect_close('single shooting: get_cost', s.get_cost(), ev['cost'], 1e-9, 1e-9)
    for f in ('x', 'u', 'sl', 'su'):
        for k, v in enumerate(it[f]):
            expect_close('single shooting: get(%d, %s)' % (k, f), s.get(k, f), v, 1e-9, 1e-9)
    g = np.array(s.nlp_sol['g'])
    m = np.concatenate([margins(s.w0, s.bounds['lbx'], s.bounds['ubx']), margins(g, s.bounds['lbg'], s.bounds['ubg'])])
    m, want = [np.sort(v[np.abs(v) > 1e-8]) for v in (m, ref_margins(P, it, ev))]     # the satisfied dynamics and initial state are no constraints here
    expect_close('single shooting: constraint margins (sorted, nonzero)', m, want, 1e-7, 1e-8)
    return dict(nontrivial=True, labels=['op:single', c['integ'], 'nu:%d' % c['nu'], 'np:%d' % c['np']])


def check_get(s, P, it, tol):
    N = P.N
    for f in FIELDS:
        flat = np.concatenate([v for v in it[f]]) if it[f] else np.zeros(0)
        for k, v in enumerate(it[f]):
            expect_close('get(%d, %s)' % (k, f), s.get(k, f), v, tol, tol)
        expect_close('get_flat(%s)' % f, s.get_flat(f), flat, tol, tol)
    got = s.get_iterate()
    gotf = s.get_flat_iterate()
    for f in FIELDS:
        tr = getattr(got, f)
        expect(len(tr) == len(it[f]), 'get_iterate: %d entries of %s' % (len(tr), f))
        for k, v in enumerate(it[f]):
            expect_close('get_iterate %s at stage %d' % (f, k), tr[k], v, tol, tol)
        expect_close('get_flat_iterate %s' % f, getattr(gotf, f), np.concatenate(it[f]) if it[f] else np.zeros(0), tol, tol)
    for k in range(N + 1):
        expect_close('get(%d, p)' % k, s.get(k, 'p'), P.p[k], 0, 0)
    if P.pg.size:
        expect_close('get_flat(p_global)', s.get_flat('p_global'), P.pg, 0, 0)


def kkt(s, P, r, labels):
    status = s.solve()
    if status != 0:
        labels.append('status:%s' % status)
        return False
    labels.append('solved')
    N = P.N
    it = {f: [np.array(s.get(k, f)) for k in range(N + (f not in ('u', 'pi')))] for f in FIELDS}
    check_get(s, P, it, 1e-12)
    ev = P.evaluate(it)
    expect_close('get_cost', s.get_cost(), ev['cost'], 1e-8, 1e-8)
    nu = P.c['nu']
    for k in range(N + 1):
        scale = 1 + max([np.max(np.abs(v)) for f in ('pi', 'lam') for v in it[f] if v.size], default=0.)
        L = ev['L'][k] if k < N else ev['L'][k][nu:]
        expect_close('stationarity at stage %d' % k, L, 0 * L, 0, 1e-6 * scale)
        expect_close('stationarity of slacks at stage %d' % k, ev['S'][k], 0 * ev['S'][k], 0, 1e-6 * scale)
        n, sf = len(P.lo[k]), P.sf(k)
        ns = len(P.soft[sf])
        lam = it['lam'][k]
        expect(lam.size == 2 * (n + ns) and np.all(lam > -1e-6 * scale), 'multipliers at stage %d: %s' % (k, lam))
        lo = np.concatenate([ev['low'][2 * k][:n + ns]])
        up = ev['upp'][k]
        for i in range(n + ns):
            a = i >= n or P.lo[k][i] > -INF
            b = i >= n or P.up[k][i] < INF
            li = lam[i] if i < n else lam[2 * n + i - n]
            ui = lam[n + i] if i < n else lam[2 * n + ns + i - n]
            for on, marg, mult, side in ((a, lo[i], li, 'lower'), (b, up[i], ui, 'upper')):
                if on:
                    expect(marg > -1e-6 * scale, '%s bound of row %d at stage %d violated by %g after status 0' % (side, i, k, -marg))
                    expect(min(abs(marg), abs(mult)) < 1e-3, '%s bound of row %d at stage %d: margin %g, multiplier %g' % (side, i, k, marg, mult))
                else:
                    expect(abs(mult) < 1e-6 * scale, 'multiplier %g of an absent bound' % mult)
    for k in range(N):
        g = ev['low'][2 * k + 1]
        expect_close('dynamics at stage %d' % k, g, 0 * g, 0, 1e-6)
    return True
