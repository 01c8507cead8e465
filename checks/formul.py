"""Random OCP formulations and the documented meaning of their cost terms, evaluated without any solver."""
import casadi as ca
import numpy as np
import exprs
from common import Rnd, expect_close

STAGES = ('_0', '', '_e')


def empty(v):
    if v is None:
        return True
    if isinstance(v, (list, tuple)):
        return len(v) == 0
    return 0 in v.shape if len(v.shape) > 1 else v.shape[0] == 0


def new(c):
    """-> (AcadosOcp with a trivial dynamic model, symbol dict)"""
    from acados_template import AcadosOcp
    ocp = AcadosOcp(verbose=False) if 'verbose' in AcadosOcp.__init__.__code__.co_varnames else AcadosOcp()
    S = ca.SX if c['sx'] else ca.MX
    nx, nu, nz, np_, npg = c['nx'], c['nu'], c['nz'], c['np'], c['npg']
    r = Rnd(c['seed'], 'model')
    d = exprs.dynamics(r, S, nx, nu, nz, np_, npg, implicit=nz > 0)
    m = ocp.model
    m.name = 'formul'
    m.x, m.u, m.xdot = d['x'], d['u'], d['xdot']
    if nz:
        m.z = d['z']
    else:
        m.f_expl_expr = d['f_expl']
    m.f_impl_expr = d['G']
    if np_:
        m.p = d['p']
        ocp.parameter_values = r.vec(np_)
    if npg:
        m.p_global = d['pg']
        ocp.p_global_values = r.vec(npg)
    ocp.solver_options.N_horizon = c.get('N', 3)
    ocp.solver_options.tf = 1.0
    ocp.solver_options.integrator_type = 'IRK' if nz else 'ERK'
    d['S'] = S
    return ocp, d


def spd(r, n, diag):
    return np.diag(r.vec(n, .3, 2.)) if diag else r.spd(n, .3)


def set_cost(ocp, d, c, sf, kind, tag='cost', ny=None, pg=True):
    """one random cost term of the given type at the stage type with suffix sf"""
    S, m, cost = d['S'], ocp.model, ocp.cost
    r = Rnd(c['seed'], tag, sf)
    nx, nu, nz = c['nx'], c['nu'], c['nz']
    if kind is None:
        return
    setattr(cost, 'cost_type' + sf, kind)
    term = sf == '_e'
    ny = r.int(1, 4) if ny is None else ny
    v = exprs.cat(S, *([d['x']] if term else [d['x'], d['u'], d['z']]))
    vp = exprs.cat(S, v, d['p'], *([d['pg']] if pg else []))
    W = spd(r, ny, r.bool())
    yref = r.vec(ny)
    if kind == 'EXTERNAL':
        setattr(m, 'cost_expr_ext_cost' + sf, exprs.scalar(r, vp) + .5 * ca.sumsqr(v))
        return
    setattr(cost, 'yref' + sf, yref)
    if kind != 'CONVEX_OVER_NONLINEAR':
        setattr(cost, 'W' + sf, W)
    if kind == 'LINEAR_LS':
        setattr(cost, 'Vx' + sf, r.mat(ny, nx))
        if not term:
            setattr(cost, 'Vu' + sf, r.mat(ny, nu))
            if nz:
                setattr(cost, 'Vz' + sf, r.mat(ny, nz))
        return
    setattr(m, 'cost_y_expr' + sf, exprs.vector(r, ny, vp))
    if kind == 'CONVEX_OVER_NONLINEAR':
        rs = S.sym('r_in_psi' + sf, ny)
        psi = .5 * ca.mtimes([rs.T, ca.DM(W), rs])
        for i in range(ny):
            if r.bool():
                psi = psi + r.unif(.1, .8) * ca.sqrt(1 + rs[i] ** 2)
        if c['np'] and r.bool():
            psi = psi + (.2 + .1 * ca.sin(d['p'][0])) * rs[0] ** 2
        setattr(m, 'cost_r_in_psi_expr' + sf, rs)
        setattr(m, 'cost_psi_expr' + sf, psi)
        if r.bool(.3):
            H = S(ca.DM(spd(r, ny, False)))
            if r.bool():
                H = H + ca.diag(.1 * rs ** 2)
            setattr(m, 'cost_conl_custom_outer_hess' + sf, H)


class Meaning:
    """Value, gradient, exact Hessian w.r.t. (u, x, z) and Gauss-Newton Hessian w.r.t. (u, x) of a cost term as documented."""

    def __init__(self, ocp, d, sf, pad=None):
        m, cost = ocp.model, ocp.cost
        if sf == '_0' and cost.cost_type_0 is None:
            sf = ''
        self.kind = kind = getattr(cost, 'cost_type' + sf)
        S = d['S']
        x, u, z = d['x'], d['u'], d['z']
        p = m.p if not empty(m.p) else S.zeros(0, 1)
        pg = m.p_global if not empty(m.p_global) else S.zeros(0, 1)
        w = ca.vertcat(u, x)
        wz = ca.vertcat(u, x, z)
        g = lambda o, n: getattr(o, n + sf, None)  # noqa: E731
        gn = None
        if kind in ('LINEAR_LS', 'NONLINEAR_LS'):
            W = np.asarray(g(cost, 'W'), float)
            ny = W.shape[0]
            yref = np.asarray(g(cost, 'yref'), float)
            assert yref.shape == (ny,) and W.shape == (ny, ny), 'shapes of W%s and yref%s: %s, %s' % (sf, sf, W.shape, yref.shape)
            if ny == 0:
                val, gn = S.zeros(1, 1), S.zeros(w.shape[0], w.shape[0])
            else:
                if kind == 'LINEAR_LS':
                    y = S.zeros(ny, 1)
                    for V, s in (('Vx', x), ('Vu', u), ('Vz', z)):
                        if not empty(g(cost, V)) and not (sf == '_e' and V != 'Vx'):
                            y = y + ca.mtimes(ca.DM(np.asarray(g(cost, V), float)), s)
                else:
                    y = g(m, 'cost_y_expr')
                    assert y.shape == (ny, 1), 'cost_y_expr%s has shape %s, W%s %s' % (sf, y.shape, sf, W.shape)
                e = y - ca.DM(yref)
                val = .5 * ca.mtimes([e.T, ca.DM(W), e])
                J = ca.jacobian(y, w)
                gn = ca.mtimes([J.T, ca.DM(W), J])
        elif kind == 'CONVEX_OVER_NONLINEAR':
            y, r, psi = g(m, 'cost_y_expr'), g(m, 'cost_r_in_psi_expr'), g(m, 'cost_psi_expr')
            yref = np.asarray(g(cost, 'yref'), float)
            assert y.shape == r.shape == (yref.shape[0], 1), 'shapes of y, r, yref: %s %s %s' % (y.shape, r.shape, yref.shape)
            e = y - ca.DM(yref)
            val = ca.substitute(psi, r, e)
            H = g(m, 'cost_conl_custom_outer_hess')
            H = ca.hessian(psi, r)[0] if empty(H) else H
            assert H.shape == (y.shape[0],) * 2, 'outer Hessian has shape %s, y %s' % (H.shape, y.shape)
            J = ca.jacobian(y, w)
            gn = ca.mtimes([J.T, ca.substitute(H, r, e), J])
        elif kind == 'EXTERNAL':
            val = S(g(m, 'cost_expr_ext_cost'))
            H = g(m, 'cost_expr_ext_cost_custom_hess')
            if not empty(H):
                gn = S(H)
                if sf == '_e' and gn.shape[0] == x.shape[0]:
                    n = u.shape[0]
                    gn = ca.diagcat(S.zeros(n, n), gn)
            else:
                gn = ca.hessian(val, w)[0]
        else:
            raise AssertionError('cost type %s at stage type %r' % (kind, sf))
        assert val.shape == (1, 1), 'cost term has shape %s' % (val.shape,)
        H, gr = ca.hessian(val, wz)
        self.f = ca.Function('term', [x, u, z, p, pg], [val, ca.densify(gr), ca.densify(H), ca.densify(gn)])
        self.np = p.shape[0]

    def __call__(self, w):
        out = [np.array(v) for v in self.f(w['x'], w['u'], w['z'], w['p'][:self.np], w['pg'])]
        return float(out[0][0, 0]), out[1][:, 0], out[2], out[3]


def points(c, ocp, n, tag='pt'):
    r = Rnd(c['seed'], tag)
    for i in range(n):
        np_ = ocp.parameter_values.shape[0]
        p = np.array(ocp.parameter_values, float)
        pg = np.array(ocp.p_global_values, float)
        if i:
            p = p + r.vec(np_, -.5, .5)
            pg = pg + r.vec(pg.shape[0], -.5, .5)
        s = 2.0 if i % 2 else .7
        yield {'x': r.vec(c['nx'], -s, s), 'u': r.vec(c['nu'], -s, s), 'z': r.vec(c['nz'], -s, s), 'p': p, 'pg': pg}


def compare(what, got, want, hess=True, gn=True, rtol=1e-9):
    for name, g, w, on in zip(('value', 'gradient', 'Hessian', 'Gauss-Newton Hessian'), got, want, (True, True, hess, gn)):
        if on:
            expect_close('%s: %s' % (what, name), g, w, rtol, 1e-9)


def dims(draw, st, nz=True):
    return {'sx': draw(st.booleans()), 'nx': draw(st.integers(1, 3)), 'nu': draw(st.integers(1, 2)),
            'nz': draw(st.integers(0, 2)) if nz else 0, 'np': draw(st.integers(0, 2)), 'npg': draw(st.integers(0, 2)),
            'seed': draw(st.integers(0, 2 ** 30))}
