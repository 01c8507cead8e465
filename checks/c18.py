"""Constraints formulated as penalties: the cost gains exactly the documented penalty terms, nothing else changes."""
import casadi as ca
import numpy as np
from hypothesis import strategies as st
import exprs
import formul
from common import Rnd, Skip, expect, expect_close

init = None
INF = 1e10


def init(job):
    import acados_template.utils as U
    U.is_tera_version_sufficient = lambda *a: True


@st.composite
def full(draw):
    c = formul.dims(draw, st)
    c['op'] = draw(st.sampled_from(['pen', 'pen', 'pen', 'feas', 'feas', 'lin', 'util']))
    c['kinds'] = [draw(st.sampled_from(['NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL'])) for _ in range(3)]
    c['none0'] = draw(st.booleans())
    c['pens'] = draw(st.lists(st.fixed_dictionaries({
        'how': st.sampled_from(['L2', 'huber', 'huber']), 'st': st.integers(0, 2), 'b': st.sampled_from(['u', 'l', 'lu', 'lu', 'eq']),
        'xgn': st.booleans(), 'mh': st.sampled_from([0., 0., .1, .6]), 'delta': st.sampled_from([1.0, .3, .05, 2.0]),
        's': st.integers(0, 2 ** 20)}), min_size=1, max_size=4))
    c['keep'] = draw(st.booleans())
    c['x0'] = draw(st.sampled_from(['x0', 'x0', 'bounds', 'none']))
    c['fx0'] = draw(st.sampled_from([None, 'keep', 'param']))
    c['parts'] = [draw(st.integers(0, 3)) for _ in range(12)]
    c['nlin'] = draw(st.integers(1, 3))
    return c


def strategy(tier):
    return full()


def huber_pen(v, delta, w):
    """one-sided Huber penalty of v <= 0: curvature w while 0 <= v <= 2 delta, slope 2 w delta beyond; (value, d, dd)"""
    if v <= 0:
        return 0., 0., 0.
    if v <= 2 * delta:
        return .5 * w * v * v, w * v, w
    return 2 * w * delta * (v - delta), 2 * w * delta, 0.


def run(c):
    ocp, d = formul.new(c)
    if c['op'] == 'util':
        return util(c, d)
    if c['op'] == 'lin':
        return linear(c, ocp, d)
    if c['op'] == 'feas':
        return feasibility(c, ocp, d)
    return penalties(c, ocp, d)


def bounds(r, how):
    lo = r.unif(-1., .3)
    up = lo + (0 if how == 'eq' else r.unif(.1, 1.2))
    return lo, up


def penalties(c, ocp, d):
    S = d['S']
    ocp.solver_options.hessian_approx = 'GAUSS_NEWTON'
    for sf, k in zip(formul.STAGES, c['kinds']):
        formul.set_cost(ocp, d, c, sf, k)
    base = {sf: formul.Meaning(ocp, d, sf) for sf in formul.STAGES}
    ypar = {sf: np.array(getattr(ocp.cost, 'yref' + sf)) for sf, k in zip(formul.STAGES, c['kinds']) if k != 'EXTERNAL'}
    added = {sf: [] for sf in formul.STAGES}
    x, u, z = d['x'], d['u'], d['z']
    m = ocp.model
    p = m.p if not formul.empty(m.p) else S.zeros(0, 1)
    pg = m.p_global if not formul.empty(m.p_global) else S.zeros(0, 1)
    wz = ca.vertcat(u, x, z)
    labels = ['op:pen', 'sx' if c['sx'] else 'mx']
    for q in c['pens']:
        sf = formul.STAGES[q['st']]
        kind = c['kinds'][q['st']]
        r = Rnd(c['seed'], 'pen', q['s'])
        v = exprs.cat(S, x, *([u, z] if sf != '_e' else []))
        e = exprs.scalar(r, exprs.cat(S, v, p, pg), lin=1.5)
        lo, up = bounds(r, q['b'])
        w = r.unif(.2, 5.)
        ct = {'_0': 'initial', '': 'path', '_e': 'terminal'}[sf]
        if q['how'] == 'huber' and (kind != 'CONVEX_OVER_NONLINEAR' or q['b'] == 'l'):
            try:
                ocp.formulate_constraint_as_Huber_penalty(e, w, upper_bound=None if q['b'] == 'l' else up, lower_bound=lo, constraint_type=ct)
            except (ValueError, NotImplementedError):
                labels.append('rejected')
                continue
            if kind != 'CONVEX_OVER_NONLINEAR' or q['b'] == 'l':
                raise Skip('accepted formerly unsupported Huber penalty')
        if q['how'] == 'huber':
            b = 'lu' if q['b'] == 'eq' else q['b']
            if q['b'] == 'eq':
                up = lo + .3
            mh = q['mh'] if q['xgn'] else 0.
            kw = {'lower_bound': lo} if b == 'lu' else {}
            ocp.formulate_constraint_as_Huber_penalty(e, w, upper_bound=up, huber_delta=q['delta'], use_xgn=q['xgn'], min_hess=mh,
                                                      residual_name='r%d' % len(added[sf]), constraint_type=ct, **kw)
        else:
            b, mh = q['b'], 0.
            ocp.formulate_constraint_as_L2_penalty(e, w, up if b != 'l' else None, lo if b != 'u' else None,
                                                   residual_name='r%d' % len(added[sf]), constraint_type=ct)
        F = ca.Function('c', [x, u, z, p, pg], [e, ca.densify(ca.gradient(e, wz)), ca.densify(ca.hessian(e, wz)[0])])
        added[sf].append((dict(q, b=b, mh=mh), F, lo, up, w))
        labels.append('%s:%s:%s' % (q['how'], kind[:3], b))
    n = 0
    for sf in formul.STAGES:
        if sf in ypar:
            expect_close('yref%s of the original cost term' % sf, getattr(ocp.cost, 'yref' + sf)[:ypar[sf].shape[0]], ypar[sf], 0, 0)
        try:
            M = formul.Meaning(ocp, d, sf)
        except AssertionError as ex:
            expect(False, 'inconsistent cost term after the penalties %s: %s' % ([a[0] for a in added[sf]], ex))
        kind = c['kinds'][formul.STAGES.index(sf)]
        for w in formul.points(c, ocp, 5):
            val, gr, H, gn = base[sf](w)
            smooth = True
            names = []
            for q, F, lo, up, wt in added[sf]:
                cv, cg, cH = [np.array(o) for o in F(w['x'], w['u'], w['z'], w['p'], w['pg'])]
                cv, cg = float(cv.item()), cg[:, 0]
                if q['how'] == 'L2':
                    viol = 0.
                    s = 1.
                    if q['b'] != 'l':
                        viol = max(viol, cv - up)
                    if q['b'] != 'u' and lo - cv > viol:
                        viol, s = lo - cv, -1.
                    f, f1, f2 = .5 * wt * viol ** 2, wt * viol * s, wt * (viol > 0)
                    h = f2
                    if q['b'] == 'eq':
                        f2 = h = wt
                    kinks = [abs(cv - up), abs(cv - lo)] if viol == 0 or q['b'] != 'eq' else [1.]
                else:
                    t = 1. if q['b'] == 'u' else 2. / (up - lo)    # two-sided: in units of half the width
                    wv = wt / t ** 2
                    vu = t * (cv - up)
                    f, f1, f2 = huber_pen(vu, q['delta'], wv)
                    kinks = [abs(vu), abs(vu - 2 * q['delta'])]
                    if q['b'] == 'lu':
                        vl = t * (lo - cv)
                        g, g1, g2 = huber_pen(vl, q['delta'], wv)
                        f, f1, f2 = f + g, f1 - g1, f2 + g2
                        kinks += [abs(vl), abs(vl - 2 * q['delta'])]
                        far = vu - q['delta'] if cv >= .5 * (lo + up) else vl - q['delta']
                    else:
                        far = vu - q['delta']
                    h = wv * q['delta'] / max(abs(far), q['delta']) if q['xgn'] else f2
                    h = max(h, q['mh'])
                    f1, f2, h = f1 * t, f2 * t * t, h * t * t
                if min(kinks) < 1e-6:
                    smooth = False
                if f:
                    n += 1
                val += f
                gr = gr + f1 * cg
                H = H + f2 * np.outer(cg, cg) + f1 * cH
                k = w['u'].shape[0] + w['x'].shape[0]
                gn = gn + (h * np.outer(cg[:k], cg[:k]) if kind != 'EXTERNAL' else f2 * np.outer(cg[:k], cg[:k]) + f1 * cH[:k, :k])
                names.append('%s %s [%g, %g] w %g delta %g min_hess %g = %g' % (q['how'], q['b'], lo, up, wt, q['delta'], q['mh'], cv))
            what = '%s cost at stage type %r with penalties %s' % (kind, sf, '; '.join(names))
            got = M(w)
            formul.compare(what, got, (val, gr, H, gn), hess=smooth, gn=smooth)
    ocp.solver_options.hessian_approx = 'GAUSS_NEWTON'
    for sf, k in zip(formul.STAGES, c['kinds']):
        if k == 'EXTERNAL':
            ocp.solver_options.hessian_approx = 'EXACT'
            ocp.solver_options.exact_hess_cost = not any(k == 'CONVEX_OVER_NONLINEAR' for k in c['kinds'])
    consistent(ocp, labels)
    return {'nontrivial': n > 0, 'labels': sorted(set(labels))}


def consistent(ocp, what):
    try:
        ocp.make_consistent(verbose=False)
    except Exception as e:
        expect(False, '%s: make_consistent rejects the formulation: %s %s' % (what, type(e).__name__, e))


def cons(c, ocp, d):
    """random constraints; -> per stage type list of (Function value/gradient w.r.t. (u,x,z), lower, upper)"""
    S, m, con = d['S'], ocp.model, ocp.constraints
    x, u, z = d['x'], d['u'], d['z']
    nx, nu = c['nx'], c['nu']
    p = m.p if not formul.empty(m.p) else S.zeros(0, 1)
    pg = m.p_global if not formul.empty(m.p_global) else S.zeros(0, 1)
    r = Rnd(c['seed'], 'cons')
    out = {sf: [] for sf in formul.STAGES}
    n = c['parts']

    def lims(k, tag):
        lo = r.vec(k, -1., .2)
        up = lo + np.abs(r.vec(k))
        for i in range(k):
            t = r.int(0, 7)
            if t == 0:
                lo[i] = -INF
            elif t == 1:
                up[i] = INF
            elif t == 2:
                up[i] = lo[i]
        return lo, up

    def add(sf, e, lo, up):
        for i in range(len(lo)):
            out[sf].append((e[i], lo[i], up[i]))
    k = min(n[0], nx)
    if k:
        con.idxbx = np.array(r.subset(nx, k))
        con.lbx, con.ubx = lims(k, 'bx')
        add('', ca.vertcat(*[x[int(i)] for i in con.idxbx]), con.lbx, con.ubx)
    k = min(n[1], nu)
    if k:
        con.idxbu = np.array(r.subset(nu, k))
        con.lbu, con.ubu = lims(k, 'bu')
        for sf in ('', '_0'):
            add(sf, ca.vertcat(*[u[int(i)] for i in con.idxbu]), con.lbu, con.ubu)
    k = n[2]
    if k:
        con.C, con.D = r.mat(k, nx), r.mat(k, nu)
        con.lg, con.ug = lims(k, 'g')
        e = ca.mtimes(ca.DM(con.C), x) + ca.mtimes(ca.DM(con.D), u)
        for sf in ('', '_0'):
            add(sf, e, con.lg, con.ug)
    if n[3]:
        con.C_e = r.mat(n[3], nx)
        con.lg_e, con.ug_e = lims(n[3], 'ge')
        add('_e', ca.mtimes(ca.DM(con.C_e), x), con.lg_e, con.ug_e)
    k = min(n[4], nx)
    if k:
        con.idxbx_e = np.array(r.subset(nx, k))
        con.lbx_e, con.ubx_e = lims(k, 'bxe')
        add('_e', ca.vertcat(*[x[int(i)] for i in con.idxbx_e]), con.lbx_e, con.ubx_e)
    for j, sf in enumerate(formul.STAGES):
        v = exprs.cat(S, x, *([u, z] if sf != '_e' else []), p, pg)
        k = n[5 + j]
        if k:
            h = exprs.vector(r, k, v)
            setattr(m, 'con_h_expr' + sf, h)
            lo, up = lims(k, 'h')
            setattr(con, 'lh' + sf, lo)
            setattr(con, 'uh' + sf, up)
            add(sf, h, lo, up)
        k = n[8 + j] - 1
        if k > 0 and n[5 + j] == 0:
            nr = r.int(1, 2)
            rs = S.sym('rphi' + sf, nr)
            rexpr = exprs.vector(r, nr, v)
            phi = ca.vertcat(*[ca.sumsqr(rs) + r.unif() * rs[0] for _ in range(k)])
            setattr(con, 'constr_type' + sf, 'BGP')
            setattr(m, 'con_phi_expr' + sf, phi)
            setattr(m, 'con_r_expr' + sf, rexpr)
            setattr(m, 'con_r_in_phi' + sf, rs)
            lo, up = lims(k, 'phi')
            setattr(con, 'lphi' + sf, np.full(k, -INF))
            setattr(con, 'uphi' + sf, up)
            add(sf, ca.substitute(phi, rs, rexpr), np.full(k, -INF), up)
    x0 = None
    if c['x0'] == 'x0':
        x0 = r.vec(nx)
        con.x0 = x0
        out['x0'] = [(x[i], x0[i], x0[i]) for i in range(nx)]
    elif c['x0'] == 'bounds':
        k = r.int(1, nx)
        con.idxbx_0 = np.array(r.subset(nx, k))
        con.lbx_0, con.ubx_0 = lims(k, 'bx0')
        out['x0'] = [(x[int(i)], lo, up) for i, lo, up in zip(con.idxbx_0, con.lbx_0, con.ubx_0)]
    else:
        out['x0'] = []
    # every stage type needs something to penalise
    return out, x0, p, pg


def feasibility(c, ocp, d):
    S = d['S']
    x, u, z = d['x'], d['u'], d['z']
    ocp.solver_options.hessian_approx = 'GAUSS_NEWTON'
    con, x0, p, pg = cons(c, ocp, d)
    none0 = c['none0'] and c['keep']
    for i, (sf, k) in enumerate(zip(formul.STAGES, c['kinds'])):
        if sf == '_0' and none0:
            continue
        formul.set_cost(ocp, d, c, sf, k)
    base = {sf: formul.Meaning(ocp, d, sf) for sf in formul.STAGES}
    fx0 = c['fx0']
    if fx0 and c['x0'] != 'x0':
        try:
            ocp.translate_to_feasibility_problem(keep_x0=fx0 == 'keep', parametric_x0=fx0 == 'param')
        except NotImplementedError:
            return {'nontrivial': True, 'labels': ['op:feas', 'rejected']}
        expect(False, '%s accepted without x0 constraint' % fx0)
    np0 = np.array(ocp.parameter_values, float)
    ocp.translate_to_feasibility_problem(keep_x0=fx0 == 'keep', keep_cost=c['keep'], parametric_x0=fx0 == 'param')
    what = 'feasibility problem (%s%s)' % ('cost kept, ' if c['keep'] else '', fx0)
    if fx0 == 'param':
        expect_close(what + ': parameter_values', ocp.parameter_values, np.concatenate((np0, x0)), 0, 0)
    else:
        expect_close(what + ': parameter_values', ocp.parameter_values, np0, 0, 0)
    kon = ocp.constraints
    if fx0 == 'keep':
        expect(kon.has_x0 and np.array_equal(kon.lbx_0, x0) and np.array_equal(kon.ubx_0, x0), what + ': x0 constraint')
    else:
        expect(kon.lbx_0.size == 0 and not kon.has_x0, what + ': initial bounds remain')
    for a in ('lbx', 'lbu', 'lg', 'lg_e', 'lbx_e', 'lh', 'lh_0', 'lh_e', 'lphi', 'lphi_0', 'lphi_e'):
        expect(getattr(kon, a).size == 0, what + ': constraint %s remains' % a)
    n = 0
    r = Rnd(c['seed'], 'par')
    if fx0 != 'keep':
        con['_0'] = con['_0'] + con['x0']
    for sf in formul.STAGES:
        try:
            M = formul.Meaning(ocp, d, sf)
        except AssertionError as ex:
            expect(False, '%s: inconsistent cost term: %s' % (what, ex))
        F = ca.Function('c', [x, u, z, p, pg], [ca.vertcat(*[e for e, _, _ in con[sf]]) if con[sf] else S.zeros(0, 1)])
        lo, up = np.array([b[1] for b in con[sf]]), np.array([b[2] for b in con[sf]])
        for i, w in enumerate(formul.points(c, ocp, 4)):
            wb = dict(w)
            wb['p'] = w['p'][:np0.shape[0]]
            if fx0 == 'keep' and sf == '_0':
                w['x'] = wb['x'] = x0
            lo_, up_ = lo.copy(), up.copy()
            if fx0 == 'param':
                q = x0 if i == 0 else r.vec(x0.shape[0])
                w['p'] = np.concatenate((wb['p'], q))
                if sf == '_0':
                    lo_[-q.shape[0]:] = up_[-q.shape[0]:] = q
            v = np.array(F(w['x'], w['u'], w['z'], wb['p'], w['pg']))[:, 0]
            viol = np.maximum(0, np.maximum(v - up_, lo_ - v))
            want = .5 * float(viol @ viol) + (base[sf](wb)[0] if c['keep'] else 0.)
            n += bool(np.any(viol > 0))
            expect_close('%s: cost at stage type %r' % (what, sf), M(w)[0], want, 1e-9, 1e-9)
    if any(k == 'EXTERNAL' for k in c['kinds']) and c['keep']:
        ocp.solver_options.hessian_approx = 'EXACT'
        ocp.solver_options.exact_hess_cost = not any(k == 'CONVEX_OVER_NONLINEAR' for k in c['kinds'])
    consistent(ocp, what)
    return {'nontrivial': n > 0, 'labels': ['op:feas', 'keep' if c['keep'] else 'drop', 'x0:%s' % fx0]}


def linear(c, ocp, d):
    """repeated add_linear_constraint stacks the rows"""
    r = Rnd(c['seed'], 'lin')
    nx, nu = c['nx'], c['nu']
    for sf, k in zip(formul.STAGES, c['kinds']):
        formul.set_cost(ocp, d, c, sf, 'EXTERNAL')
    ocp.solver_options.hessian_approx = 'EXACT'
    rows = []
    for i in range(c['nlin']):
        k = r.int(1, 3)
        lo = r.vec(k)
        rows.append((r.mat(k, nx), r.mat(k, nu), lo, lo + np.abs(r.vec(k))))
        ocp.add_linear_constraint(*[v.copy() for v in rows[-1]])
    consistent(ocp, 'add_linear_constraint, %d calls' % c['nlin'])
    for a, name in enumerate(('C', 'D', 'lg', 'ug')):
        v = getattr(ocp.constraints, name)
        expect(isinstance(v, np.ndarray), 'constraints.%s is a %s after %d calls of add_linear_constraint' % (name, type(v), c['nlin']))
        expect_close('constraints.%s after %d calls of add_linear_constraint' % (name, c['nlin']), v, np.concatenate([q[a] for q in rows]), 0, 0)
    expect(ocp.dims.ng == sum(len(q[2]) for q in rows), 'dims.ng')
    return {'nontrivial': c['nlin'] > 1, 'labels': ['op:lin', 'calls:%d' % c['nlin']]}


def util(c, d):
    """the Huber functions of penalty_utils"""
    from acados_template import huber_loss, one_sided_huber_penalty, symmetric_huber_penalty
    r = Rnd(c['seed'], 'util')
    u = d['S'].sym('v')
    q = c['pens'][0]
    delta, mh = q['delta'], q['mh']
    by_tau = r.bool()
    w = r.unif(.2, 4)
    tau = 2 * w * delta
    kw = {'tau': tau} if by_tau else {'w': w}
    loss = huber_loss(u, delta, tau)
    one = one_sided_huber_penalty(u, delta, min_hess=mh, **kw)
    sym = symmetric_huber_penalty(u, delta, min_hess=mh, **kw)
    F = {n: ca.Function(n, [u], list(v)) for n, v in (('loss', loss), ('one', one), ('sym', sym))}
    for v in list(r.vec(6, -2, 2)) + [3 * r.unif() * (1 + delta), 1 + 2 * delta + r.unif(0, 2), -1 - 2 * delta - r.unif(0, 2), r.unif(0, 2) * delta]:
        a = abs(v)
        # Huber loss
        want = (tau / delta * (.5 * v * v if a < delta else delta * (a - .5 * delta)), tau / delta * (v if a < delta else delta * np.sign(v)),
                tau / delta * (a < delta), tau / max(a, delta))
        p1 = huber_pen(v, delta, w)
        x1 = max(w * delta / max(abs(v - delta), delta), mh)
        pu, pl = huber_pen(v - 1, delta, w), huber_pen(-v - 1, delta, w)
        xs = max(w * delta / max(abs((v - 1 if v >= 0 else -v - 1) - delta), delta), mh)
        for n, e in (('loss', want), ('one', (p1[0], p1[1], max(p1[2], mh), x1)),
                     ('sym', (pu[0] + pl[0], pu[1] - pl[1], max(pu[2] + pl[2], mh), xs))):
            got = [float(o) for o in F[n](v)]
            for name, g, b in zip(('value', 'gradient', 'Hessian', 'XGN Hessian'), got, e):
                if abs(g - b) > 1e-9 * max(1, abs(b)) and min(abs(a - delta), abs(v), abs(v - 2 * delta), abs(a - 1), abs(a - 1 - 2 * delta)) > 1e-6:
                    expect(False, '%s(%r, delta %r, w %r, min_hess %r): %s %r, expected %r' % (n, v, delta, w, mh, name, g, b))
    return {'nontrivial': True, 'labels': ['op:util']}
