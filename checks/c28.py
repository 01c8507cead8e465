"""MPC utilities describe the problem they were given: evaluator, cost state, constraint detection, control horizon."""
import casadi as ca
import numpy as np
from hypothesis import strategies as st
import formul
from common import Rnd, expect, expect_close

KINDS = ['LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL']
INF = 1e10


def init(job):
    import acados_template.utils as U
    U.is_tera_version_sufficient = lambda *a: True


@st.composite
def full(draw):
    op = draw(st.sampled_from(['eval', 'eval', 'cost', 'detect', 'detect', 'horizon']))
    c = formul.dims(draw, st, nz=op == 'detect')
    c['op'] = op
    c['kinds'] = [draw(st.sampled_from(KINDS + [None])), draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS))]
    c['np'] = draw(st.integers(0, 3))
    c['con'] = [draw(st.integers(0, 63)) for _ in range(3)]
    c['soft'] = draw(st.integers(0, 2 ** 12 - 1))
    c['N'] = draw(st.integers(2, 6))
    c['x0'] = draw(st.booleans())
    c['scal'] = draw(st.booleans())
    c['nug'] = draw(st.integers(0, 3))
    c['user'] = draw(st.integers(0, 7))
    if op == 'detect':
        c['rows'] = [draw(st.lists(st.sampled_from(['bx', 'bx', 'bu', 'bu', 'lin', 'lin', 'nl', 'p', 'z', 'const', 'lx']), max_size=6)) for _ in range(3)]
        c['neg'] = draw(st.booleans())
    if op == 'horizon':
        c['Nc'] = draw(st.integers(1, c['N']))
        c['Nr'] = draw(st.sampled_from([None, None, 1, 2, 3]))
        c['integ'] = draw(st.sampled_from(['ERK', 'IRK', 'DISCRETE']))
    return c


def strategy(tier):
    return full()


def run(c):
    c = dict(c)
    return {'eval': evaluator, 'cost': coststate, 'detect': detect, 'horizon': horizon}[c['op']](c)


# ------------------------------------------------------------- random constraints

def constrain(ocp, c, d, soft=True, softu=True, only=None):
    """bounds, linear and nonlinear constraints, partly soft.  Returns per stage type the rows
    (expression, lower, upper, soft?) in the order bu, bx, g, h with the penalties of the soft ones."""
    S, con, cost = d['S'], ocp.constraints, ocp.cost
    r = Rnd(c['seed'], 'con')
    x, u, p, pg = d['x'], d['u'], d['p'], d['pg']
    nx, nu = c['nx'], c['nu']
    out = {}
    bits = {sf: c['con'][i] for i, sf in enumerate(formul.STAGES)}

    def bounds(n):
        lo = r.vec(n, -1, .4)
        up = lo + np.abs(r.vec(n, 0, 1.2))
        for i in range(n):
            k = r.int(0, 5)
            if k == 0:
                lo[i] = -INF
            elif k == 1:
                up[i] = INF
        return lo, up

    shared = {}
    for sf in ('', '_0', '_e'):
        rows, groups = [], []
        b = bits[sf]
        if sf != '_e':
            if sf == '':
                idx = sorted(r.subset(nu, r.int(1, nu))) if b & 1 else []
                lo, up = bounds(len(idx))
                if idx:
                    con.idxbu, con.lbu, con.ubu = np.array(idx), lo, up
                shared['bu'] = [(u[i], lo[j], up[j]) for j, i in enumerate(idx)]
            groups.append(('bu', shared['bu']))
        g = []
        if b & 2 and sf != '_0':
            idx = sorted(r.subset(nx, r.int(1, nx)))
            lo, up = bounds(len(idx))
            setattr(con, 'idxbx' + sf, np.array(idx))
            setattr(con, 'lbx' + sf, lo)
            setattr(con, 'ubx' + sf, up)
            g = [(x[i], lo[j], up[j]) for j, i in enumerate(idx)]
        elif sf == '_0' and c['x0']:
            x0 = r.vec(nx)
            con.x0 = x0
            g = [(x[i], x0[i], x0[i]) for i in range(nx)]
        groups.append(('bx', g))
        if sf == '_0':
            g = shared['g']
        else:
            g = []
            if b & 4:
                n = r.int(1, 2)
                lo, up = bounds(n)
                C, D = r.mat(n, nx), r.mat(n, nu)
                setattr(con, 'C' + sf, C)
                e = ca.mtimes(ca.DM(C), x)
                if sf == '':
                    con.D = D
                    e = e + ca.mtimes(ca.DM(D), u)
                setattr(con, 'lg' + sf, lo)
                setattr(con, 'ug' + sf, up)
                g = [(e[i], lo[i], up[i]) for i in range(n)]
            if sf == '':
                shared['g'] = g
        groups.append(('g', g))
        g = []
        if b & 8:
            n = r.int(1, 2)
            lo, up = bounds(n)
            v = ca.vertcat(x, p, pg) if sf == '_e' else ca.vertcat(x, u, p, pg)
            e = ca.vertcat(*[ca.sin(ca.mtimes(ca.DM(r.mat(1, v.shape[0])), v)) + r.unif() * v[0] ** 2 for _ in range(n)])
            setattr(ocp.model, 'con_h_expr' + sf, e)
            setattr(con, 'lh' + sf, lo)
            setattr(con, 'uh' + sf, up)
            g = [(e[i], lo[i], up[i]) for i in range(n)]
        groups.append(('h', g))
        pens = []
        for name, g in groups:
            if soft and sf == '_0' and name in ('bu', 'g'):
                mark = shared['s' + name]
            else:
                mark = [soft and r.bool() and not (sf == '_0' and name == 'bx') and (softu or name != 'bu') and (only is None or name in only) for _ in g]
                if soft and sf == '':
                    shared['s' + name] = mark
                idx = np.array([i for i, s in enumerate(mark) if s], dtype=int)
                key = 'idxs' + name + sf
                if idx.size and not (sf == '_0' and name in ('bu', 'g')):
                    setattr(con, key, idx)
            for (e, lo, up), s in zip(g, mark):
                pen = None
                if s:
                    pen = np.array([r.unif(0, 2), r.unif(0, 2), r.unif(.1, 3), r.unif(.1, 3)])     # zl zu Zl Zu
                    pens.append(pen)
                rows.append((e, lo, up, pen))
        if pens or soft:
            P = np.array(pens).reshape(-1, 4)
            if len(pens):
                for j, n in enumerate(('zl', 'zu', 'Zl', 'Zu')):
                    setattr(cost, n + sf, P[:, j].copy())
            elif sf == '_0':
                for j, n in enumerate(('zl', 'zu', 'Zl', 'Zu')):
                    setattr(cost, n + sf, np.zeros(0))
        out[sf] = rows
    return out


class Rows:
    def __init__(self, rows, d):
        self.rows = rows
        e = ca.vertcat(*[r[0] for r in rows]) if rows else d['S'].zeros(0, 1)
        self.f = ca.Function('rows', [d['x'], d['u'], d['z'], d['p'], d['pg']], [e])

    def __call__(self, w):
        """lower and upper violations of hard rows, of soft rows, and the slack penalty"""
        v = np.array(self.f(w['x'], w['u'], w['z'], w['p'], w['pg'])).ravel()
        h = [[], []]
        s = [[], []]
        pen = 0.0
        for val, (_, lo, up, z) in zip(v, self.rows):
            viol = max(lo - val, 0.0), max(val - up, 0.0)
            for k in range(2):
                (s if z is not None else h)[k].append(viol[k])
            if z is not None:
                pen += z[0] * viol[0] + z[1] * viol[1] + .5 * z[2] * viol[0] ** 2 + .5 * z[3] * viol[1] ** 2
        return np.array(h[0] + h[1]), np.array(s[0] + s[1]), pen


def formulate(c, soft=True, softu=True, groups=None):
    ocp, d = formul.new(c)
    ocp.solver_options.N_horizon = c['N']
    for sf, k in zip(formul.STAGES, c['kinds']):
        formul.set_cost(ocp, d, c, sf, k)
    rows = constrain(ocp, c, d, soft, softu, groups)
    return ocp, d, rows


# ------------------------------------------------------------- evaluator

class Fake:
    """stands for a solver: only hands out parameter values"""

    def __init__(self, P, pg, save):
        self.P, self.pg, self.save_p_global = P, pg, save

    def get(self, k, f):
        assert f == 'p'
        return self.P[:, k].copy()

    def get_flat(self, f):
        assert f == 'p_global'
        return self.pg.copy()


def evaluator(c):
    from acados_template import AcadosOcpIterate
    from acados_template.mpc_utils import AcadosCostConstraintEvaluator
    ocp, d, rows = formulate(c)
    r = Rnd(c['seed'], 'eval')
    N = c['N']
    if c['scal']:
        ocp.solver_options.cost_scaling = r.vec(N + 1, .1, 2)
    elif c['nug']:
        ocp.solver_options.time_steps = r.vec(N, .1, 1)
        ocp.solver_options.tf = float(np.sum(ocp.solver_options.time_steps))
    scal = ocp.solver_options.cost_scaling
    if scal is None:
        dt = ocp.solver_options.time_steps
        scal = np.append(np.full(N, ocp.solver_options.tf / N) if dt is None else dt, 1.0)
    mean = {sf: formul.Meaning(ocp, d, sf) for sf in formul.STAGES}
    R = {sf: Rows(rows[sf], d) for sf in formul.STAGES}
    p0 = np.array(ocp.parameter_values, float)
    pg0 = np.array(ocp.p_global_values, float)
    ev = AcadosCostConstraintEvaluator(ocp)
    P = np.tile(p0.reshape(-1, 1), (1, N))
    pg = pg0
    labels = ['op:eval', 'np:%d' % c['np'], 'kinds:%s' % '/'.join(str(k)[:3] for k in c['kinds'])]
    ns = 0
    for turn in range(3):
        kw = {}
        Q, qg = P, pg
        if turn == 1:
            P = r.mat(c['np'], N)
            save = bool(c['user'] & 1)
            fg = r.vec(c['npg'])
            ev.update_all(Fake(P, fg, save))
            if save:
                pg = fg
            Q, qg = P, pg
            labels.append('update')
        if turn == 2:
            if c['user'] & 2 and c['np']:
                Q = kw['p'] = r.mat(c['np'], N)
            if c['user'] & 4 and c['npg']:
                qg = kw['p_global'] = r.vec(c['npg'])
        X = [r.vec(c['nx'], -1.5, 1.5) for _ in range(N + 1)]
        U = [r.vec(c['nu'], -1.5, 1.5) for _ in range(N)]
        total = 0.0
        for k in range(N + 1):
            sf = '_e' if k == N else ('_0' if k == 0 else '')
            w = {'x': X[k], 'u': U[k] if k < N else np.zeros(c['nu']), 'z': np.zeros(0), 'p': Q[:, min(k, N - 1)], 'pg': qg}
            if k < N:
                res = ev.evaluate(X[k], U[k], step=k, **kw)
                val = mean[''](w)[0] * scal[k]
                hard, soft, pen = R[''](w)
                what = 'evaluate at step %d (%s)' % (k, list(kw))
                expect_close(what + ': cost_without_slacks', res['cost_without_slacks'], val, 1e-9, 1e-9)
                expect_close(what + ': cost_slacks', res['cost_slacks'], pen * scal[k], 1e-9, 1e-9)
                expect_close(what + ': cost', res['cost'], val + pen * scal[k], 1e-9, 1e-9)
                expect_close(what + ': soft violations', np.array(res['violation_soft_constraints']).ravel(), soft, 1e-9, 1e-9)
                expect_close(what + ': hard violations', np.array(res['violation_hard_constraints']).ravel(), hard, 1e-9, 1e-9)
            hard, soft, pen = R[sf](w)
            ns += soft.size
            total += scal[k] * (mean[sf](w)[0] + pen)
        it = AcadosOcpIterate(x=X, u=U, z=[], sl=[], su=[], pi=[], lam=[])
        got = ev.evaluate_ocp_cost(it, **kw)
        expect_close('evaluate_ocp_cost (%s)' % list(kw), float(got), total, 1e-9, 1e-9)
    for bad in (dict(p=np.zeros((c['np'] + 1, N))), dict(p_global=np.zeros(c['npg'] + 1))):
        try:
            ev.evaluate(X[0], U[0], **bad)
        except ValueError:
            continue
        expect(False, 'evaluate accepts parameters of a wrong shape')
    if ns:
        labels.append('soft')
    return dict(nontrivial=sum(len(v) for v in rows.values()) > 0, labels=labels)


# ------------------------------------------------------------- cost state

def coststate(c):
    from acados_template.mpc_utils import create_model_with_cost_state
    ocp, d, rows = formulate(c)
    mean, R = formul.Meaning(ocp, d, ''), Rows(rows[''], d)
    x, u, z, xdot, p, pg = d['x'], d['u'], d['z'], ocp.model.xdot, d['p'], d['pg']
    old = ca.Function('old', [x, u, z, xdot, p, pg], [ocp.model.f_expl_expr, ocp.model.f_impl_expr])
    model, pv = create_model_with_cost_state(ocp)
    expect(np.array_equal(pv, ocp.parameter_values), 'parameter values')
    expect(model.x.shape[0] == c['nx'] + 1 == model.xdot.shape[0], 'number of states')
    expect(ocp.model.x.shape[0] == c['nx'] and ocp.model.f_expl_expr.shape[0] == c['nx'], 'the given OCP was changed')
    f = ca.Function('new', [model.x, model.u, model.xdot, p, pg], [model.f_expl_expr, model.f_impl_expr])
    r = Rnd(c['seed'], 'cs')
    pen = 0.0
    for w in formul.points(c, ocp, 4):
        val = mean(w)[0]
        s = R(w)[2]
        pen += s
        q, dq = r.vec(2, -5, 5)
        xd = r.vec(c['nx'])
        fe, fi = [np.array(v).ravel() for v in f(np.append(w['x'], q), w['u'], np.append(xd, dq), w['p'], w['pg'])]
        oe, oi = [np.array(v).ravel() for v in old(w['x'], w['u'], [], xd, w['p'], w['pg'])]
        expect_close('explicit dynamics of the states', fe[:-1], oe, 1e-12, 1e-12)
        expect_close('derivative of the cost state', fe[-1], val + s, 1e-9, 1e-9)
        expect_close('implicit dynamics of the states', fi[:-1], oi, 1e-12, 1e-12)
        expect_close('residual of the cost state', fi[-1], dq - val - s, 1e-9, 1e-9)
    return dict(nontrivial=True, labels=['op:cost', 'slack penalty' if pen else 'no penalty', 'sx' if c['sx'] else 'mx'])


# ------------------------------------------------------------- constraint detection

def feasible(con, model, d, sf, w, tol=0.0):
    """all constraints of a stage as stored in the description hold: the smallest distance to a bound (negative: violated)"""
    x, u = w['x'], w['u']
    margins = []

    def add(val, lo, up):
        val, lo, up = (np.asarray(v, float).ravel() for v in (val, lo, up))
        expect(val.size == lo.size == up.size, 'sizes of constraint and bounds: %d, %d, %d' % (val.size, lo.size, up.size))
        margins.extend(np.minimum(val - lo, up - val))
    h = getattr(model, 'con_h_expr' + sf)
    lh, uh = getattr(con, 'lh' + sf), getattr(con, 'uh' + sf)
    if not formul.empty(h):
        f = ca.Function('h', [d['x'], d['u'], d['z'], d['p'], d['pg']], [h])
        add(np.array(f(x, u, w['z'], w['p'], w['pg'])), lh, uh)
    else:
        expect(np.size(lh) == 0 and np.size(uh) == 0, 'bounds without constraint')
    add(x[np.asarray(getattr(con, 'idxbx' + sf), int)], getattr(con, 'lbx' + sf), getattr(con, 'ubx' + sf))
    if sf != '_e':
        add(u[np.asarray(con.idxbu, int)], con.lbu, con.ubu)
        C, D = np.asarray(con.C, float), np.asarray(con.D, float)
        if np.size(con.lg):
            expect(C.shape[1] == x.size and D.shape[1] == u.size, 'shape of C, D: %s %s' % (C.shape, D.shape))
            add(C @ x + D @ u, con.lg, con.ug)
    elif np.size(con.lg_e):
        add(np.asarray(con.C_e, float) @ x, con.lg_e, con.ug_e)
    return min(margins) if margins else np.inf


def detect(c):
    from acados_template.mpc_utils import detect_constraint_structure
    ocp, d = formul.new(c)
    for sf, k in zip(formul.STAGES, c['kinds']):
        formul.set_cost(ocp, d, c, sf, k)
    model, con = ocp.model, ocp.constraints
    r = Rnd(c['seed'], 'detect')
    x, u, z, p, pg = d['x'], d['u'], d['z'], d['p'], d['pg']
    lin = ('bx', 'lx', 'bu', 'lin', 'const')
    exp = {}
    shared = []
    for sf in ('', '_0', '_e'):
        term = sf == '_e'
        rows, lo, up, kinds = [], [], [], []
        if sf == '_0':
            # rows linear in the controls hold on all path stages: the same rows there
            kinds = [('shared', e) for e in shared]
        usedx, usedu = [], []
        for k in c['rows'][formul.STAGES.index(sf)]:
            if sf == '_0' and k in ('bu', 'lin', 'const', 'lx'):
                continue
            kinds.append((k, None))
        for k, e in kinds:
            co = r.choice([1.0, r.unif(.3, 3), -r.unif(.3, 3) if c['neg'] else 2.0])
            off = r.choice([0.0, r.unif(-1, 1)])
            a, b = r.unif(-1, .3), 0
            b = a + abs(r.unif(0, 2))
            if r.int(0, 4) == 0:
                a = -INF
            elif r.int(0, 4) == 0:
                b = INF
            if k == 'shared':
                e, a, b = e
            elif k == 'bx':
                i = r.int(0, c['nx'] - 1)
                if i in usedx:
                    continue
                usedx.append(i)
                e = co * x[i] + off
            elif k == 'bu':
                i = r.int(0, c['nu'] - 1)
                if i in usedu or term:
                    continue
                usedu.append(i)
                e = off + co * u[i]
                shared.append((e, a, b))
            elif k in ('lin', 'lx'):
                v = x if term or k == 'lx' else ca.vertcat(x, u)
                if v.shape[0] < 2:
                    continue
                e = ca.mtimes(ca.DM(r.mat(1, v.shape[0])), v) + off
                if not term:
                    shared.append((e, a, b))
            elif k == 'const':
                e = ca.mtimes(ca.DM.zeros(1, c['nx']), x) + off
                a, b = off - .5, off + .5
                if term:
                    continue
                shared.append((e, a, b))
            elif k == 'nl':
                v = x if term else ca.vertcat(x, u)
                e = ca.sumsqr(v) + co * v[0]
            elif k == 'p':
                v = ca.vertcat(p, pg)
                if v.shape[0] == 0:
                    continue
                e = r.choice([co * x[0] + v[v.shape[0] - 1], v[0] * x[c['nx'] - 1]])
            else:
                if term or c['nz'] == 0:
                    continue
                e = co * z[0] + x[0]
            rows.append(e)
            lo.append(a)
            up.append(b)
        if sf == '_0' and not rows:
            continue
        if rows:
            setattr(model, 'con_h_expr' + sf, ca.vertcat(*rows))
            setattr(con, 'lh' + sf, np.array(lo))
            setattr(con, 'uh' + sf, np.array(up))
        fun = ca.Function('c', [x, u, z, p, pg], [ca.vertcat(*rows) if rows else d['S'].zeros(0, 1)])
        exp[sf] = (fun, np.array(lo), np.array(up))
    order = [sf for sf in ('_0', '', '_e') if sf in exp]
    for sf in order:
        detect_constraint_structure(model, con, {'_0': 'initial', '': 'path', '_e': 'terminal'}[sf])
    nl = 0
    both = [0, 0]
    for sf in order:
        fun, lo, up = exp[sf]
        if fun.numel_out(0) == 0 and sf == '':
            shared = []
        h = getattr(model, 'con_h_expr' + sf)
        nh = 0 if formul.empty(h) else h.shape[0]
        # what is linear in (x, u) with constant coefficients does not stay a nonlinear constraint
        lin_rows = [ca.is_linear(ca.vertcat(*[e])[0], ca.vertcat(x, u)) and not ca.depends_on(e, ca.vertcat(z, p, pg)) for e in ca.vertsplit(h)] if nh else []
        expect(not any(lin_rows), 'stage type %r: a linear constraint is kept as nonlinear constraint' % sf)
        nl += nh
        for k in range(40):
            w = {'x': r.vec(c['nx'], -2, 2), 'u': r.vec(c['nu'], -2, 2), 'z': r.vec(c['nz'], -1, 1), 'p': r.vec(c['np']), 'pg': r.vec(c['npg'])}
            if k % 2:
                w = {key: .3 * v for key, v in w.items()}
            v = np.array(fun(w['x'], w['u'], w['z'], w['p'], w['pg'])).ravel()
            m = min(np.minimum(v - lo, up - v)) if v.size else np.inf
            if abs(m) < 1e-8:
                continue
            got = feasible(con, model, d, sf, w)
            both[int(m > 0)] += 1
            expect((got > 0) == (m > 0), 'stage type %r: a point that is %s in the given constraints (margin %g) is %s in the detected ones (margin %g)' % (
                sf, 'feasible' if m > 0 else 'infeasible', m, 'feasible' if got > 0 else 'infeasible', got))
            # each constraint alone: points far outside in one row only
    # the formulation with the detected constraints is accepted
    try:
        ocp.make_consistent(verbose=False)
    except Exception as e:
        expect(False, 'make_consistent rejects the formulation with detected constraints: %s %s' % (type(e).__name__, e))
    return dict(nontrivial=any(exp[sf][1].size for sf in order), labels=['op:detect', 'neg' if c['neg'] else 'pos', 'feasible' if both[1] else '', 'infeasible' if both[0] else ''])


# ------------------------------------------------------------- control horizon

def horizon(c):
    from acados_template.mpc_utils import create_ocp_with_control_horizon
    from acados_template import AcadosMultiphaseOcp
    Nc, N = c['Nc'], c['N']
    if Nc == 1:
        c['kinds'] = [None] + c['kinds'][1:]
    c['con'] = [c['con'][0] & ~8 if Nc == 1 else c['con'][0]] + c['con'][1:]
    c['x0'] = True
    ocp, d, rows = formulate(c, softu=False)
    nx, nu = c['nx'], c['nu']
    opts = ocp.solver_options
    opts.integrator_type = c['integ']
    opts.hessian_approx = 'GAUSS_NEWTON'
    opts.tf = 0.25 * N
    x, u, p, pg = d['x'], d['u'], d['p'], d['pg']
    if c['integ'] == 'DISCRETE':
        ocp.model.disc_dyn_expr = x + .1 * ocp.model.f_expl_expr
    mean = {sf: formul.Meaning(ocp, d, sf) for sf in formul.STAGES}
    R = {sf: Rows(rows[sf], d) for sf in formul.STAGES}
    m = ocp.model
    xd = m.xdot
    fe = {'ERK': m.f_expl_expr, 'IRK': m.f_impl_expr, 'DISCRETE': m.disc_dyn_expr}[c['integ']]
    dyn = ca.Function('dyn', [x, u, xd, p, pg], [fe])
    Nr = c['Nr']
    new = create_ocp_with_control_horizon(ocp, Nc, Nr)
    labels = ['op:horizon', 'integ:' + c['integ'], 'Nc=1' if Nc == 1 else 'Nc>1']
    if Nc == N:
        expect(new is ocp, 'control horizon as long as the horizon: the OCP itself')
        return dict(nontrivial=False, labels=labels + ['trivial'])
    Nr = Nr or N - Nc
    expect(isinstance(new, AcadosMultiphaseOcp), 'type of the result')
    # the given OCP is unchanged
    expect(ocp.solver_options.N_horizon == N and abs(ocp.solver_options.tf - .25 * N) < 1e-12 and ocp.solver_options.time_steps is None
           and ocp.solver_options.integrator_type == c['integ'] and ocp.model.x.shape[0] == nx and np.size(ocp.constraints.lbu) == np.size(ocp.constraints.idxbu),
           'the given OCP was changed')
    try:
        new.make_consistent()
    except Exception as e:
        expect(False, 'make_consistent rejects the formulation with control horizon: %s %s' % (type(e).__name__, e))
    dt = np.asarray(new.solver_options.time_steps, float)
    N_list = list(new.N_list)
    first = [Nc - 1] if Nc > 1 else []
    expect(N_list == first + [1, Nr + 1], 'phases %s' % N_list)
    want = np.concatenate([np.full(Nc - 1, .25), [0.0], [.25], np.full(Nr, .25 * (N - Nc) / Nr)])
    expect_close('time steps', dt, want, 1e-12, 1e-12)
    ph = new.phases_dims and list(new.model) if False else new.model
    t = len(first)
    r = Rnd(c['seed'], 'hor')

    def fun(i):
        mm = new.model[i]
        typ = new.mocp_opts.integrator_type[i]
        e = {'ERK': mm.f_expl_expr, 'IRK': mm.f_impl_expr, 'DISCRETE': mm.disc_dyn_expr}[typ]
        xdi = mm.xdot if typ == 'IRK' else d['S'].sym('dummy', 0)
        return typ, ca.Function('dyn', [mm.x, mm.u, xdi, mm.p if not formul.empty(mm.p) else p, pg], [e])

    class Phase:
        pass

    def phase(i):
        o = Phase()
        o.model, o.cost, o.constraints = new.model[i], new.cost[i], new.constraints[i]
        return o
    a = t + 1
    if first:
        typ, f = fun(0)
        expect(typ == c['integ'], 'integrator type of the first phase')
    ttyp, tf_ = fun(t)
    expect(ttyp == 'DISCRETE', 'integrator type of the transition')
    atyp, af = fun(a)
    expect(atyp == c['integ'], 'integrator type of the last phase')
    ma = new.model[a]
    da = dict(d, x=ma.x, u=ma.u if not formul.empty(ma.u) else d['S'].zeros(0, 1))
    for k in range(3):
        X, U, XD = r.vec(nx), r.vec(nu), r.vec(nx)
        P, PG = r.vec(c['np']), r.vec(c['npg'])
        w = {'x': X, 'u': U, 'z': np.zeros(0), 'p': P, 'pg': PG}
        want = np.array(dyn(X, U, XD, P, PG)).ravel()
        got = np.array(tf_(X, U, [], P, PG)).ravel()
        expect_close('transition', got, np.append(X, U), 1e-14, 1e-14)
        got = np.array(af(np.append(X, U), [], np.append(XD, np.zeros(nu)) if atyp == 'IRK' else [], P, PG)).ravel()
        expect_close('dynamics with blocked controls', got, np.append(want, np.zeros(nu) if c['integ'] != 'DISCRETE' else U), 1e-12, 1e-12)
        if first:
            got = np.array(f(X, U, XD if typ == 'IRK' else [], P, PG)).ravel()
            expect_close('dynamics of the first phase', got, want, 1e-12, 1e-12)
        wa = dict(w, x=np.append(X, U), u=np.zeros(0))
        try:
            ga, gt = formul.Meaning(phase(a), da, '')(wa), formul.Meaning(phase(a), da, '_e')(wa)
        except AssertionError as e:
            expect(False, 'cost terms with blocked controls: %s' % e)
        expect_close('path cost with blocked controls', ga[0], mean[''](w)[0], 1e-9, 1e-9)
        expect_close('terminal cost with blocked controls', gt[0], mean['_e'](w)[0], 1e-9, 1e-9)
        # constraints of a node in the last phase: those of the path except for bounds on the controls
        for sf in ('', '_e'):
            hard, soft, pen = Rows([q for q in rows[sf] if not any(q[0] is e[0] for e in rows[''][:np.size(ocp.constraints.idxbu)])], d)(w)
            got = margins(phase(a), da, sf, wa)
            expect_close('violations of constraints with blocked controls, stage type %r' % sf, got, np.sort(np.concatenate((hard, soft))), 1e-9, 1e-9)
        # the controls of the transition satisfy the bounds
        con = new.constraints[t]
        v = U[np.asarray(con.idxbu, int)]
        expect(np.array_equal(np.asarray(con.idxbu), np.asarray(ocp.constraints.idxbu)) and np.array_equal(con.lbu, ocp.constraints.lbu) and np.array_equal(con.ubu, ocp.constraints.ubu),
               'bounds of the controls at the transition')
    if Nc == 1:
        con = new.constraints[0]
        expect(np.array_equal(con.lbx_0, ocp.constraints.lbx_0) and np.array_equal(con.ubx_0, ocp.constraints.ubx_0), 'initial state')
    else:
        con = new.constraints[0]
        expect(np.array_equal(con.lbx_0, ocp.constraints.lbx_0) and con.has_x0, 'initial state')
    return dict(nontrivial=True, labels=labels)


def margins(o, d, sf, w):
    con, x, u = o.constraints, w['x'], w['u']
    out = []

    def add(val, lo, up):
        val, lo, up = (np.asarray(v, float).ravel() for v in (val, lo, up))
        expect(val.size == lo.size == up.size, 'sizes of constraint and bounds: %d, %d, %d' % (val.size, lo.size, up.size))
        out.extend(np.maximum(lo - val, 0))
        out.extend(np.maximum(val - up, 0))
    add(x[np.asarray(getattr(con, 'idxbx' + sf), int)], getattr(con, 'lbx' + sf), getattr(con, 'ubx' + sf))
    if sf == '':
        add(u[np.asarray(con.idxbu, int)], con.lbu, con.ubu)
    C = np.asarray(getattr(con, 'C' + sf), float)
    lg, ug = getattr(con, 'lg' + sf), getattr(con, 'ug' + sf)
    if np.size(lg):
        expect(C.shape == (np.size(lg), x.size), 'shape of C%s: %s' % (sf, C.shape))
        add(C @ x, lg, ug)
    h = getattr(o.model, 'con_h_expr' + sf)
    if not formul.empty(h):
        f = ca.Function('h', [d['x'], d['u'], d['z'], d['p'], d['pg']], [h])
        add(np.array(f(x, u, w['z'], w['p'], w['pg'])), getattr(con, 'lh' + sf), getattr(con, 'uh' + sf))
    return np.sort(np.array(out))
