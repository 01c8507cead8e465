"""get_cost / get_residuals report the cost and the KKT residuals of the user's problem at the current iterate."""
import numpy as np
from hypothesis import strategies as st
import c03
import ocpgen
from common import Rnd, expect, expect_close, Skip

init = c03.init
INTEG = ('ERK', 'ERK', 'IRK', 'IRK', 'DISCRETE', 'GNSF')


def strategy(tier):
    return st.fixed_dictionaries({
        'ocp': ocpgen.spec(integ=INTEG, hess=('GAUSS_NEWTON', 'GAUSS_NEWTON', 'EXACT'), linear=True),
        'it': st.lists(st.integers(0, 2 ** 30), min_size=1, max_size=3),
        'solver': st.sampled_from(['SQP', 'SQP', 'SQP_RTI', 'SQP_WITH_FEASIBLE_QP']),
        'iters': st.sampled_from([0, 0, 1, 2, 5]),
        'tau': st.sampled_from([0, 0, 0, 1e-3, 0.1]),
        'glob': st.sampled_from(['FIXED_STEP', 'FIXED_STEP', 'MERIT_BACKTRACKING']),
        'pvar': st.booleans(), 'yvar': st.booleans(), 'bvar': st.booleans(),
    })


def reference(P, it, exact, tau):
    ev = P.evaluate(it, exact)
    res = ev['res'].copy()
    if tau:
        comp = 0.0
        for k, s in enumerate(ev['st']):
            v = s['ineq'] * it['lam'][k] + tau
            v = v * s['mask']
            nr = P.nrows(k)
            for i in P.eqrows(k):
                v[i] = v[nr + i] = 0
            comp = max(comp, np.max(np.abs(v)) if v.size else 0.0)
        res[3] = comp
    return ev, res


def check(s, P, it, exact, tau, tag, recompute, cost=True):
    ev, res = reference(P, it, exact, tau)
    if not np.all(np.isfinite(ev['res'])) or np.max(np.abs(np.concatenate(it['x']))) > 100:
        raise Skip('iterate too large')
    got = s.get_residuals(recompute=recompute)
    for i, n in enumerate(['stationarity', 'dynamics', 'inequality', 'complementarity']):
        expect_close('%s: %s residual' % (tag, n), got[i], res[i], 1e-6, 1e-7)
    if cost:
        expect_close(tag + ': cost', s.get_cost(), ev['cost'], 1e-8, 1e-8)
    return ev


def run(c):
    exact = c['ocp']['hess'] == 'EXACT'
    if c['solver'] == 'SQP_WITH_FEASIBLE_QP' and any(c['ocp'].get(k) for k in ('rev', 'lbs', 'cint')):
        c = dict(c, solver='SQP')
    globalized = c['solver'] == 'SQP_WITH_FEASIBLE_QP' or (c['solver'] == 'SQP' and c['glob'] != 'FIXED_STEP')
    if globalized and c['ocp']['nz'] and any(c['ocp'][k] for k in ('nh', 'nh0', 'nhe')):
        raise Skip('constraint values of nonlinear constraints with algebraic variables: documented as not implemented')
    rti = c['solver'] == 'SQP_RTI'
    sens = c['ocp']['nz'] > 0

    def opts(ocp):
        o = ocp.solver_options
        o.nlp_solver_type = c['solver']
        o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
        o.tau_min = float(c['tau'])
        if not rti:
            o.nlp_solver_max_iter = c['iters']
            o.eval_residual_at_max_iter = True
            if c['solver'] == 'SQP':
                o.globalization = c['glob']
        if c['solver'] == 'SQP_WITH_FEASIBLE_QP':
            o.globalization = 'FUNNEL_L1PEN_LINESEARCH'
        o.nlp_solver_tol_stat = o.nlp_solver_tol_eq = o.nlp_solver_tol_ineq = o.nlp_solver_tol_comp = 1e-12
    P, ocp, s = c03.build(c['ocp'], opts)
    moved = False
    try:
        for n, v in enumerate(c['it']):
            r = Rnd(v, 'vary', n)
            c03.vary(P, s, r, c['pvar'], c['yvar'])
            if c['bvar']:
                c03.vary_bounds(P, s, r)
            it = ocpgen.random_iterate(P, v, spread=0.3)
            ocpgen.set_iterate(s, P, it)
            if not sens:     # algebraic variables are only known after a linearization
                expect_close('cost of the given point', s.get_cost(), P.evaluate(it)['cost'], 1e-8, 1e-8)
            check(s, P, it, exact, c['tau'], 'given point %d' % n, True, cost=True)
            if n % 2 == 0 and c['iters']:
                status = s.solve()
                it = ocpgen.get_iterate(s, P)
                if not all(np.all(np.isfinite(q)) for l in it.values() for q in l):
                    raise Skip('diverged')
                moved = True
                if not rti and status in (0, 2):
                    check(s, P, it, exact, c['tau'], 'residuals left by the solver', False, cost=not sens)
                check(s, P, it, exact, c['tau'], 'after solve', True)
        lab = ocpgen.prob_labels(c['ocp']) + [c['solver']] + [k for k in ('pvar', 'yvar', 'bvar') if c[k]]
        if c['tau']:
            lab.append('tau')
        return {'labels': lab, 'nontrivial': not c['ocp']['linear'] or moved}
    finally:
        del s
        ocpgen.cleanup(ocp)
