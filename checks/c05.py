"""status 0 means the returned point satisfies the KKT conditions of the user's problem to the requested tolerances."""
import numpy as np
from hypothesis import strategies as st
import c03
import c04
import ocpgen
import solvercfg
from common import Rnd, expect, expect_close, Skip

init = c03.init


def convexify(c):
    """a strictly convex problem with a feasible point: linear dynamics, linear least squares, linear constraints"""
    c = dict(c, linear=True, cost='LINEAR_LS', coste='LINEAR_LS', nh=0, nh0=0, nhe=0, bgp=False, cint=False)
    if c['cost0']:
        c['cost0'] = 'LINEAR_LS'
    return c


@st.composite
def strategy_(draw, tier='quick', unconstrained=0.15, **kw):
    c = draw(ocpgen.spec(hess=('GAUSS_NEWTON', 'GAUSS_NEWTON', 'EXACT'), linear=True, **kw))
    convex = draw(st.booleans())
    if convex:
        c = convexify(c)
    o = draw(solvercfg.config())
    if o['type'] == 'DDP' or draw(st.integers(0, 9)) == 0:
        c = dict(c, **ocpgen.CONS_KEYS)
        if o['type'] == 'DDP':
            c['x0'], c['nz'] = 'x0', 0
    return {'ocp': c, 'convex': convex, 'cfg': solvercfg.coerce(o, c)}


@st.composite
def full(draw, tier):
    d = draw(strategy_(tier, integ=('ERK', 'ERK', 'IRK', 'DISCRETE', 'GNSF', 'LIFTED_IRK')))
    d['hist'] = draw(st.lists(st.tuples(st.sampled_from(['yref', 'p', 'x0', 'bounds', 'again', 'reset', 'perturb']),
                                        st.integers(0, 2 ** 20)).map(list), max_size=3))
    # the installed HPIPM neither eliminates a subset of the initial states nor solves QPs with shared slacks reliably
    d['ocp']['eq0'] = False
    d['ocp']['share'] = draw(st.integers(0, 7)) == 7
    d['start'] = draw(st.sampled_from(['default', 'nominal', 'random']))
    d['tau'] = draw(st.sampled_from([0, 0, 0, 1e-3]))
    if 'HPIPM' not in d['cfg']['qp']:
        d['tau'] = 0
    # tolerances that differ between the four kinds of residuals, set before the solver is created or at runtime
    d['tolf'] = [draw(st.sampled_from([1., 1., 1e1, 1e2, 1e4])) for _ in range(4)] if draw(st.integers(0, 1)) else [1.] * 4
    d['tolrt'] = draw(st.booleans())
    return d


def tolerances(c):
    return [max(c['cfg']['tol'], min(c['cfg']['tol'] * f, 1e-1)) for f in c.get('tolf', [1.] * 4)]


def strategy(tier):
    return full(tier)


def check_kkt(s, P, exact, tol, tau, tag, comp=True, dual=True):
    it = ocpgen.get_iterate(s, P)
    expect(all(np.all(np.isfinite(q)) for l in it.values() for q in l), tag + ': success reported with non-finite values')
    ev, res = c04.reference(P, it, exact, tau)
    names = ['stationarity', 'dynamics', 'inequality', 'complementarity']
    for i in range(4 if comp else 3):
        t = tol if np.ndim(tol) == 0 else tol[i]
        expect(res[i] <= t * 1.001 + 1e-9, '%s: success reported, but the %s residual of the problem is %.3e > tol %.1e\n(reported: %s)'
               % (tag, names[i], res[i], t, s.get_residuals()))
    for k in range(P.N + 1):
        lam = it['lam'][k].copy()
        nr = P.nrows(k)
        for i in P.eqrows(k):
            lam[i] = lam[nr + i] = 0
        expect(not dual or lam.size == 0 or lam.min() >= -1e-8, '%s: negative multiplier %s at stage %d' % (tag, lam, k))
    return it, ev


def library_gap(P):
    """the installed HPIPM returns a wrong point for unconstrained QPs with scalar states"""
    return P.nx == 1 and all(P.nrows(k) == len(P.eqrows(k)) for k in range(P.N + 1))


def must_succeed(c):
    o = c['cfg']
    return c['convex'] and not (c['ocp'].get('rev') and c['ocp'].get('share', True)) and c['ocp']['integ'] != 'LIFTED_IRK' and o['glob'] == 'FIXED_STEP' and o['type'] == 'SQP' and 'HPIPM' in o['qp'] and o['tolstrat'] == 'FIXED_QP_TOL' \
        and o['reg'] in ('NO_REGULARIZE', 'PROJECT', 'MIRROR') and o['lm'] == 0 and o['tol'] >= 1e-6 and o['mode'] != 'SPEED' \
        and not o['qscale'] and not o['warm'] and not o['warmfirst'] and not o['anderson'] and not c['tau'] and o['ric'] and o['cric']


def run(c):
    exact = c['ocp']['hess'] == 'EXACT'
    o = c['cfg']
    tol = tolerances(c)
    lifted = c['ocp']['integ'] == 'LIFTED_IRK'   # its stage values converge along with the iterates

    def opts(ocp):
        solvercfg.apply(o, ocp)
        so = ocp.solver_options
        so.tau_min = float(c['tau'])
        if not c.get('tolrt'):
            so.nlp_solver_tol_stat, so.nlp_solver_tol_eq, so.nlp_solver_tol_ineq, so.nlp_solver_tol_comp = tol
    P, ocp, s = c03.build(c['ocp'], opts)
    if c.get('tolrt') and min(tol) != max(tol):
        for name, t in zip(('stat', 'eq', 'ineq', 'comp'), tol):
            s.options_set('tol_' + name, t)
    nok = 0
    lab = []
    try:
        if c['start'] != 'default':
            r = Rnd(c['ocp']['seed'], 'start')
            f = 0.0 if c['start'] == 'nominal' else 0.3
            for k in range(P.N + 1):
                s.set(k, 'x', P.xn[k] + f * r.vec(P.nx))
                if k < P.N:
                    s.set(k, 'u', P.un[k] + f * r.vec(P.nu))
        feasible = True
        for n, (op, v) in enumerate([('again', 0)] + c['hist']):
            r = Rnd(v, 'hist', n)
            if op == 'yref':
                c03.vary(P, s, r, False, not o['fixhess'])
            elif op == 'p':
                c03.vary(P, s, r, True, False)
                feasible = feasible and not c['ocp']['np']
            elif op == 'bounds':
                c03.vary_bounds(P, s, r)
                feasible = False
            elif op == 'x0' and c['ocp']['x0'] == 'x0':
                x0 = P.xn[0] + 0.1 * r.vec(P.nx)
                nbu = len(P.con['idxbu'])
                P.lo[0][nbu:nbu + P.nx] = P.up[0][nbu:nbu + P.nx] = x0
                s.constraints_set(0, 'lbx', x0)
                s.constraints_set(0, 'ubx', x0)
                feasible = False
            elif op == 'reset':
                s.reset()
                if c['ocp']['np']:
                    for k in range(P.N + 1):
                        s.set(k, 'p', P.P[k])
            elif op == 'perturb':
                it = ocpgen.random_iterate(P, v, 0.2)
                ocpgen.set_iterate(s, P, it)
            if 'OSQP' in o['qp'] and any(np.any(np.abs(b) >= ocpgen.INF) for b in P.lo + P.up):
                raise Skip('one-sided bounds are not offered with OSQP')
            if o['type'] == 'SQP_RTI':
                ok = False
                for _ in range(30):
                    status = s.solve()
                    if status not in (0, 5):
                        break
                    ok = False
                    it = ocpgen.get_iterate(s, P)
                    if not all(np.all(np.isfinite(q)) for q in it['x']) or np.max(np.abs(np.concatenate(it['x']))) > 100:
                        break
                    if np.all(np.array(s.get_residuals(recompute=True)) <= tol):
                        ok = True
                        break
                status = 0 if ok else 2
            else:
                status = s.solve()
                expect(status == s.get_status(), 'solve returned %d, get_status %d' % (status, s.get_status()))
                expect(status in (0, 1, 2, 3, 4, 6, 7, 9), 'undocumented status %d' % status)
                ni = int(s.get_stats('sqp_iter' if o['type'] != 'DDP' else 'nlp_iter'))
                expect(0 <= ni <= 200, 'iteration count %d with max_iter 200' % ni)
                if status == 2:
                    expect(ni == 200, 'status max_iter after %d of 200 iterations' % ni)
            lab.append('status%d' % status)
            if status == 0:
                nok += 1
                it, ev = check_kkt(s, P, exact, np.array(tol) * (10 if lifted else 1), c['tau'], 'solve %d (%s)' % (n, op), o['type'] != 'DDP',
                                   not o['anderson'])     # Anderson extrapolation does not keep the sign of multipliers
                if o['type'] != 'SQP_RTI':
                    if not P.nz and not lifted:
                        expect_close('cost after success', s.get_cost(), ev['cost'], 1e-8, 1e-8)
            elif must_succeed(c) and feasible and not library_gap(P):
                expect(False, 'strictly convex feasible problem: solve %d (%s) returned status %d, residuals %s'
                       % (n, op, status, s.get_residuals()))
        return {'labels': ocpgen.prob_labels(c['ocp']) + solvercfg.labels(o) + lab, 'nontrivial': nok > 0}
    finally:
        del s
        ocpgen.cleanup(ocp)
