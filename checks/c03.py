"""QP data at an iterate equals the linearization of the user's problem (and C04: cost, residuals)."""
import numpy as np
from hypothesis import strategies as st
import ocpgen
from common import Rnd, expect, expect_close, Skip, Violation


INTEG = ('ERK', 'ERK', 'IRK', 'IRK', 'DISCRETE', 'GNSF')


def init(job):
    import acados_template.utils as U
    U.is_tera_version_sufficient = lambda *a: True


def strategy(tier):
    return st.fixed_dictionaries({
        'ocp': ocpgen.spec(integ=INTEG, hess=('GAUSS_NEWTON', 'GAUSS_NEWTON', 'EXACT'), linear=True),
        'it': st.lists(st.integers(0, 2 ** 30), min_size=1, max_size=3),
        'solver': st.sampled_from(['SQP', 'SQP', 'RTI']),
        'pvar': st.booleans(), 'yvar': st.booleans(), 'bvar': st.booleans(),
    })


def build(c, opts=None):
    from acados_template import AcadosOcpSolver
    P = ocpgen.Problem(c)
    ocp = P.acados()
    if opts:
        opts(ocp)
    try:
        s = AcadosOcpSolver(ocp, verbose=False)
    except BaseException:
        ocpgen.cleanup(ocp)
        raise
    return P, ocp, s


def vary(P, s, r, pvar, yvar, ks=None):
    """stage-wise parameters and references set after creation"""
    if pvar and P.c['np']:
        for k in range(P.N + 1) if ks is None else ks:
            P.P[k] = P.P[k] + 0.3 * r.vec(P.c['np'])
            s.set(k, 'p', P.P[k])
    if yvar:
        for k in range(P.N + 1) if ks is None else ks:
            if P.yref[k].size and r.bool():
                P.yref[k] = P.yref[k] + 0.4 * r.vec(P.yref[k].size)
                s.cost_set(k, 'yref', P.yref[k])
            if P.W[k].size and r.bool() and P.cost[P.kinds[k]]['type'] != 'CONVEX_OVER_NONLINEAR':
                f = r.unif(0.5, 2.0)
                P.W[k] = P.W[k] * f
                s.cost_set(k, 'W', P.W[k])


def vary_bounds(P, s, r, inf=True, ks=None):
    """bounds changed after creation, including to and from infinity (inf=False: the same sides stay infinite)"""
    C = P.con
    for k in range(P.N + 1) if ks is None else ks:
        nbu = len(C['idxbu']) if k < P.N else 0
        nbx = len(C['idxbx' + P.key(k)])
        nh = C['nh' + P.key(k)]
        ng = P.nrows(k) - nbu - nbx - nh
        off = 0
        eq = set(P.eqrows(k))
        for name, n in (('bu', nbu), ('bx', nbx), ('g', ng), ('phi' if P.c['bgp'] else 'h', nh)):
            rows = range(off, off + n)
            off += n
            if not n or not r.bool(0.4) or any(i in eq for i in rows):
                continue
            for i in rows:
                base = [x for x in (P.lo[k][i], P.up[k][i]) if abs(x) < ocpgen.INF]
                mid = sum(base) / len(base) if base else 0.0
                if not inf:
                    if P.lo[k][i] > -ocpgen.INF and name != 'phi':
                        P.lo[k][i] = mid - r.unif(0.05, 1.0)
                    if P.up[k][i] < ocpgen.INF:
                        P.up[k][i] = max(mid, P.lo[k][i]) + r.unif(0.05, 1.0)
                    continue
                if name == 'phi':        # the interface documents 'uphi' only
                    P.up[k][i] = ocpgen.INF if r.bool(0.25) else max(mid, P.lo[k][i]) + r.unif(0.05, 1.0)
                    continue
                P.lo[k][i] = -ocpgen.INF if r.bool(0.25) else mid - r.unif(0.05, 1.0)
                P.up[k][i] = ocpgen.INF if r.bool(0.25) else mid + r.unif(0.05, 1.0)
            sides = [('l', P.lo), ('u', P.up)]
            if r.bool():
                sides.reverse()
            if name == 'phi':
                sides = [('u', P.up)]
            for q, v in sides:
                s.constraints_set(k, q + name, v[k][list(rows)])


def dense_hess(s, k, P):
    Q = s.get_from_qp_in(k, 'Q')
    if k == P.N:
        return Q
    R, S = s.get_from_qp_in(k, 'R'), s.get_from_qp_in(k, 'S')
    nx = P.nx
    H = np.zeros((P.n, P.n))
    H[:nx, :nx], H[nx:, nx:], H[nx:, :nx], H[:nx, nx:] = Q, R, S, S.T
    return H


def compare_qp(s, P, it, ev, exact, tag='', ks=None):
    for k in range(P.N + 1) if ks is None else ks:
        e = ev['st'][k]
        w = '%sstage %d: ' % (tag, k)
        if k < P.N:
            A = np.hstack([s.get_from_qp_in(k, 'A'), s.get_from_qp_in(k, 'B')])
            expect_close(w + '[A B]', A, e['A'], 1e-7, 1e-8)
            expect_close(w + 'b', s.get_from_qp_in(k, 'b').ravel(), e['b'], 1e-7, 1e-8)
        g = s.get_from_qp_in(k, 'q').ravel()
        if k < P.N:
            g = np.concatenate([g, s.get_from_qp_in(k, 'r').ravel()])
        expect_close(w + 'cost gradient', g, e['costgrad'], 1e-7, 1e-8)
        expect_close(w + 'Hessian', dense_hess(s, k, P), e['H'], 1e-5 if exact else 1e-7, 2e-6 if exact else 1e-8)
        if P.ns(k):
            expect_close(w + 'zl', s.get_from_qp_in(k, 'zl').ravel(), e['gsl'], 1e-8, 1e-9)
            expect_close(w + 'zu', s.get_from_qp_in(k, 'zu').ravel(), e['gsu'], 1e-8, 1e-9)
            expect_close(w + 'Zl', s.get_from_qp_in(k, 'Zl').ravel(), e['Zl'], 1e-8, 1e-9)
            expect_close(w + 'Zu', s.get_from_qp_in(k, 'Zu').ravel(), e['Zu'], 1e-8, 1e-9)
            expect_close(w + 'lls', s.get_from_qp_in(k, 'lls').ravel(), P.lsb[k] - it['sl'][k], 1e-8, 1e-9)
            expect_close(w + 'lus', s.get_from_qp_in(k, 'lus').ravel(), P.usb[k] - it['su'][k], 1e-8, 1e-9)
        # constraint rows: bounds in step form on present sides
        C = P.con
        nbu = len(C['idxbu']) if k < P.N else 0
        nb = nbu + len(C['idxbx' + P.key(k)])
        ng = P.nrows(k) - nb
        M = P.slack_map(k)
        dlo = P.lo[k] - e['c'] - M @ it['sl'][k]
        dup = P.up[k] - e['c'] + M @ it['su'][k]
        ml, mu = P.masks(k)
        lo = np.zeros(P.nrows(k))
        up = np.zeros(P.nrows(k))
        gm_l, gm_u = np.ones(P.nrows(k)), np.ones(P.nrows(k))
        for a, b, names in ((0, nbu, ('lbu', 'ubu')), (nbu, nb, ('lbx', 'ubx')), (nb, nb + ng, ('lg', 'ug'))):
            if b > a:
                lo[a:b] = s.get_from_qp_in(k, names[0]).ravel()
                up[a:b] = s.get_from_qp_in(k, names[1]).ravel()
                gm_l[a:b] = s.get_from_qp_in(k, names[0] + '_mask').ravel()
                gm_u[a:b] = s.get_from_qp_in(k, names[1] + '_mask').ravel()
        expect_close(w + 'lower masks', gm_l, ml)
        expect_close(w + 'upper masks', gm_u, mu)
        expect_close(w + 'lower bounds', lo * ml, np.where(ml > 0, dlo, 0), 1e-7, 1e-8)
        expect_close(w + 'upper bounds', up * mu, np.where(mu > 0, dup, 0), 1e-7, 1e-8)
        if nb:
            idx = s.get_from_qp_in(k, 'idxb').ravel()
            want = [i for i in C['idxbu']] if k < P.N else []
            want = want + [(P.nu if k < P.N else 0) + i for i in C['idxbx' + P.key(k)]]
            expect(list(idx) == want, w + 'idxb %s, expected %s' % (list(idx), want))
        if ng:
            G = s.get_from_qp_in(k, 'C')
            if k < P.N and P.nu:
                G = np.hstack([G, s.get_from_qp_in(k, 'D')])
            expect_close(w + '[C D]', G, e['J'][nb:], 1e-7, 1e-8)
        rev = s.get_from_qp_in(k, 'idxs_rev').ravel()
        expect(list(rev) == list(P.con['rev' + P.key(k)]), w + 'idxs_rev %s, expected %s' % (list(rev), P.con['rev' + P.key(k)]))


def run(c):
    exact = c['ocp']['hess'] == 'EXACT'

    def opts(ocp):
        o = ocp.solver_options
        o.nlp_solver_type = 'SQP' if c['solver'] == 'SQP' else 'SQP_RTI'
        o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
        if c['solver'] == 'SQP':
            o.nlp_solver_max_iter = 0
            o.eval_residual_at_max_iter = True
    P, ocp, s = build(c['ocp'], opts)
    try:
        for n, v in enumerate(c['it']):
            r = Rnd(v, 'vary', n)
            vary(P, s, r, c['pvar'], c['yvar'])
            if c.get('bvar'):
                vary_bounds(P, s, r)
            it = ocpgen.random_iterate(P, v)
            ocpgen.set_iterate(s, P, it)
            if c['solver'] == 'RTI':
                # the feedback phase pins the initial state, so both phases are compared at the given iterate
                s.options_set('rti_phase', 1)
                status = s.solve()
                expect(status in (0, 5), 'preparation phase status %s' % status)
            else:
                status = s.solve()
                expect(status in (0, 2), 'status %s with zero iterations' % status)
            ev = P.evaluate(it, exact)
            if max(np.max(np.abs(e['c'])) if e['c'].size else 0 for e in ev['st']) > 1e3:
                raise Skip('iterate too large')
            if c['solver'] == 'SQP':
                compare_qp(s, P, it, ev, exact, 'iterate %d ' % n)
            else:
                for k in range(P.N + 1):
                    e = ev['st'][k]
                    if k < P.N:
                        A = np.hstack([s.get_from_qp_in(k, 'A'), s.get_from_qp_in(k, 'B')])
                        expect_close('rti stage %d: [A B]' % k, A, e['A'], 1e-7, 1e-8)
                    expect_close('rti stage %d: Hessian' % k, dense_hess(s, k, P), e['H'], 1e-5 if exact else 1e-7, 2e-6 if exact else 1e-8)
            got = get_nothing = None
        lab = ocpgen.prob_labels(c['ocp']) + [c['solver']] + [k for k in ('pvar', 'yvar', 'bvar') if c.get(k)]
        return {'labels': lab, 'nontrivial': not c['ocp']['linear'] or c['ocp']['cost'] != 'LINEAR_LS'}
    finally:
        del s
        ocpgen.cleanup(ocp)
