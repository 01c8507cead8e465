"""Solution sensitivities (forward, adjoint) and value-function derivatives equal the implicit derivative of the user's problem."""
import numpy as np
from hypothesis import strategies as st
import c03
import c04
import ocpgen
from common import Rnd, expect, expect_close, Skip

init = c03.init


def base(draw, kind):
    if kind == 'p':
        return ocpgen.spec(integ=('DISCRETE',), hess=('EXACT',), phi=False, z=False, costs=('EXTERNAL', 'EXTERNAL', 'LINEAR_LS'),
                           linear=True, cint=False, tdep=False, maxnx=3, maxN=4)
    return ocpgen.spec(integ=('ERK', 'IRK', 'DISCRETE'), hess=('EXACT',), phi=False, z=False, linear=True, cint=False, tdep=False,
                       maxnx=3, maxN=4)


@st.composite
def full(draw, tier):
    kind = draw(st.sampled_from(['p', 'p', 'p', 'x0']))
    c = draw(base(draw, kind))
    if kind == 'p' and not c['npg']:
        c['npg'] = draw(st.integers(1, 2))
    if kind == 'x0':
        c['x0'] = 'x0'
    c['eq0'] = c['share'] = False
    d = {'kind': kind, 'ocp': c}
    d['type'] = draw(st.sampled_from(['SQP', 'SQP', 'SQP_RTI', 'SQP_WITH_FEASIBLE_QP']))
    if d['type'] == 'SQP_WITH_FEASIBLE_QP' and (c['rev'] or c['lbs']):
        d['type'] = 'SQP'
    d['tau'] = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 0]))
    d['condN'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    d['full'] = draw(st.integers(0, 5)) == 5
    d['hist'] = draw(st.lists(st.tuples(st.sampled_from(['p', 'yref', 'x0', 'pg', 'load', 'cost_p']), st.integers(0, 2 ** 20)).map(list), max_size=2))
    d['stages'] = draw(st.integers(0, 2 ** 20))
    d['ric'] = draw(st.sampled_from([1, 1, 0]))
    d['mode'] = draw(st.sampled_from(['BALANCE', 'BALANCE', 'ROBUST']))
    return d


def strategy(tier):
    return full(tier)


def Fvec(P, it, pg):
    """stationarity and dynamics residuals and constraint values at a fixed primal-dual point for global parameter pg"""
    old = P.pg
    P.pg = pg
    try:
        ev = P.evaluate(it, False)
    finally:
        P.pg = old
    lag = ev['cost']
    for k, s in enumerate(ev['st']):
        if k < P.N:
            lag += it['pi'][k] @ s['b']
        lag += np.where(s['mask'] > 0, it['lam'][k], 0.0) @ np.where(s['mask'] > 0, s['ineq'], 0.0)
    return [s['stat'] for s in ev['st']], [s['b'] for s in ev['st'][:-1]], [np.where(s['mask'] > 0, s['ineq'], 0.0) for s in ev['st']], lag


def reference(P, it, kind):
    """implicit derivative of (x,u,sl,su,pi,lam) at the point `it`; complementarity lam*t = const is linearized at (lam, t)"""
    ev = P.evaluate(it, True)
    N, nx = P.N, P.nx
    dim, off = [], 0
    for k in range(N + 1):
        n, ns, nr = (nx if k == N else P.n), P.ns(k), P.nrows(k)
        b = {'w': off, 'nw': n + 2 * ns, 'n': n, 'ns': ns, 'nr': nr}
        off += b['nw']
        b['pi'] = off
        off += nx if k < N else 0
        b['lam'] = off
        b['nl'] = 2 * nr + 2 * ns
        off += b['nl']
        dim.append(b)
    nvar = off
    npar = nx if kind == 'x0' else P.pg.size
    M, R = np.zeros((nvar, nvar)), np.zeros((nvar, npar))
    worst, ratio = np.inf, 0.0
    for k in range(N + 1):
        b, s = dim[k], ev['st'][k]
        n, ns, nr, w = b['n'], b['ns'], b['nr'], b['w']
        if np.min(np.linalg.eigvalsh(s['H'])) < 1e-3:
            raise Skip('Hessian not positive definite')
        M[w:w + n, w:w + n] = s['H']
        for i in range(ns):
            M[w + n + i, w + n + i] = s['Zl'][i]
            M[w + n + ns + i, w + n + ns + i] = s['Zu'][i]
        # inequality functions f(w) <= 0: Jacobian of [fl fu fls fus]
        Mk = P.slack_map(k)
        G = np.zeros((b['nl'], b['nw']))
        G[:nr, :n], G[:nr, n:n + ns] = -s['J'], -Mk
        G[nr:2 * nr, :n], G[nr:2 * nr, n + ns:] = s['J'], -Mk
        G[2 * nr:2 * nr + ns, n:n + ns] = -np.eye(ns)
        G[2 * nr + ns:, n + ns:] = -np.eye(ns)
        L = b['lam']
        M[w:w + b['nw'], L:L + b['nl']] = G.T
        if k < N:
            q = b['pi']
            M[w:w + n, q:q + nx] = s['A'].T
            M[q:q + nx, w:w + n] = s['A']
            wn = dim[k + 1]['w']
            M[q:q + nx, wn:wn + nx] = -np.eye(nx)
            M[wn:wn + nx, q:q + nx] = -np.eye(nx)
        lam = it['lam'][k]
        eq = P.eqrows(k)
        for i in range(b['nl']):
            r = L + i
            if i in eq:                      # x = x0: kept as an equation, the upper side carries no multiplier of its own
                M[r, w:w + b['nw']] = G[i]
                if kind == 'x0':
                    R[r, eq.index(i)] = 1.0   # f = x0 - x
            elif (i - nr) in eq and nr <= i < 2 * nr or not s['mask'][i]:
                M[r, r] = 1.0
            else:
                t = -s['ineq'][i]
                worst = min(worst, max(lam[i], t))
                ratio = max(ratio, lam[i] / max(t, 1e-18))
                # lam * df + f * dlam = 0
                M[r, w:w + b['nw']] = lam[i] * G[i]
                M[r, r] = -t
    dl = None
    if kind == 'p':
        h = 1e-4
        dl = np.zeros(npar)
        for j in range(npar):
            e = np.zeros(npar)
            e[j] = h
            F = [Fvec(P, it, P.pg + a * e) for a in (2, 1, -1, -2)]

            def fd(g):
                return (-g(F[0]) + 8 * g(F[1]) - 8 * g(F[2]) + g(F[3])) / (12 * h)
            dl[j] = fd(lambda o: o[3])
            for k in range(N + 1):
                b, s = dim[k], ev['st'][k]
                R[b['w']:b['w'] + b['nw'], j] = fd(lambda o: o[0][k])
                if k < N:
                    R[b['pi']:b['pi'] + nx, j] = fd(lambda o: o[1][k])
                df = fd(lambda o: o[2][k])
                for i in range(b['nl']):
                    if not s['mask'][i] or i in P.eqrows(k) or nr_eq(P, k, i):
                        continue
                    R[b['lam'] + i, j] = it['lam'][k][i] * df[i]
    cond = np.linalg.cond(M)
    if not cond < 1e9:
        raise Skip('KKT matrix ill-conditioned')
    D = np.linalg.solve(M, -R)
    out = {q: [] for q in ('x', 'u', 'sl', 'su', 'pi', 'lam')}
    for k in range(N + 1):
        b = dim[k]
        w, ns, nr = b['w'], b['ns'], b['nr']
        out['x'].append(D[w:w + nx])
        out['u'].append(D[w + nx:w + b['n']])
        out['sl'].append(D[w + b['n']:w + b['n'] + ns])
        out['su'].append(D[w + b['n'] + ns:w + b['nw']])
        if k < N:
            out['pi'].append(D[b['pi']:b['pi'] + nx])
        out['lam'].append(D[b['lam']:b['lam'] + b['nl']])
    return out, dl, (worst, ratio), ev


def nr_eq(P, k, i):
    nr = P.nrows(k)
    return nr <= i < 2 * nr and (i - nr) in P.eqrows(k)


def fold_eq(P, k, L):
    """multipliers of equality rows are determined up to the split between lower and upper: keep the difference"""
    L = L.copy()
    nr = P.nrows(k)
    for i in P.eqrows(k):
        L[i] -= L[nr + i]
        L[nr + i] = 0
    return L


def flat(s):
    return np.concatenate([s.get_flat(q) for q in ('x', 'u', 'sl', 'su', 'pi', 'lam')])


def solve(s, P, c):
    # the derivatives belong to the last QP: it has to be built at the solution, not one (large) step before it
    if c['type'] != 'SQP_RTI':
        st_ = s.solve()
        if st_ == 0 and s.get_stats('sqp_iter') == 1:
            st_ = s.setup_qp_matrices_and_factorize()
        return st_
    for _ in range(60):
        old = flat(s)
        st_ = s.solve()
        if st_ not in (0, 5):
            return st_
        rs = s.get_residuals(recompute=True)
        if max(rs[:3]) < c['tol'] and rs[3] < max(c['tol'], 2 * c['tau']) and np.max(np.abs(flat(s) - old)) < 1e-5:
            return 0
    return 2


def run(c):
    kind = c['kind']
    N = c['ocp']['N']
    c['tol'] = 1e-9

    def opts(ocp):
        o, g = ocp.solver_options, ocp.code_gen_options
        if kind == 'p':
            g.with_solution_sens_wrt_params_forw = True
            g.with_solution_sens_wrt_params_adj = True
            g.with_value_sens_wrt_params = True
        o.qp_solver = 'FULL_CONDENSING_HPIPM' if c['full'] else 'PARTIAL_CONDENSING_HPIPM'
        o.qp_solver_cond_N = min(c['condN'], N) if c['condN'] else N
        o.nlp_solver_type = c['type']
        if c['type'] == 'SQP_WITH_FEASIBLE_QP':
            o.globalization = 'FUNNEL_L1PEN_LINESEARCH'
        o.tau_min = float(c['tau'])
        o.hpipm_mode = c['mode']
        o.qp_solver_ric_alg = o.qp_solver_cond_ric_alg = c['ric']
        o.nlp_solver_tol_stat = o.nlp_solver_tol_eq = o.nlp_solver_tol_ineq = o.nlp_solver_tol_comp = c['tol']
        o.qp_solver_iter_max = 200
        o.nlp_solver_max_iter = 100
        if c['type'] == 'SQP_RTI':
            o.qp_tol = c['tol'] / 10
        if c['tau']:
            # the QP solver leaves the products lam*t near tau, the derivative is taken at the values it leaves
            o.nlp_solver_tol_comp = 2.0 * c['tau']
        else:
            # strict complementarity is resolved only if the QP is solved to a smaller barrier parameter
            o.qp_solver_tol_comp = 1e-11
        if c['tau']:
            o.qp_solver_tol_comp = 1e-9
    P, ocp, s = c03.build(c['ocp'], opts)
    lab, nok = [], 0
    try:
        for n, (op, v) in enumerate([('first', 0)] + c['hist']):
            r = Rnd(v, 'hist', n)
            if op == 'p':
                c03.vary(P, s, r, True, False)
            elif op == 'yref':
                c03.vary(P, s, r, False, True)
            elif op == 'x0' and c['ocp']['x0'] == 'x0':
                x0 = P.xn[0] + 0.1 * r.vec(P.nx)
                nbu = len(P.con['idxbu'])
                P.lo[0][nbu:nbu + P.nx] = P.up[0][nbu:nbu + P.nx] = x0
                s.constraints_set(0, 'lbx', x0)
                s.constraints_set(0, 'ubx', x0)
            elif op == 'pg' and P.pg.size:
                P.pg = P.pg + 0.2 * r.vec(P.pg.size)
                s.set_p_global_and_precompute_dependencies(P.pg)
            elif op == 'cost_p':
                for k in range(N + 1):
                    for q in ('zl', 'zu', 'Zl', 'Zu'):
                        if P.ns(k):
                            P.pen[k][q] = P.pen[k][q] * r.unif(0.5, 2.0)
                            s.cost_set(k, q, P.pen[k][q])
            status = solve(s, P, c)
            if op == 'load' and status == 0:
                it = ocpgen.get_iterate(s, P)
                ocpgen.set_iterate(s, P, ocpgen.random_iterate(P, v, 0.1))
                ocpgen.set_iterate(s, P, it)
                status = s.setup_qp_matrices_and_factorize()
                expect(status == 0, 'setup_qp_matrices_and_factorize at a solution: status %d' % status)
                for q, l in ocpgen.get_iterate(s, P).items():
                    for k in range(len(l)):
                        expect(np.array_equal(l[k], it[q][k]), 'setup_qp_matrices_and_factorize changed %s at stage %d' % (q, k))
                lab.append('factorized at a loaded solution')
            if status != 0:
                lab.append('status%d tau%g' % (status, c['tau']))
                continue
            it = ocpgen.get_iterate(s, P)
            ref, dl, (worst, ratio), ev = reference(P, it, kind)
            if worst < (1e-3 if not c['tau'] else 0.1 * c['tau'] ** 0.5) or (not c['tau'] and op == 'load'):
                lab.append('degenerate')
                continue
            if ratio > 1e12:
                # the barrier Hessian lam/t of the factorized QP leaves no digits of the problem's own Hessian
                lab.append('active set not resolvable')
                continue
            # with tau = 0 the interior point method keeps lam*t slightly positive
            rt, at = (5e-4, 5e-5) if not c["tau"] else (2e-3, 2e-4)
            nok += 1
            check_values(s, P, it, ev, ref, dl, kind, c, rt, at)
            check_forward(s, P, ref, kind, c, n, rt, at)
            if kind == 'p':
                check_adjoint(s, P, ref, c, n, rt, at)
                check_forward(s, P, ref, kind, c, n + 7, rt, at)
                if c['ocp']['x0'] == 'x0' and n % 2 == 0:
                    check_x0(s, P, it, c, rt, at)
            else:
                Hr = fold_eq(P, 0, ref['lam'][0])[P.eqrows(0)]
                if c['ric'] == 0 and not c['full'] and c['condN'] == 0:
                    H = s.eval_and_get_optimal_value_hessian('initial_state')
                    expect_close('value Hessian wrt initial state', H, Hr, rt, at)
                    lab.append('value Hessian')
                L = s.eval_solution_sensitivity(0, 'initial_state', False, False, return_sens_lam=True, sanity_checks=False)['sens_lam']
                expect_close('value Hessian from d lam / d x0', fold_eq(P, 0, L)[P.eqrows(0)], Hr, rt, at)
        return {'labels': ocpgen.prob_labels(c['ocp']) + lab + [kind, c['type'], 'tau%g' % c['tau']], 'nontrivial': nok > 0}
    finally:
        del s
        ocpgen.cleanup(ocp)


def check_x0(s, P, it, c, rt, at):
    ref = reference(P, it, 'x0')[0]
    o = s.eval_solution_sensitivity(list(range(P.N + 1)), 'initial_state', sanity_checks=False)
    for k in range(P.N + 1):
        expect_close('d x_%d / d x0 (parametric solver)' % k, o['sens_x'][k], ref['x'][k], rt, at)
    for k in range(P.N):
        expect_close('d u_%d / d x0 (parametric solver)' % k, o['sens_u'][k], ref['u'][k], rt, at)


def check_values(s, P, it, ev, ref, dl, kind, c, rt, at):
    if kind == 'p':
        g = s.eval_and_get_optimal_value_gradient('p_global')
        expect_close('value gradient wrt p_global', g, dl, 1e-6, 1e-7)
    if c['ocp']['x0'] == 'x0':
        g = s.eval_and_get_optimal_value_gradient('initial_state')
        # stationarity of the remaining Lagrangian with respect to x_0
        e = ev['st'][0]
        lam = it['lam'][0].copy()
        nr = P.nrows(0)
        for i in P.eqrows(0):
            lam[i] = lam[nr + i] = 0
        gr = e['grad'][:P.nx] + (e['A'].T @ it['pi'][0])[:P.nx] - (e['J'].T @ (lam[:nr] - lam[nr:2 * nr]))[:P.nx]
        expect_close('value gradient wrt initial state', g, gr, 1e-6, 1e-7)


def check_forward(s, P, ref, kind, c, n, rt, at):
    r = Rnd(c['stages'], n)
    wrt = 'p_global' if kind == 'p' else 'initial_state'
    scalar = r.bool(0.25)
    stages = r.int(0, P.N) if scalar else sorted(r.subset(P.N + 1, r.int(1, P.N + 1)))
    fl = {'return_sens_' + q: bool(r.bool(0.7)) for q in ('x', 'u', 'pi', 'lam', 'sl', 'su')}
    if scalar and stages == P.N:
        fl['return_sens_u'] = fl['return_sens_pi'] = False
    o = s.eval_solution_sensitivity(stages, wrt, sanity_checks=False, **fl)
    for q in ('x', 'u', 'pi', 'lam', 'sl', 'su'):
        key = 'sens_' + q
        expect((key in o) == fl['return_' + key], '%s returned: %s, requested: %s' % (key, key in o, fl['return_' + key]))
        if key not in o:
            continue
        if scalar:
            L, ks = [o[key]], [stages]
        else:
            L, ks = o[key], [k for k in stages if k < P.N or q not in ('u', 'pi')]
            expect(len(L) == len(ks), '%s has %d entries for stages %s' % (key, len(L), stages))
        for k, v in zip(ks, L):
            a, b = np.asarray(v), ref[q][k]
            if q == 'lam':
                a, b = fold_eq(P, k, a), fold_eq(P, k, b)
            expect_close('d %s_%d / d %s' % (q, k, wrt), a, b, rt, at)


def check_adjoint(s, P, ref, c, n, rt, at):
    r = Rnd(c['stages'], 'adj', n)
    ns = r.int(1, 2)
    sx = [(k, r.mat(P.nx, ns)) for k in sorted(r.subset(P.N + 1, r.int(0, P.N + 1)))]
    su = [(k, r.mat(P.nu, ns)) for k in sorted(r.subset(P.N, r.int(0 if sx else 1, P.N)))]
    g = s.eval_adjoint_solution_sensitivity(sx or None, su or None, sanity_checks=False)
    b = np.zeros((ns, P.pg.size))
    for k, m in sx:
        b += m.T @ ref['x'][k]
    for k, m in su:
        b += m.T @ ref['u'][k]
    expect_close('adjoint solution sensitivity', g, b, rt, at)
