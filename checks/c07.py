"""QP solvers: success means the KKT conditions of the stated QP hold; feasible strictly convex QPs are solved; infeasible ones are not."""
import json
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
import qpgen
from common import expect, expect_close, Rnd, Skip

SOLVERS = ['PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM',
           'PARTIAL_CONDENSING_OSQP', 'casadi']


@st.composite
def strategy_(draw):
    return {'qp': draw(qpgen.spec()), 'solver': draw(st.sampled_from(SOLVERS)), 'condN': draw(st.integers(0, 5)),
            'block': draw(st.integers(0, 2 ** 20)) if draw(st.booleans()) else None,
            'mode': draw(st.sampled_from(['BALANCE', 'BALANCE', 'ROBUST', 'SPEED'])), 'cric': draw(st.integers(0, 1)),
            'mu0': draw(st.sampled_from([None, None, 1.0, 100.0])), 't0': draw(st.sampled_from([2, 2, 1, 0])),
            'warm': draw(st.sampled_from([0, 0, 1, 2])), 'repeat': draw(st.integers(1, 2)), 'json': draw(st.booleans())}


def strategy(tier):
    return strategy_()


def make(Q, use_json):
    from acados_template import AcadosOcpQp
    if not use_json:
        qp = AcadosOcpQp(Q.N)
        for f, k, v in Q.fields():
            qp.set(f, k, v)
        return qp
    lN = len(str(Q.N + 1))
    d = {'%s_%s' % (f, str(k).zfill(lN)): np.asarray(v).tolist() for f, k, v in Q.fields() if np.asarray(v).size}
    fd, path = tempfile.mkstemp(suffix='.json', dir='.')
    with os.fdopen(fd, 'w') as f:
        json.dump(d, f)
    qp = AcadosOcpQp.from_json(path)
    os.unlink(path)
    return qp


def blocks(v, N, condN):
    """condN blocks of at least one stage, the last block possibly empty"""
    r = Rnd(v, 'blocks')
    cut = sorted(i + 1 for i in r.subset(N, condN))
    return [b - a for a, b in zip([0] + cut, cut + [N])]


def licq(Q, it):
    for k in range(Q.N):
        nx, nu = Q.nx[k], Q.nu[k]
        rows = [np.hstack([Q.B[k], Q.A[k], -np.eye(Q.nx[k + 1])])]
        y = Q.J[k] @ np.concatenate([it['u'][k], it['x'][k]])
        for i in range(len(y)):
            if np.isclose(y[i], Q.lo[k][i]) or np.isclose(y[i], Q.up[k][i]):
                rows.append(np.concatenate([Q.J[k][i], np.zeros(Q.nx[k + 1])])[None])
        M = np.vstack(rows)
        if np.linalg.matrix_rank(M) < M.shape[0]:
            return False
    return True


def run(c):
    from acados_template import AcadosOcpQpSolver, AcadosOcpQpOptions, AcadosCasadiOcpQpSolver
    q = dict(c['qp'])
    name = c['solver']
    if 'OSQP' in name:
        q['mask'] = False
    if name != 'casadi':
        # outside what the installed HPIPM library offers (see DESIGN.md)
        q['smask'] = q['share'] = False
        if c['mode'] == 'SPEED':
            q['mask'] = False
        if q['x0'] == 'part':
            q['x0'] = 'eq'
    if 'PARTIAL' in name:
        q['N'] = max(q['N'], 1)      # the installed HPIPM divides by the horizon length in its partial condensing
    Q = qpgen.QP(q)
    N = Q.N
    if 'HPIPM' in name and min(Q.nx) == 1 and all(Q.J[k].shape[0] == len(Q.eq[k]) for k in range(N + 1)):
        raise Skip('the installed HPIPM returns a wrong point for unconstrained QPs with scalar states')
    qp = make(Q, c['json'] and all(Q.nu[:N]))
    lab = [name] + [k for k in ('share', 'mask', 'smask', 'vardim', 'nuN') if q[k]] + ['infeasible'] * Q.infeas + ['soft'] * any(Q.ns) + ['json'] * c['json']
    if name == 'casadi':
        s = AcadosCasadiOcpQpSolver(qp, solver_opts={'ipopt': {'print_level': 0, 'tol': 1e-9, 'sb': 'yes'}, 'print_time': False})
        get = s.get
    else:
        o = AcadosOcpQpOptions()
        o.qp_solver = name
        if 'PARTIAL' in name:
            o.cond_N = min(c['condN'], N) if c['condN'] else N
            if c['block'] is not None and N and 'HPIPM' in name:
                o.cond_block_size = blocks(c['block'], N, o.cond_N)
        o.cond_ric_alg = c['cric']
        if 'HPIPM' in name:
            o.hpipm_mode = c['mode']
            o.t0_init = c['t0']
            if c['mu0']:
                o.mu0 = c['mu0']
        o.warm_start = c['warm'] if 'HPIPM' in name else 0
        tol = 1e-8 if 'OSQP' not in name else 1e-6
        o.tol_stat = o.tol_eq = o.tol_ineq = o.tol_comp = tol
        o.iter_max = 200 if 'OSQP' not in name else 50000
        s = AcadosOcpQpSolver(qp, o)

        def get(k, f):
            return s.get(k, f, unique_duals=False)
    ok = 0
    for n in range(c['repeat']):
        status = s.solve()
        if Q.infeas:
            expect(status != 0, 'infeasible QP: solve returned status 0')
            continue
        must = name in ('casadi', 'FULL_CONDENSING_DAQP') or ('HPIPM' in name and c['mode'] != 'SPEED' and c['t0'] == 2 and c['cric'] and not c['warm'] and min(Q.nu[:N] or Q.nu) > 0 and min(Q.nx) > 1
                                                           and not (q['nulls'] and q['mask']))
        if status != 0:
            expect(not must, 'feasible strictly convex QP: %s returned status %s in solve %d' % (name, status, n))
            lab.append('failed')
            ok = 0
            break
        it = {f: [get(k, f) if (f != 'pi' or k < N) else np.zeros(0) for k in range(N + 1)] for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')}
        for f, dims in (('x', Q.nx), ('u', Q.nu), ('sl', Q.ns), ('lam', [2 * (Q.J[k].shape[0] + Q.ns[k]) for k in range(N + 1)])):
            for k in range(N + 1):
                expect(it[f][k].shape == (dims[k],), 'shape of %s at stage %d: %s, expected %d' % (f, k, it[f][k].shape, dims[k]))
        r = Q.kkt(it)
        t = 1e-5 if 'OSQP' not in name else 1e-3
        sc = 1 + max([np.max(np.abs(l)) for l in it['lam'] + it['pi'] if l.size] + [0])
        for i, nm in enumerate(['stationarity', 'dynamics', 'inequality', 'complementarity', 'multiplier sign']):
            expect(r[i] <= t * sc, '%s reported success, but the %s residual of the QP is %.2e (solve %d)' % (name, nm, r[i], n))
        if name == 'casadi':
            expect_close('cost', s.get_cost(), Q.cost(it), 1e-7, 1e-7)
        ok += 1
    if ok:
        I = s.get_iterate()
        for f in ('x', 'u', 'sl', 'su', 'pi'):
            l = getattr(I, f)
            for k in range(len(l)):
                expect_close('get_iterate().%s at stage %d' % (f, k), l[k], it[f][k], 0, 0)
        if not any(Q.ns) and not Q.has_mask():
            expect(qp.check_licq(I) == licq(Q, it), 'check_licq: %s, expected %s' % (qp.check_licq(I), licq(Q, it)))
        if name == 'casadi' and not any(Q.nu[N:]):
            w, lw, lg = s.qp_sol_w.copy(), s.qp_sol_lam_w.copy(), s.qp_sol_lam_g.copy()
            for flat in (False, True):
                s.w0[:], s.lam_x0[:], s.lam_g0[:] = 0, 0, 0
                s.set_iterate(I.flatten() if flat else I)
                expect_close('primal warm start from the solution (flat: %s)' % flat, s.w0, w, 0, 1e-12)
                expect_close('dual warm start of w', s.lam_x0, lw, 0, 1e-7)
                expect_close('dual warm start of g', s.lam_g0, lg, 0, 1e-7)
    dg = qp.qp_diagnostics()
    ev = [np.linalg.eigvalsh(H if k < N else H[Q.nu[N]:, Q.nu[N]:]) for k, H in enumerate(Q.H)]
    for f, w in (('min_eigv_stage', [e.min() for e in ev]), ('max_eigv_stage', [e.max() for e in ev]),
                 ('condition_number_stage', [e.max() / e.min() for e in ev])):
        expect_close(f, np.real(np.array(dg[f])), w, 1e-7, 1e-9)
    expect_close('condition_number_global', np.real(dg['condition_number_global']), max(e.max() for e in ev) / min(e.min() for e in ev), 1e-7, 1e-9)
    return {'labels': lab, 'nontrivial': Q.infeas or (ok > 0 and any(J.shape[0] for J in Q.J))}
