"""Each SQP iteration takes the documented step: regularized QP, step length, stored iterates and statistics table."""
import ctypes
import os

import numpy as np
from hypothesis import strategies as st
import algo
import c03
import c04
import ocpgen
from common import Rnd, expect, expect_close, Skip

init = c03.init


@st.composite
def full(draw, tier):
    if draw(st.integers(0, 11)) == 11:
        return {'mode': 'eig', 'seed': draw(st.integers(0, 2 ** 30)), 'n': draw(st.integers(1, 8)), 'mats': draw(st.integers(1, 60)),
                'eps': draw(st.sampled_from([1e-8, 1e-4, 1e-2, 0.3])), 'cond': draw(st.sampled_from([1e7, 50.0, 5.0, 1.0])),
                'scale': draw(st.sampled_from([1e-3, 1.0, 1.0, 1e3])),
                'spec': draw(st.sampled_from(['any', 'neg', 'pos', 'rep', 'rank', 'diag']))}
    c = draw(ocpgen.spec(hess=('GAUSS_NEWTON', 'EXACT', 'EXACT'), linear=True, z=False, cint=False, tdep=False, maxN=4, maxnx=3))
    c['eq0'] = c['share'] = False
    d = {'ocp': c}
    d['glob'] = draw(st.sampled_from(['FIXED_STEP', 'FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']))
    d['len'] = draw(st.sampled_from([1.0, 1.0, 0.7, 0.25]))
    d['dual'] = draw(st.sampled_from([None, 0, 1]))
    d['reg'] = draw(st.sampled_from(['NO_REGULARIZE', 'PROJECT', 'PROJECT', 'MIRROR', 'MIRROR', 'CONVEXIFY',
                                     'PROJECT_REDUC_HESS', 'GERSHGORIN_LEVENBERG_MARQUARDT']))
    d['eps'] = draw(st.sampled_from([1e-4, 1e-2, 0.3]))
    d['adaptive'] = draw(st.booleans())
    d['cond'] = draw(st.sampled_from([1e7, 50.0, 5.0]))
    d['mineps'] = draw(st.sampled_from([1e-8, 0.05]))
    d['lm'] = draw(st.sampled_from([0.0, 0.0, 0.1, 1.0]))
    d['alm'] = draw(st.integers(0, 7)) == 7
    d['iters'] = draw(st.integers(1, 4))
    d['evalmax'] = draw(st.booleans())
    d['ext'] = draw(st.booleans())
    d['start'] = draw(st.integers(0, 2 ** 30))
    d['spread'] = draw(st.sampled_from([0.05, 0.3]))
    d['dual0'] = draw(st.sampled_from([1.0, 1.0, 8.0]))      # large multipliers: strongly indefinite Hessian blocks
    d['condN'] = draw(st.integers(0, 2))
    d['qp'] = draw(st.sampled_from(['PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM']))
    if d['reg'] == 'PROJECT_REDUC_HESS':
        d['qp'] = 'PARTIAL_CONDENSING_HPIPM'
    d['qscale'] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    d['hist'] = draw(st.lists(st.tuples(st.sampled_from(['again', 'lm', 'len', 'p', 'yref', 'perturb']), st.integers(0, 2 ** 20)).map(list), max_size=2))
    return d


def scaled(it, c):
    f = c.get('dual0', 1.0)
    if f != 1.0:
        for k in ('pi', 'lam'):
            it[k] = [f * q for q in it[k]]
    return it


def strategy(tier):
    return full(tier)


def iterate(o, P):
    """AcadosOcpIterate -> iterate dictionary"""
    N = P.N
    return {'x': list(o.x), 'u': list(o.u[:N]) + [np.zeros(0)], 'pi': list(o.pi), 'lam': list(o.lam), 'sl': list(o.sl), 'su': list(o.su)}


def same(a, b, what):
    for q in a:
        for k, (v, w) in enumerate(zip(a[q], b[q])):
            expect(np.array_equal(v, w), '%s: %s at stage %d is %s and %s' % (what, q, k, v, w))


def step_of(P, a, b, alpha, full_dual):
    """QP solution implied by consecutive iterates"""
    s = {q: [(y - x) / alpha for x, y in zip(a[q], b[q])] for q in ('x', 'u', 'sl', 'su')}
    for q in ('pi', 'lam'):
        s[q] = [y.copy() if full_dual else x + (y - x) / alpha for x, y in zip(a[q], b[q])]
    return s


def eig(c):
    """the routines that modify one Hessian block, on matrices of a prescribed spectrum"""
    lib = ctypes.CDLL(os.path.join(os.environ['ACADOS_SOURCE_DIR'], 'lib', 'libacados.so'))
    n, nt = c['n'], 0
    D = ctypes.POINTER(ctypes.c_double)
    for m in range(c['mats']):
        r = Rnd(c['seed'], 'eig', m)
        V = np.linalg.qr(np.array([r.vec(n) for _ in range(n)]) + 1e-3 * np.eye(n))[0] if c['spec'] != 'diag' else np.eye(n)
        d = np.array([r.choice([1.0, 1.0, 0.1, c['eps'], 1e-3]) * r.unif(-1, 1) for _ in range(n)])
        if c['spec'] == 'neg':
            d[r.int(0, n - 1)] = -r.unif(2, 6)
        elif c['spec'] == 'pos':
            d = np.abs(d)
        elif c['spec'] == 'rep':
            d[:] = [d[i // 2] for i in range(n)]
        elif c['spec'] == 'rank':
            d[:-1] = 0.0
        d *= c['scale']
        H = V @ np.diag(d) @ V.T
        H = 0.5 * (H + H.T)
        big = np.max(np.abs(d))
        for f, meth, adaptive in (('acados_mirror', 'MIRROR', False), ('acados_project', 'PROJECT', False),
                                  ('acados_mirror_adaptive_eps', 'MIRROR', True), ('acados_project_adaptive_eps', 'PROJECT', True)):
            if not hasattr(lib, f):
                continue
            A, W, dd, e = H.copy(), np.zeros((n, n)), np.zeros(n), np.zeros(n)
            args = [A, W, dd, e]
            par = [c['cond'], c['eps']] if adaptive else [c['eps']]
            g = getattr(lib, f)
            g.restype, g.argtypes = None, [ctypes.c_int] + [D] * 4 + [ctypes.c_double] * len(par)
            g(n, *[q.ctypes.data_as(D) for q in args], *par)
            ref = algo.regularize(meth, H, {'eps': c['eps'], 'adaptive': adaptive, 'cond': c['cond'], 'mineps': c['eps']})
            expect_close('%s of\n%s\nwith %s' % (f, H, par), A, ref, 1e-9, 1e-10 * max(big, 1e-3) + 1e-13)
            nt += np.max(np.abs(ref - H)) > 1e-9
    return {'labels': ['eig', 'eig ' + c['spec']], 'nontrivial': nt > 0}


def run(c):
    if c.get('mode') == 'eig':
        return eig(c)
    exact = c['ocp']['hess'] == 'EXACT'
    N = c['ocp']['N']

    def opts(ocp):
        o = ocp.solver_options
        o.nlp_solver_type = 'SQP'
        o.qp_solver = c['qp']
        o.qp_solver_cond_N = min(c['condN'], N) if c['condN'] else N
        o.globalization = c['glob']
        if c['glob'] == 'FIXED_STEP':
            o.globalization_fixed_step_length = c['len']
        if c['dual'] is not None:
            o.globalization_full_step_dual = c['dual']
        o.regularize_method = c['reg']
        o.reg_epsilon, o.reg_adaptive_eps = c['eps'], c['adaptive']
        o.reg_max_cond_block, o.reg_min_epsilon = c['cond'], c['mineps']
        o.levenberg_marquardt = c['lm']
        if c['alm']:
            o.with_adaptive_levenberg_marquardt = True
        o.nlp_solver_max_iter = c['iters']
        o.eval_residual_at_max_iter = c['evalmax']
        o.nlp_solver_ext_qp_res = int(c['ext'])
        o.store_iterates = True
        o.log_primal_step_norm = o.log_dual_step_norm = True
        o.nlp_solver_tol_stat = o.nlp_solver_tol_eq = o.nlp_solver_tol_ineq = o.nlp_solver_tol_comp = 1e-8
        o.qp_tol = 1e-9
        o.qp_solver_iter_max = 200
        if c['qscale'] & 1:
            o.qpscaling_scale_objective = 'OBJECTIVE_GERSHGORIN'
        if c['qscale'] & 2:
            o.qpscaling_scale_constraints = 'INF_NORM'
    P, ocp, s = c03.build(c['ocp'], opts)
    full_dual = c['dual'] if c['dual'] is not None else int(c['glob'] == 'FUNNEL_L1PEN_LINESEARCH')
    lm, length = c['lm'], c['len']
    lab, checked = [], 0
    try:
        ocpgen.set_iterate(s, P, scaled(ocpgen.random_iterate(P, c['start'], c['spread']), c))
        for n, (op, v) in enumerate([('again', 0)] + c['hist']):
            r = Rnd(v, 'hist', n)
            if op == 'lm' and not c['alm']:
                lm = r.choice([0.0, 0.05, 2.0])
                s.options_set('levenberg_marquardt', lm)
            elif op == 'len' and c['glob'] == 'FIXED_STEP':
                length = r.choice([1.0, 0.5, 0.1])
                s.options_set('globalization_fixed_step_length', length)
            elif op == 'p':
                c03.vary(P, s, r, True, False)
            elif op == 'yref':
                c03.vary(P, s, r, False, True)
            elif op == 'perturb':
                ocpgen.set_iterate(s, P, scaled(ocpgen.random_iterate(P, v, c['spread']), c))
            start = ocpgen.get_iterate(s, P)
            status = s.solve()
            checked += check(s, P, c, start, status, exact, full_dual, lm, length, lab, 'solve %d' % n)
            lab.append('status%d' % status)
            if status not in (0, 2):
                break
        return {'labels': ocpgen.prob_labels(c['ocp']) + [c['glob'], 'reg:' + c['reg']] + ['lm'] * bool(c['lm']) + ['alm'] * c['alm'] + lab,
                'nontrivial': checked > 0}
    finally:
        del s
        ocpgen.cleanup(ocp)


def check(s, P, c, start, status, exact, full_dual, lm, length, lab, tag):
    N = P.N
    ni = int(s.get_stats('nlp_iter'))
    expect(ni == int(s.get_stats('sqp_iter')), tag + ': nlp_iter and sqp_iter differ')
    expect(0 <= ni <= c['iters'], '%s: %d iterations with max_iter %d' % (tag, ni, c['iters']))
    T = s.get_stats('statistics')
    rows = 8 + 4 * c['ext']
    expect(T.shape == (rows, ni + 1), '%s: statistics table has shape %s after %d iterations' % (tag, T.shape, ni))
    expect(np.array_equal(T[0], np.arange(ni + 1)), tag + ': iteration column ' + str(T[0]))
    qs, qi = s.get_stats('qp_stat'), s.get_stats('qp_iter')
    expect(np.array_equal(np.ravel(qs), T[5]) and np.array_equal(np.ravel(qi), T[6]), tag + ': qp_stat / qp_iter differ from the table')
    its = []
    last = ni
    # the last point is only stored and evaluated when its residuals were computed
    evaluated = ni if (ni < c['iters'] or c['evalmax']) else ni - 1
    if status not in (0, 2):
        evaluated = min(evaluated, ni - 1)
    for j in range(ni + 1):
        if j == ni:
            its.append(ocpgen.get_iterate(s, P))
            same(its[-1], iterate(s.get_iterate(), P), tag + ': get_iterate() and get()')
        else:
            its.append(iterate(s.get_iterate(j), P))
    same(its[0], start, tag + ': first stored iterate and the starting point')
    if len(its) > 1:
        L = s.get_iterates()
        for j, o in enumerate(L.iterate_list):
            same(iterate(o, P), its[j], tag + ': get_iterates()[%d]' % j)
    if status == 2:
        expect(ni == c['iters'], '%s: status max_iter after %d of %d iterations' % (tag, ni, c['iters']))
    done = 0
    pn, dn = s.get_stats('primal_step_norm'), s.get_stats('dual_step_norm')
    glob_failed = status not in (0, 1, 2, 4)
    for j in range(ni + 1):
        it = its[j]
        if not all(np.all(np.isfinite(q)) for l in it.values() for q in l) or np.max(np.abs(np.concatenate(it['x']))) > 20:
            break
        if j > evaluated:
            break
        ev, res = c04.reference(P, it, exact, 0)
        for i, q in enumerate(['stationarity', 'dynamics', 'inequality', 'complementarity']):
            expect_close('%s: %s residual of iterate %d in the statistics' % (tag, q, j), T[1 + i, j], res[i], 1e-6, 1e-7)
        if j == ni and status == 0:
            expect(np.all(res < 1.01e-8 + 1e-10), tag + ': success with residuals %s' % res)
        if j < ni:
            expect(np.any(res >= 0.99e-8 - 1e-10), '%s: iteration continued at iterate %d with residuals %s' % (tag, j, res))
        if j == ni:
            break
        if T[5, j + 1] != 0:
            lab.append('qp_stat%d' % T[5, j + 1])
            continue
        if glob_failed and j == ni - 1:
            continue
        a = T[7, j + 1]
        if c['glob'] == 'FIXED_STEP':
            expect(a == length, '%s: step length %g in the statistics, set to %g' % (tag, a, length))
        else:
            expect(0 < a <= 1, '%s: step length %g' % (tag, a))
            e = np.log(a) / np.log(0.7)
            expect(abs(e - round(e)) < 1e-6, '%s: step length %g is no power of the reduction factor' % (tag, a))
            if a < 1:
                lab.append('reduced step')
        step = step_of(P, it, its[j + 1], a, full_dual)
        d = max([np.max(np.abs(q)) for k in ('x', 'u', 'sl', 'su') for q in step[k] if q.size] + [0.0])
        expect_close('%s: primal step norm %d' % (tag, j), pn[j], d, 1e-6, 1e-9)
        d = max([np.max(np.abs(q - w)) for k in ('pi', 'lam') for q, w in zip(step[k], it[k]) if q.size] + [0.0])
        expect_close('%s: dual step norm %d' % (tag, j), dn[j], d, 1e-6, 1e-8)
        H = [q['H'] + (lm * P.scale[k] * np.eye(len(q['H'])) if not c['alm'] else 0.0) for k, q in enumerate(ev['st'])]
        if c['alm']:
            lab.append('adaptive lm')
            continue
        if c['qscale'] & 1 and c['reg'] != 'NO_REGULARIZE':
            lab.append('regularization of the scaled QP')
            if any(np.min(np.linalg.eigvalsh(h)) < 2 * c['eps'] for h in H) or c['reg'] not in ('PROJECT', 'MIRROR') or c['adaptive']:
                continue
            continue
        changed = free0 = False
        if c['reg'] in ('CONVEXIFY', 'PROJECT_REDUC_HESS'):
            conv = c['reg'] == 'CONVEXIFY'
            m, G = algo.riccati_margin(P, ev, c['eps'] if conv else 0.0, H)
            fixed = len(P.eqrows(0)) == P.nx
            if conv and not fixed:
                lab.append('convexify with free initial state')
                continue
            if G is None or m < 1e-2 or (not conv and np.min(np.linalg.eigvalsh(G)) < 1e-2):
                lab.append('needs regularization')
                continue
            HR = H
            # the modified Hessian only keeps the multipliers of the initial condition if that is met already
            free0 = conv and np.max(np.abs(step['x'][0])) > 1e-12
        else:
            HR = [algo.regularize(c['reg'], h, {'eps': c['eps'], 'adaptive': c['adaptive'], 'cond': c['cond'], 'mineps': c['mineps']}) for h in H]
            changed = any(np.max(np.abs(a - b)) > 1e-9 for a, b in zip(HR, H))
        if algo.library_gap(P):
            lab.append('no inequalities')
            continue
        if c['reg'] == 'NO_REGULARIZE' and min(np.min(np.linalg.eigvalsh(h)) for h in HR) < 1e-3:
            lab.append('not convex')
            continue
        big = max(1.0, max(np.max(np.abs(h)) for h in HR))
        algo.expect_step('%s, iteration %d' % (tag, j), P, ev, HR, step, (2e-6 if exact else 1e-6) * big / min(1.0, a), comp_tol=2e-6 * big / min(1.0, a),
                         free0=free0)
        done += 1
        if changed:
            lab.append('regularized')
            if any(-e[0] > 1.5 * e[-1] for e in map(np.linalg.eigvalsh, H)):
                lab.append('dominating negative eigenvalue')
    return done
