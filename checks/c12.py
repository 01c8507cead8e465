"""Real-time iterations: preparation and feedback phases, and the advanced-step variants, perform the documented steps."""
import copy
import numpy as np
from hypothesis import strategies as st
import algo
import c03
import c04
import ocpgen
from common import Rnd, expect, expect_close, Skip

init = c03.init
LEVELS = {4: 'STANDARD', 0: 'A', 1: 'B', 2: 'C', 3: 'D'}


@st.composite
def full(draw, tier):
    level = draw(st.sampled_from([4, 4, 0, 1, 2, 3]))
    c = draw(ocpgen.spec(hess=('GAUSS_NEWTON', 'GAUSS_NEWTON', 'EXACT'), linear=True, z=False, cint=False, tdep=False, maxN=4, maxnx=3))
    c['eq0'] = c['share'] = False
    if level != 4:
        c['x0'] = 'x0'
        c['N'] = max(2, c['N'])
    if level in (1, 2):
        for q in ('cost', 'cost0', 'coste'):
            if c[q] is not None:
                c[q] = draw(st.sampled_from(['EXTERNAL', 'CONVEX_OVER_NONLINEAR'])) if c['hess'] != 'EXACT' else 'EXTERNAL'
    if level == 1:
        c['soft'] = 0
    if level == 2:
        c['nh'] = c['nh0'] = c['nhe'] = 0
    d = {'ocp': c, 'level': level}
    d['as_iter'] = draw(st.sampled_from([1, 1, 2, 3, 0]))
    d['reg'] = draw(st.sampled_from(['PROJECT', 'PROJECT', 'MIRROR', 'GERSHGORIN_LEVENBERG_MARQUARDT', 'NO_REGULARIZE', 'CONVEXIFY']))
    if level in (1, 2) and d['reg'] == 'CONVEXIFY' or c['x0'] != 'x0' and d['reg'] == 'CONVEXIFY':
        d['reg'] = 'PROJECT'
    d['eps'] = draw(st.sampled_from([1e-2, 0.3]))
    d['lm'] = draw(st.sampled_from([0.0, 0.0, 0.1]))
    d['len'] = draw(st.sampled_from([1.0, 1.0, 0.5])) if level != 1 else 1.0
    d['dual'] = draw(st.booleans())
    d['log'] = draw(st.sampled_from([0, 0, 1, 2]))
    if d['log'] == 1 and any(q and q.endswith('LINEAR_LS') for q in (c['cost'], c['cost0'], c['coste'])):
        d['log'] = 2  # the residual computation after the step is not available for these costs
    d['ext'] = draw(st.booleans())
    d['condN'] = draw(st.integers(0, 2))
    d['qp'] = draw(st.sampled_from(['PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM']))
    if d['qp'].startswith('FULL'):
        c['onesided'] = False
    if d['qp'].startswith('FULL') or d['condN'] not in (0, c['N']):
        # two-phase condensing of HPIPM: wrong upper bounds of general constraints after the first stage of a block
        for q in ('ng', 'nge', 'nh', 'nhe'):
            c[q] = 0
        c['soft'] &= 1
    d['warm'] = draw(st.sampled_from([0, 0, 1]))
    d['start'] = draw(st.integers(0, 2 ** 30))
    d['spread'] = draw(st.sampled_from([0.05, 0.2]))
    cyc = st.fixed_dictionaries({'p': st.booleans(), 'y': st.booleans(), 'b': st.booleans(), 'b2': st.booleans(),
                                 'joint': st.booleans(), 'perturb': st.integers(0, 5).map(lambda v: v == 5),
                                 'reset': st.integers(0, 9).map(lambda v: v == 9), 'v': st.integers(0, 2 ** 20)})
    d['cycles'] = draw(st.lists(cyc, min_size=1, max_size=4))
    return d


def strategy(tier):
    return full(tier)


def with_bounds(P, ev, it):
    """evaluation `ev` (made at the primal iterate `it`) with the bounds of now"""
    out = {'st': []}
    for k, s in enumerate(ev['st']):
        q = dict(s)
        M = P.slack_map(k)
        ml, mu = P.masks(k)
        ns = P.ns(k)
        sl, su = it['sl'][k], it['su'][k]
        q['ineq'] = np.concatenate([(P.lo[k] - s['c'] - M @ sl) * ml, (s['c'] - P.up[k] - M @ su) * mu, P.lsb[k] - sl, P.usb[k] - su])
        q['mask'] = np.concatenate([ml, mu, np.ones(2 * ns)])
        out['st'].append(q)
    return out


def usable(it):
    return all(np.all(np.isfinite(q)) for l in it.values() for q in l) and np.max(np.abs(np.concatenate(it['x']))) < 20 \
        and max(np.max(np.abs(q)) for q in it['lam'] + it['pi'] if q.size) < 1e4


def set_x0(P, s, x):
    nb = len(P.con['idxbu'])
    P.lo[0][nb:nb + P.nx] = x
    P.up[0][nb:nb + P.nx] = x
    s.constraints_set(0, 'lbx', x)
    s.constraints_set(0, 'ubx', x)


def run(c):
    exact = c['ocp']['hess'] == 'EXACT'
    N = c['ocp']['N']
    level = c['level']

    def opts(ocp):
        o = ocp.solver_options
        o.nlp_solver_type = 'SQP_RTI'
        o.qp_solver = c['qp']
        o.qp_solver_cond_N = min(c['condN'], N) if c['condN'] else N
        o.as_rti_level, o.as_rti_iter = level, c['as_iter']
        o.regularize_method = c['reg']
        o.reg_epsilon = c['eps']
        o.levenberg_marquardt = c['lm']
        o.globalization_fixed_step_length = c['len']
        o.globalization_full_step_dual = int(c['dual'])
        o.rti_log_residuals = int(c['log'] > 0)
        o.rti_log_only_available_residuals = int(c['log'] == 2)
        o.nlp_solver_ext_qp_res = int(c['ext'])
        o.qp_tol = 1e-10
        o.qp_solver_iter_max = 200
        o.qp_solver_warm_start = c['warm']
    P, ocp, s = c03.build(c['ocp'], opts)
    lab, checked = [], 0
    try:
        R = Ref(P, c, exact)
        ocpgen.set_iterate(s, P, ocpgen.random_iterate(P, c['start'], c['spread']))
        it = ocpgen.get_iterate(s, P)
        for n, y in enumerate(c['cycles']):
            r = Rnd(y['v'], 'cycle', n)
            if y['reset']:
                s.reset()
                it = ocpgen.get_iterate(s, P)
                R.first = R.first or c['qp'] == 'PARTIAL_CONDENSING_HPIPM'  # (the only one with reset of the solver memory)
                lab.append('reset')
            if y['perturb'] and (level in (4, 2, 3) or R.first):
                ocpgen.set_iterate(s, P, ocpgen.random_iterate(P, y['v'], c['spread']))
                it = ocpgen.get_iterate(s, P)
            if (y['p'] or y['y']) and not (level == 0 and c['log']):
                c03.vary(P, s, r, y['p'], y['y'])
            if y['b']:
                # (the partial condensing keeps the masks of the last preparation, the full condensing of HPIPM in
                # two phases supports none)
                c03.vary_bounds(P, s, r, inf=(level in (3, 4) or R.first) and not c['qp'].startswith('FULL'))
                it = ocpgen.get_iterate(s, P)
            joint = y['joint'] and level == 4
            tag = 'cycle %d, ' % n
            if not joint:
                s.options_set('rti_phase', 1)
                status = s.solve()
                new = ocpgen.get_iterate(s, P)
                if status not in (0, 5):
                    lab.append('prep status%d' % status)
                    break
                if not qp_solved(s, level, tag):
                    lab.append('QP iterations exhausted')
                    break
                R.prepare(s, it, new, tag + 'preparation', lab, status)
                if not usable(new):
                    break
                it = new
                if c['ocp']['x0'] == 'x0' and y['v'] % 3:
                    set_x0(P, s, it['x'][0] + r.vec(P.nx, -0.1, 0.1))
                if y['b2']:
                    c03.vary_bounds(P, s, Rnd(y['v'], 'second'), inf=False)
                s.options_set('rti_phase', 2)
            else:
                s.options_set('rti_phase', 0)
                R.linearize(it)
            status = s.solve()
            new = ocpgen.get_iterate(s, P)
            if status != 0:
                lab.append('status%d' % status)
                break
            if not qp_solved(s, level, tag):
                lab.append('QP iterations exhausted')
                break
            checked += R.feedback(s, it, new, tag + ('joint phases' if joint else 'feedback'), lab)
            if not usable(new):
                break
            it = new
        return {'labels': ocpgen.prob_labels(c['ocp']) + ['level:' + LEVELS[level], 'reg:' + c['reg']] + ['log%d' % c['log']] * bool(c['log'])
                + ['lm'] * bool(c['lm']) + lab, 'nontrivial': checked > 0}
    finally:
        del s
        ocpgen.cleanup(ocp)


def qp_solved(s, level, tag):
    q = s.get_stats('qp_stat')
    expect(np.all((q == 0) | (q == 2)), '%s: qp_stat %s after success' % (tag, q))
    return np.all(q == 0)


class Ref:
    def __init__(self, P, c, exact):
        self.P, self.c, self.exact = P, c, exact
        self.first = True
        self.dw = None

    def hess(self, ev):
        P, c = self.P, self.c
        H = [q['H'] + c['lm'] * P.scale[k] * np.eye(len(q['H'])) for k, q in enumerate(ev['st'])]
        self.conv_ok = True
        if c['reg'] == 'CONVEXIFY':
            m, G = algo.riccati_margin(P, ev, c['eps'], H)
            self.conv_ok = G is not None and m > 1e-2
            return H
        if c['reg'] == 'NO_REGULARIZE':
            self.conv_ok = min(np.min(np.linalg.eigvalsh(h)) for h in H) > 1e-3
            return H
        return [algo.regularize(c['reg'], h, {'eps': c['eps'], 'adaptive': False}) for h in H]

    def mask(self, k):
        ml, mu = self.P.masks(k)
        return np.concatenate([ml, mu, np.ones(2 * self.P.ns(k))])

    def linearize(self, it):
        self.w = copy.deepcopy(it)
        self.ev = self.P.evaluate(it, self.exact)
        self.HR = self.hess(self.ev)
        self.grad = [q['costgrad'] for q in self.ev['st']]

    def check_step(self, tag, ev, old, new, lab):
        """one QP step from old to new"""
        a = self.c['len']
        step = {q: [(y - x) / a for x, y in zip(old[q], new[q])] for q in ('x', 'u', 'sl', 'su')}
        for q in ('pi', 'lam'):
            step[q] = [y.copy() if self.c['dual'] else x + (y - x) / a for x, y in zip(old[q], new[q])]
        if not self.conv_ok:
            lab.append('needs regularization')
            return 0
        if algo.library_gap(self.P):
            lab.append('no inequalities')
            return 0
        big = max(1.0, max(np.max(np.abs(h)) for h in self.HR))
        free0 = self.c['reg'] == 'CONVEXIFY' and np.max(np.abs(step['x'][0])) > 1e-12
        algo.expect_step(tag, self.P, ev, self.HR, step, (4e-6 if self.exact else 2e-6) * big / a, comp_tol=4e-6 * big / a, free0=free0)
        return 1

    def feedback(self, s, it, new, tag, lab):
        ev = with_bounds(self.P, self.ev, self.w)
        n = self.check_step(tag, ev, it, new, lab)
        self.first = False
        self.dw = [new['x'][k] - it['x'][k] if k == self.P.N else
                   np.concatenate([new['x'][k] - it['x'][k], new['u'][k] - it['u'][k]]) for k in range(self.P.N + 1)]
        self.stats(s, tag, it, new)
        return n

    def stats(self, s, tag, it, new):
        c, P = self.c, self.P
        if c['log'] == 0:
            return
        T = s.get_stats('statistics')
        _, r1 = c04.reference(P, new, self.exact, 0)
        if c['log'] == 1:
            expect_close(tag + ': residuals at the new iterate in the statistics', T[-4:, -1], r1, 1e-6, 1e-7)
            expect_close(tag + ': get_residuals', s.get_residuals(), r1, 1e-6, 1e-7)

    def prepare(self, s, it, new, tag, lab, status):
        P, c = self.P, self.c
        level = c['level']
        if level == 4 or (self.first and level != 3):
            for q in it:
                for k, (a, b) in enumerate(zip(it[q], new[q])):
                    if q == 'lam':
                        a = a * self.mask(k)  # multipliers of absent bounds are cleared
                    expect(np.array_equal(a, b), '%s: the preparation phase changed %s at stage %d' % (tag, q, k))
            self.linearize(new)
            return
        if not self.first:
            x = P.dyn(it['x'][0], it['u'][0], P.P[0], P.pg, P.dt[0], 0)[0]
            got = s.constraints_get(0, 'lbx'), s.constraints_get(0, 'ubx')
            expect_close(tag + ': advanced initial state', got[0], x, 1e-8, 1e-9)
            expect(np.array_equal(*got), tag + ': lbx and ubx of the advanced initial state')
            nb = len(P.con['idxbu'])
            P.lo[0][nb:nb + P.nx] = got[0]
            P.up[0][nb:nb + P.nx] = got[0]
        if level == 0:
            self.check_step(tag + ' (level A)', with_bounds(P, self.ev, self.w), self.w, new, lab)
        elif c['as_iter'] == 0:
            for q in it:
                for k, (a, b) in enumerate(zip(it[q], new[q])):
                    expect(np.array_equal(a, b), '%s: no advanced step iterations, but %s at stage %d changed' % (tag, q, k))
        else:
            w = it
            for j in range(c['as_iter']):
                last = j == c['as_iter'] - 1
                e = P.evaluate(w, self.exact)
                if level == 3:
                    self.linearize(w)
                    ev = e
                else:
                    ev = {'st': []}
                    for k, q in enumerate(e['st']):
                        z = dict(self.ev['st'][k])
                        z['ineq'], z['mask'], z['gsl'], z['gsu'] = q['ineq'], q['mask'], q['gsl'], q['gsu']
                        if k < P.N:
                            z['b'] = q['b']
                        if level == 1:
                            self.grad[k] = self.grad[k] + self.HR[k] @ self.dw[k]
                            z['costgrad'] = self.grad[k]
                        else:
                            z['costgrad'] = q['costgrad']
                            if k < P.N:
                                z['costgrad'] = z['costgrad'] + (q['A'] - z['A']).T @ w['pi'][k]
                        ev['st'].append(z)
                if last:
                    if not self.check_step('%s (level %s, iteration %d)' % (tag, LEVELS[level], j), ev, w, new, lab):
                        break
                    lab.append('AS iterations %d' % (j + 1))
                    break
                if not self.conv_ok or any(np.min(np.linalg.eigvalsh(h)) < 1e-3 for h in self.HR):
                    lab.append('reference QP not convex')
                    break
                stp = algo.solve_qp(P, ev, self.HR)
                if stp is None or max(v for q, v in algo.step_residual(P, ev, self.HR, stp).items()) > 1e-8:
                    lab.append('reference QP not solved')
                    break
                old = w
                w = algo.add_step(P, old, stp, c['len'])
                if not c['dual']:
                    for q in ('pi', 'lam'):
                        w[q] = [(1 - c['len']) * a + c['len'] * b for a, b in zip(old[q], stp[q])]
                self.dw = [stp['x'][k] if k == P.N else np.concatenate([stp['x'][k], stp['u'][k]]) for k in range(P.N + 1)]
                if not usable(w):
                    break
        self.linearize(new)
