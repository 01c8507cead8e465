"""Runtime data interface: what is set is what is read back and what the solver uses, over any history of calls."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
import c03
import ocpgen
from common import Rnd, expect, expect_close, Skip

init = c03.init
FIELDS = ('x', 'u', 'pi', 'lam', 'sl', 'su', 'z')
OPS = ['set', 'set', 'set', 'flat', 'flat', 'p', 'p', 'sparse', 'pflat', 'cost', 'cost', 'cost', 'con', 'con', 'con', 'CD', 'pglobal', 'file', 'obj', 'reset', 'reset',
       'steps', 'newN', 'condN', 'qp', 'iterall']


def strategy(tier):
    return st.fixed_dictionaries({
        'ocp': ocpgen.spec(integ=('ERK', 'ERK', 'IRK', 'IRK', 'DISCRETE', 'GNSF'), linear=True, maxN=4),
        'ops': st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2 ** 20)).map(list), min_size=1, max_size=12),
        'tail': st.booleans()})


class Model:
    """plain-numpy state of everything the interface stores"""

    def __init__(self, P):
        self.P, self.N0 = P, P.N
        self.snapshot = {a: copy.deepcopy(getattr(P, a)) for a in ('P', 'pg', 'yref', 'W', 'lo', 'up', 'pen', 'CD', 'lsb', 'usb', 'scale', 'dt')}
        self.set_dims()

    def set_dims(self):
        P, N = self.P, self.P.N
        self.dims = {'x': [P.nx] * (N + 1), 'u': [P.nu] * N + [0], 'pi': [P.nx] * N, 'z': [P.nz] * N + [0],
                     'lam': [2 * (P.nrows(k) + P.ns(k)) for k in range(N + 1)], 'sl': [P.ns(k) for k in range(N + 1)],
                     'su': [P.ns(k) for k in range(N + 1)]}
        self.zero()

    def resize(self, dt):
        """the solver recreated with another number of intervals: first, intermediate and last node as generated"""
        P, N = self.P, len(dt)
        P.N = N
        P.kinds = ['0' if P.c['cost0'] else 'p'] + ['p'] * (N - 1) + ['e']
        if P.c['integ'] != 'DISCRETE':
            P.dyn.ns, P.dyn.nst = [P.c['stages']] * N, [P.c['steps']] * N
        P.dt, P.scale = np.array(dt), np.concatenate([dt, [1.0]])
        self.values()
        self.set_dims()

    def values(self):
        P, N = self.P, self.P.N
        S = copy.deepcopy(self.snapshot)
        P.pg = S['pg']
        for a in ('P', 'yref', 'W', 'lo', 'up', 'pen', 'CD', 'lsb', 'usb'):
            setattr(P, a, [copy.deepcopy(S[a][0 if k == 0 else (self.N0 if k == N else 1)]) for k in range(N + 1)])

    def zero(self):
        self.it = {f: [np.zeros(n) for n in self.dims[f]] for f in FIELDS}

    def numeric_reset(self):
        P = self.P
        if P.N != self.N0:      # the discretization is kept
            self.values()
            P.scale = np.concatenate([P.dt, P.scale[-1:]])
            return
        for a, v in self.snapshot.items():
            setattr(P, a, copy.deepcopy(v))

    def mask(self, k):
        ml, mu = self.P.masks(k)
        return np.concatenate([ml, mu, np.ones(2 * self.P.ns(k))])

    def remask(self, k):
        self.it['lam'][k] = self.it['lam'][k] * self.mask(k)


def rows(P, k):
    C = P.con
    nbu = len(C['idxbu']) if k < P.N else 0
    nbx = len(C['idxbx' + P.key(k)])
    nh = C['nh' + P.key(k)]
    ng = P.nrows(k) - nbu - nbx - nh
    out, off = {}, 0
    for name, n in (('bu', nbu), ('bx', nbx), ('g', ng), ('phi' if P.c['bgp'] else 'h', nh)):
        out[name] = list(range(off, off + n))
        off += n
    return out


def check_all(s, M, tag):
    P, N = M.P, M.P.N
    for f in FIELDS:
        for k in range(len(M.it[f])):
            expect_close('%s: get(%d, %s)' % (tag, k, f), s.get(k, f), M.it[f][k], 0, 0)
        flat = np.concatenate([np.zeros(0)] + M.it[f])
        expect(s.get_dim_flat(f) == flat.size, '%s: get_dim_flat(%s) = %d, expected %d' % (tag, f, s.get_dim_flat(f), flat.size))
        expect_close('%s: get_flat(%s)' % (tag, f), s.get_flat(f), flat, 0, 0)
    if P.c['np']:
        for k in range(N + 1):
            expect_close('%s: get(%d, p)' % (tag, k), s.get(k, 'p'), P.P[k], 0, 0)
        expect_close('%s: get_flat(p)' % tag, s.get_flat('p'), np.concatenate(P.P), 0, 0)
        expect(s.get_dim_flat('p') == (N + 1) * P.c['np'], 'get_dim_flat(p)')
    for k in range(N + 1):
        ct = P.cost[P.kinds[k]]['type']
        w = '%s: cost_get(%d, ' % (tag, k)
        if ct != 'EXTERNAL':
            expect_close(w + 'yref)', s.cost_get(k, 'yref'), P.yref[k], 0, 0)
        if ct in ('LINEAR_LS', 'NONLINEAR_LS'):
            expect_close(w + 'W)', s.cost_get(k, 'W'), P.W[k], 0, 1e-13)
        expect_close(w + 'scaling)', s.cost_get(k, 'scaling'), [P.scale[k]], 0, 1e-14)
        if P.ns(k):
            for q in ('zl', 'zu', 'Zl', 'Zu'):
                expect_close(w + q + ')', s.cost_get(k, q), P.pen[k][q], 0, 1e-14)
        w = '%s: constraints_get(%d, ' % (tag, k)
        for name, r in rows(P, k).items():
            if not r:
                continue
            if name != 'phi':
                expect_close(w + 'l%s)' % name, s.constraints_get(k, 'l' + name), P.lo[k][r], 0, 0)
            expect_close(w + 'u%s)' % name, s.constraints_get(k, 'u' + name), P.up[k][r], 0, 0)
            if name == 'g':
                expect_close(w + 'C)', s.constraints_get(k, 'C'), P.CD[k][0], 0, 0)
                if k < N:
                    expect_close(w + 'D)', s.constraints_get(k, 'D'), P.CD[k][1], 0, 0)


def qp_check(s, M, tag):
    P = M.P
    if any(np.max(np.abs(v)) > 3 for v in M.it['x']):
        return False
    status = s.solve()
    expect(status in (0, 2), '%s: status %s with zero iterations' % (tag, status))
    it = {f: M.it[f] for f in ('x', 'u', 'pi', 'lam', 'sl', 'su')}
    it = dict(it, u=it['u'][:-1] + [np.zeros(0)])
    c03.compare_qp(s, P, it, P.evaluate(it), False, tag + ': ')
    return True


def iterate_equal(I, M, tag):
    for f in FIELDS:
        l = getattr(I, f)
        if isinstance(l, np.ndarray):
            expect_close('%s %s' % (tag, f), l, np.concatenate([np.zeros(0)] + M.it[f]), 0, 0)
        else:
            want = M.it[f] if f not in ('u', 'z') else M.it[f][:-1]
            expect(len(l) == len(want), '%s: %d entries of %s, expected %d' % (tag, len(l), f, len(want)))
            for k in range(len(want)):
                expect_close('%s %s[%d]' % (tag, f, k), l[k], want[k], 0, 0)


def noncontig(v, r):
    """the same numbers in another memory layout / type"""
    m = r.int(0, 3)
    v = np.asarray(v)
    if m == 1 and v.ndim == 1:
        return np.repeat(v, 2)[::2]
    if m == 2 and v.ndim == 1:
        return v[::-1].copy()[::-1]
    return v


def apply(s, M, op, v, n, lab):
    from acados_template import AcadosOcpIterate, AcadosOcpFlattenedIterate
    P, c, it = M.P, M.P.c, M.it
    N = P.N
    r = Rnd(v, 'op', n)
    k = r.int(0, N)

    def vec(f, k):
        a = r.vec(M.dims[f][k])
        return np.abs(a) if f in ('lam', 'sl', 'su') else a

    if op == 'set':
        f = r.choice(FIELDS)
        k = min(k, len(it[f]) - 1)
        if M.dims[f][k]:
            a = vec(f, k)
            s.set(k, f, noncontig(a, r))
            it[f][k] = a
            if f == 'lam':
                M.remask(k)
    elif op == 'flat':
        f = r.choice(FIELDS)
        a = [vec(f, k) for k in range(len(it[f]))]
        s.set_flat(f, noncontig(np.concatenate([np.zeros(0)] + a), r))
        it[f] = a
        if f == 'lam':
            for k in range(N + 1):
                M.remask(k)
    elif op == 'p' and c['np']:
        a = P.P[k] + 0.3 * r.vec(c['np'])
        s.set(k, 'p', noncontig(a, r))
        P.P[k] = a
    elif op == 'sparse' and c['np']:
        idx = r.subset(c['np'], r.int(1, c['np']))
        a = 0.5 * r.vec(len(idx))
        s.set_params_sparse(k, np.array(idx), noncontig(a, r))
        P.P[k] = P.P[k].copy()
        P.P[k][idx] = a
    elif op == 'pflat' and c['np']:
        a = 0.5 * r.vec(c['np'] * (N + 1))
        s.set_flat('p', noncontig(a, r))
        P.P = list(a.reshape(N + 1, -1))
    elif op == 'cost':
        ct = P.cost[P.kinds[k]]['type']
        F = ['scaling'] + (['zl', 'zu', 'Zl', 'Zu'] if P.ns(k) else []) + (['yref', 'yref', 'yset'] if ct != 'EXTERNAL' else []) \
            + (['W', 'W'] if ct in ('LINEAR_LS', 'NONLINEAR_LS') else [])
        f = r.choice(F)
        lab.add('cost:' + f)
        if f == 'scaling':
            P.scale = P.scale.copy()
            P.scale[k] = r.unif(0.2, 2)
            s.cost_set(k, 'scaling', float(P.scale[k]) if r.bool() else np.array([P.scale[k]]))
        elif f in ('zl', 'zu', 'Zl', 'Zu'):
            a = r.vec(P.ns(k), 0.1, 3)
            s.cost_set(k, f, noncontig(a, r))
            P.pen[k][f] = a
        elif f in ('yref', 'yset'):
            a = r.vec(P.yref[k].size)
            if f == 'yref':
                s.cost_set(k, 'yref', noncontig(a, r))
            else:
                s.set(k, r.choice(['yref', 'y_ref']), noncontig(a, r))
            P.yref[k] = a
        else:
            ny = P.W[k].shape[0]
            a = r.spd(ny, 0.3) if not c['cint'] or not c['Wdiag'] else np.diag(r.vec(ny, 0.2, 2))
            a = 0.5 * (a + a.T)
            s.cost_set(k, 'W', a if r.bool() else np.asfortranarray(a), **({} if r.bool() else {'api': 'new'}))
            P.W[k] = a
    elif op == 'con':
        R = rows(P, k)
        eq = set(P.eqrows(k))
        names = [q for q in R if R[q]]
        if not names:
            return
        name = r.choice(names)
        rr = R[name]
        lo, up = P.lo[k].copy(), P.up[k].copy()
        for i in rr:
            if i in eq:
                lo[i] = up[i] = r.unif()
                continue
            base = [x for x in (lo[i], up[i]) if abs(x) < ocpgen.INF]
            mid = sum(base) / len(base) if base else 0.0
            if name != 'phi':
                lo[i] = -ocpgen.INF if r.bool(0.25) else mid - r.unif(0.05, 1.0)
                up[i] = ocpgen.INF if r.bool(0.25) else mid + r.unif(0.05, 1.0)
            else:
                up[i] = ocpgen.INF if r.bool(0.25) else max(mid, lo[i]) + r.unif(0.05, 1.0)
        sides = ['l', 'u'] if name != 'phi' else ['u']
        if r.bool():
            sides.reverse()
        lab.add('con:' + name)
        for q in sides:
            a = (lo if q == 'l' else up)[rr]
            if name in ('bx', 'bu') and r.bool():
                s.set(k, q + name, noncontig(a, r))
            else:
                s.constraints_set(k, q + name, noncontig(a, r))
            cur = P.lo if q == 'l' else P.up
            cur[k] = cur[k].copy()
            cur[k][rr] = a
            M.remask(k)
    elif op == 'CD' and len(rows(P, k)['g']):
        ng = len(rows(P, k)['g'])
        C, D = r.mat(ng, P.nx), r.mat(ng, P.nu if k < N else 0)
        s.constraints_set(k, 'C', C, api='new')
        if k < N:
            s.constraints_set(k, 'D', D, api='new')
        P.CD[k] = (C, D)
    elif op == 'pglobal' and c['npg']:
        P.pg = r.vec(c['npg'])
        s.set_p_global_and_precompute_dependencies(noncontig(P.pg, r))
    elif op == 'file':
        fn = os.path.abspath('it_%d.json' % os.getpid())
        s.store_iterate(fn, overwrite=True, verbose=False)
        before = copy.deepcopy(M.it)
        for f in FIELDS:
            a = [vec(f, k) for k in range(len(it[f]))]
            s.set_flat(f, np.concatenate([np.zeros(0)] + a))
        s.load_iterate(fn, verbose=False)
        os.unlink(fn)
        M.it = before
    elif op == 'obj':
        I = s.get_iterate() if r.bool() else s.get_flat_iterate()
        iterate_equal(I, M, 'iterate object')
        J = I.flatten() if isinstance(I, AcadosOcpIterate) else I
        iterate_equal(J, M, 'flattened iterate')
        for f in FIELDS:
            s.set_flat(f, 7.0 + np.zeros(sum(M.dims[f])))
        s.set_iterate(I if r.bool() else J)
    elif op == 'reset':
        flags = dict(reset_qp_solver_mem=r.bool(), reset_numerical_values=r.bool(), reset_solver_options=r.bool(),
                     reset_x_to_x0_bar=c['x0'] == 'x0' and r.bool())
        s.reset(**flags)
        M.zero()
        if flags['reset_numerical_values']:
            M.numeric_reset()
            lab.add('reset:values')
        if flags['reset_x_to_x0_bar']:
            x0 = P.lo[0][rows(P, 0)['bx']]
            M.it['x'] = [x0.copy() for _ in range(N + 1)]
    elif op == 'steps':
        dt = r.vec(N, 0.05, 0.4)
        M.arr = getattr(M, 'arr', None)
        if M.arr is None or r.bool():
            M.arr = dt.copy()
        else:
            M.arr[:] = dt         # the caller reuses its array
        s.set_new_time_steps(M.arr)
        P.dt = dt
        P.scale = np.concatenate([dt, [P.scale[N]]])
    elif op == 'newN':
        if M.N0 < 2 or c['vsim']:
            return
        dt = r.vec(r.int(1, 6), 0.05, 0.4)
        if len(dt) == N:
            return
        s.set_new_time_steps(noncontig(dt, r))
        expect(s.N == len(dt), 'N = %s after set_new_time_steps with %d steps' % (s.N, len(dt)))
        M.resize(dt)
        P.scale[-1] = s.cost_get(P.N, 'scaling')[0]
        for f in FIELDS:
            M.it[f] = [s.get(k, f) for k in range(len(M.it[f]))]
    elif op == 'condN':
        s.update_qp_solver_cond_N(r.int(1, N))
    elif op == 'iterall':
        for f in FIELDS:
            M.it[f] = [vec(f, k) * 0.5 for k in range(len(it[f]))]
            for k in range(len(it[f])):
                if M.dims[f][k]:
                    s.set(k, f, M.it[f][k])
        for k in range(N + 1):
            M.remask(k)


def run(c):
    def opts(ocp):
        o = ocp.solver_options
        o.nlp_solver_type = 'SQP'
        o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
        o.qp_solver_cond_N = o.N_horizon
        o.nlp_solver_max_iter = 0
        o.eval_residual_at_max_iter = True
    P, ocp, s = c03.build(c['ocp'], opts)
    lab = set()
    nq = 0
    try:
        M = Model(P)
        for f in FIELDS:
            for k in range(len(M.it[f])):
                M.it[f][k] = s.get(k, f)
        check_all(s, M, 'after creation')
        ops = c['ops'] + ([['iterall', c['ops'][-1][1]], ['qp', 0]] if c['tail'] else [['qp', 0]])
        for n, (op, v) in enumerate(ops):
            tag = 'after op %d (%s)' % (n, op)
            if op == 'qp':
                nq += qp_check(s, M, tag)
                # the integrator returns the algebraic variables into the solver's own memory only
                M.it['z'] = [s.get(k, 'z') for k in range(len(M.it['z']))]
            else:
                apply(s, M, op, v, n, lab)
                lab.add(op)
            check_all(s, M, tag)
        return {'labels': ocpgen.prob_labels(c['ocp']) + sorted(lab), 'nontrivial': nq > 0 and len(c['ops']) > 1}
    finally:
        del s
        ocpgen.cleanup(ocp)
