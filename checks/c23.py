"""Batch solvers do for every problem of the batch exactly what individual solvers do."""
import ctypes
import os
import shutil
import warnings
import numpy as np
from hypothesis import strategies as st
import c03
import ocpgen
import simcase
import solvercfg
from common import Rnd, Skip, expect

FLAT = ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam')
OPS = ('set', 'set', 'set_flat', 'set_flat', 'bounds', 'bounds', 'mat', 'pg', 'reset', 'solve', 'solve', 'solve', 'factorize', 'sens', 'sens',
       'adj', 'get', 'iterate', 'iterate', 'single', 'threads', 'initial')

_gomp = []


def init(job):
    c03.init(job)
    # keep the OpenMP runtime loaded when generated libraries are unloaded (its threads stay alive)
    _gomp.append(ctypes.CDLL('libgomp.so.1'))
    warnings.filterwarnings('ignore')


@st.composite
def full(draw, tier):
    if draw(st.integers(0, 7)) == 0:
        d = {'mode': 'sim', 'sim': draw(simcase.strategy(True))}
    else:
        sens = draw(st.booleans())
        if sens:
            c = draw(ocpgen.spec(integ=('DISCRETE',), hess=('EXACT',), phi=False, z=False, costs=('EXTERNAL', 'LINEAR_LS'),
                                 linear=True, cint=False, tdep=False, maxnx=3, maxN=4))
            c['npg'] = max(1, c['npg'])
            c['eq0'] = c['share'] = False
        else:
            c = draw(ocpgen.spec(hess=('GAUSS_NEWTON', 'GAUSS_NEWTON', 'EXACT'), linear=True, maxN=4, maxnx=3))
        d = {'mode': 'ocp', 'ocp': c, 'sens': sens}
        d['opt'] = draw(solvercfg.config(types=('SQP', 'SQP', 'SQP_RTI'), qps=('PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM')))
        d['save'] = draw(st.booleans())
    d['n0'] = draw(st.integers(1, 4))
    d['threads'] = draw(st.sampled_from([1, 1, 2, 4]))
    d['ops'] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2 ** 24)).map(list), min_size=2, max_size=12))
    return d


def strategy(tier):
    return full(tier)


def same(what, got, want):
    got, want = np.asarray(got, float), np.asarray(want, float)
    expect(got.shape == want.shape, '%s: shape %s, individual solver %s' % (what, got.shape, want.shape))
    expect(np.array_equal(got, want, equal_nan=True), lambda: '%s: batch\n%s\nindividual solver\n%s' % (what, got, want))


def run(d):
    return sim(d) if d['mode'] == 'sim' else ocp(d)


class Stop(Exception):
    pass


def ocp(d):
    from acados_template import AcadosOcpSolver, AcadosOcpBatchSolver
    import io
    import contextlib
    P = ocpgen.Problem(d['ocp'])
    o = P.acados()
    opt = solvercfg.coerce(d['opt'], d['ocp'])
    if d['sens']:
        opt['block'] = False
    solvercfg.apply(opt, o)
    so = o.solver_options
    so.nlp_solver_max_iter = 5
    so.qp_solver_iter_max = 50
    so.with_batch_functionality = True
    if d['sens']:
        g = o.code_gen_options
        g.with_solution_sens_wrt_params_forw = g.with_solution_sens_wrt_params_adj = g.with_value_sens_wrt_params = True
        so.qp_solver, so.qp_solver_cond_N = 'PARTIAL_CONDENSING_HPIPM', so.N_horizon
        so.regularize_method, so.levenberg_marquardt, so.fixed_hess = 'NO_REGULARIZE', 0.0, 0
        so.with_anderson_acceleration = False
        so.qpscaling_scale_objective = 'NO_OBJECTIVE_SCALING'
        so.qpscaling_scale_constraints = 'NO_CONSTRAINT_SCALING'
        so.nlp_solver_ext_qp_res = 0
        so.qp_solver_warm_start = 0
        so.hpipm_mode = 'BALANCE'
    B = None
    T = []
    N = P.N
    labels = ocpgen.prob_labels(d['ocp'])[:4] + [so.nlp_solver_type, 'sens' if d['sens'] else 'nosens', 'threads:%d' % d['threads']]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            B = AcadosOcpBatchSolver(o, d['n0'], d['threads'], verbose=False, save_p_global=d['save'])
        cur = d['n0']
        top = cur          # number of problems created so far

        def twins(n):
            while len(T) < n:
                T.append(AcadosOcpSolver(o, build=False, generate=False, verbose=False, check_reuse_possible=False, save_p_global=d['save']))
            return T[:n]
        twins(cur)
        nsolve, grown = 0, False
        stat = [None] * 8
        for k, (op, v) in enumerate(d['ops']):
            r = Rnd(v, 'op', k)
            w = 'op %d (%s): ' % (k, op)
            n = r.int(1, 5)            # problems of a setter
            m = r.choice([None, r.int(1, cur)])       # problems of an evaluation
            if op == 'set':
                stage = r.int(0, N)
                f = r.choice(['x', 'u', 'pi', 'lam', 'z', 'sl', 'su', 'p'])
                if stage == N and f in ('u', 'pi', 'z'):
                    continue
                dim = T[0].dims_get(f, stage)
                if not dim:
                    continue
                V = r.mat(n, dim)
                if f == 'lam':
                    V = np.abs(V)
                B.set(stage, f, V if r.bool() else np.asfortranarray(V))
                for i, t in enumerate(twins(n)):
                    t.set(stage, f, V[i])
                cur = n
            elif op == 'set_flat':
                f = r.choice(list(FLAT) + ['p'])
                dim = T[0].get_dim_flat(f)
                if not dim:
                    continue
                V = r.mat(n, dim)
                if f == 'lam':
                    V = np.abs(V)
                B.set_flat(f, V if r.bool() else np.asfortranarray(V))
                for i, t in enumerate(twins(n)):
                    t.set_flat(f, V[i])
                cur = n
            elif op == 'bounds':
                stage = r.int(0, N)
                nbu = len(P.con['idxbu']) if stage < N else 0
                fs = [('lbu', 'ubu', nbu), ('lbx', 'ubx', len(P.con['idxbx' + P.key(stage)])),
                      ('lg', 'ug', P.nrows(stage) - nbu - len(P.con['idxbx' + P.key(stage)]) - P.con['nh' + P.key(stage)]),
                      ('lh', 'uh', P.con['nh' + P.key(stage)])]
                fs = [f for f in fs if f[2]]
                if not fs or (d['ocp']['bgp'] and stage):
                    continue
                f = r.choice(fs)
                if f[0] == 'lh' and d['ocp']['bgp']:
                    continue
                M = r.mat(n, f[2])
                lo, up = M - 0.2 - np.abs(r.mat(n, f[2])), M + 0.2 + np.abs(r.mat(n, f[2]))
                if stage == 0 and f[0] == 'lbx':
                    up = lo
                for q, V in ((f[0], lo), (f[1], up)):
                    B.constraints_set(stage, q, V)
                    for i, t in enumerate(twins(n)):
                        t.constraints_set(stage, q, V[i])
                cur = n
            elif op == 'mat':
                stage = r.int(0, N)
                ng = T[0].constraints_get(stage, 'lg').size
                if not ng or stage == N and not P.nx:
                    continue
                q = r.choice(['C', 'D']) if stage < N else 'C'
                V = np.array([r.mat(ng, P.nx if q == 'C' else P.nu) for _ in range(n)])
                B.constraints_set(stage, q, V)
                for i, t in enumerate(twins(n)):
                    t.constraints_set(stage, q, V[i], api='new')
                cur = n
            elif op == 'pg':
                if not P.pg.size:
                    continue
                V = r.mat(n, P.pg.size)
                B.set_p_global_and_precompute_dependencies(V)
                for i, t in enumerate(twins(n)):
                    t.set_p_global_and_precompute_dependencies(V[i])
                cur = n
            elif op == 'reset':
                fl = dict(reset_qp_solver_mem=bool(r.bool(0.8)), reset_numerical_values=bool(r.bool()), reset_solver_options=bool(r.bool()),
                          reset_x_to_x0_bar=bool(r.bool()) and d['ocp']['x0'] == 'x0')
                nn = r.choice([None, n])
                B.reset(nn, **fl)
                cur = nn or cur
                for t in twins(cur):
                    t.reset(**fl)
            elif op in ('solve', 'factorize'):
                cur = m or cur
                if op == 'solve':
                    B.solve(m)
                    S = [t.solve() for t in T[:cur]]
                    nsolve += 1
                else:
                    B.setup_qp_matrices_and_factorize(m)
                    S = [t.setup_qp_matrices_and_factorize() for t in T[:cur]]
                expect(list(B.status) == S, '%sstatus %s, individual solvers %s' % (w, list(B.status), S))
                expect([s.status for s in B.ocp_solvers[:cur]] == S, '%sstatus of the solvers of the batch %s, individual solvers %s' % (w, [s.status for s in B.ocp_solvers[:cur]], S))
                stat[:cur] = S
            elif op == 'sens':
                if not d['sens']:
                    continue
                if any(s != 0 for s in stat[:cur]):
                    B.solve()
                    S = [t.solve() for t in T[:cur]]
                    expect(list(B.status) == S, '%sstatus %s, individual solvers %s' % (w, list(B.status), S))
                    stat[:cur] = S
                wrt = r.choice(['p_global', 'initial_state'] if d['ocp']['x0'] == 'x0' else ['p_global'])
                st_ = r.int(0, N - 1) if r.bool(0.4) else sorted(r.subset(N + 1, r.int(1, N + 1)))
                if not isinstance(st_, int):
                    st_ = [int(q) for q in st_]
                fl = {'return_sens_' + q: bool(r.bool(0.7)) for q in ('x', 'u', 'pi', 'lam', 'sl', 'su')}
                O = B.eval_solution_sensitivity(st_, wrt, sanity_checks=False, **fl)
                for i, t in enumerate(T[:cur]):
                    W = t.eval_solution_sensitivity(st_, wrt, sanity_checks=False, **fl)
                    expect(set(W) == set(O), '%sreturned %s, individual solver %s' % (w, sorted(O), sorted(W)))
                    for q in W:
                        if isinstance(st_, int):
                            same('%s%s of problem %d' % (w, q, i), O[q][i], W[q])
                        else:
                            expect(len(W[q]) == len(O[q]), '%s%s has %d entries, individual solver %d' % (w, q, len(O[q]), len(W[q])))
                            for j in range(len(W[q])):
                                same('%s%s entry %d of problem %d' % (w, q, j, i), O[q][j][i], W[q][j])
                labels.append('sens:' + wrt)
            elif op == 'adj':
                if not d['sens'] or any(s != 0 for s in stat[:cur]):
                    continue
                n = r.int(1, cur)
                ns = r.int(1, 2)
                sx = [(int(q), r.mat(n * P.nx, ns).reshape(n, P.nx, ns)) for q in r.subset(N + 1, r.int(0, N + 1))]
                su = [(int(q), r.mat(n * P.nu, ns).reshape(n, P.nu, ns)) for q in r.subset(N, r.int(0 if sx else 1, N))]
                O = B.eval_adjoint_solution_sensitivity(sx, su, sanity_checks=False)
                cur = n
                for i, t in enumerate(T[:n]):
                    W = t.eval_adjoint_solution_sensitivity([(q, a[i]) for q, a in sx], [(q, a[i]) for q, a in su], sanity_checks=False)
                    same('%sadjoint sensitivity of problem %d' % (w, i), O[i], W)
                labels.append('adj')
            elif op == 'get':
                stage = r.int(0, N)
                f = r.choice(['x', 'u', 'pi', 'lam', 'z', 'sl', 'su', 'p'])
                if stage == N and f in ('u', 'pi', 'z'):
                    continue
                O = B.get(stage, f, m)
                cur = m or cur
                for i, t in enumerate(T[:cur]):
                    same('%s%s at stage %d of problem %d' % (w, f, stage, i), O[i], t.get(stage, f))
                expect(len(O) == cur, '%s%d rows for %d problems' % (w, len(O), cur))
            elif op == 'iterate':
                O = B.get_flat_iterate(m)
                cur = m or cur
                expect(O.N_batch == cur, '%sN_batch %d for %d problems' % (w, O.N_batch, cur))
                its = [t.get_flat_iterate() for t in T[:cur]]
                for i, it in enumerate(its):
                    for f in FLAT:
                        same('%s%s of the iterate of problem %d' % (w, f, i), getattr(O[i], f), getattr(it, f))
                # permuted and extended
                n = r.int(1, 5)
                src = [r.int(0, cur - 1) for _ in range(n)]
                from acados_template.acados_ocp_iterate import AcadosOcpFlattenedBatchIterate
                X = AcadosOcpFlattenedBatchIterate(N_batch=n, **{f: getattr(O, f)[src] for f in FLAT})
                if r.bool():
                    a = r.int(0, n - 1)
                    X[a] = its[0]
                    src[a] = 0
                B.set_iterate(X)
                for i, t in enumerate(twins(n)):
                    t.set_iterate(its[src[i]])
                cur = n
            elif op == 'single':
                i = r.int(0, cur - 1)
                V = r.vec(T[0].get_dim_flat('x'))
                for s in (B.ocp_solvers[i], T[i]):
                    s.set_flat('x', V)
                    stat[i] = s.solve()
            elif op == 'threads':
                B.num_threads_in_batch_solve = r.int(1, 4)
            elif op == 'initial' and d['ocp']['x0'] == 'x0':
                nbu = len(P.con['idxbu'])
                M = r.mat(n, P.nx)
                for q in ('lbx', 'ubx'):
                    B.constraints_set(0, q, M)
                    for i, t in enumerate(twins(n)):
                        t.constraints_set(0, q, M[i])
                cur = n
            # all problems, those outside of the current batch included
            if len(T) > top:
                grown, top = True, len(T)
            expect(B.n_batch_current == cur, '%sn_batch_current is %d, expected %d' % (w, B.n_batch_current, cur))
            expect(len(B.ocp_solvers) == len(T), '%s%d solvers, expected %d' % (w, len(B.ocp_solvers), len(T)))
            for i, (s, t) in enumerate(zip(B.ocp_solvers, T)):
                for f in FLAT + ('p',):
                    same('%s%s of problem %d' % (w, f, i), s.get_flat(f), t.get_flat(f))
                if d['save'] and P.pg.size:
                    same('%sp_global of problem %d' % (w, i), s.get_flat('p_global'), t.get_flat('p_global'))
            for f in ('x', 'lam', 'p'):
                O = B.get_flat(f)
                for i in range(cur):
                    same('%sget_flat(%s) of problem %d' % (w, f, i), O[i], T[i].get_flat(f))
        if grown:
            labels.append('grown')
        labels += ['op:' + q for q in sorted({q for q, _ in d['ops']})]
        return {'nontrivial': nsolve > 0 and max(top, d['n0']) > 1, 'labels': labels}
    finally:
        del B
        T.clear()
        ocpgen.cleanup(o)


def sim(d):
    from acados_template import AcadosSimBatchSolver, AcadosSimSolver
    c = d['sim']
    o, dy = simcase.formulate(c, 'b%d' % os.getpid())
    o.solver_options.with_batch_functionality = True
    B, T = None, []
    nb = d['n0'] + 1
    try:
        B = AcadosSimBatchSolver(o, nb, d['threads'], verbose=False)
        T = [AcadosSimSolver(o, build=False, generate=False, verbose=False, check_reuse_possible=False) for _ in range(nb)]
        cur = nb
        for k, (op, v) in enumerate(d['ops']):
            r = Rnd(v, 'simop', k)
            w = 'op %d: ' % k
            for i in range(nb):
                for f, q in (('x', c['nx']), ('u', c['nu']), ('p', c['np'])):
                    if q and (k == 0 or r.bool()):
                        V = r.vec(q)
                        B.sim_solvers[i].set(f, V)
                        T[i].set(f, V)
                if r.bool(0.3):
                    t = c['T'] * r.choice([0.5, 0.8, 1.2])
                    B.sim_solvers[i].set('T', t)
                    T[i].set('T', t)
                if c['adj'] or c['hess']:
                    V = r.vec(c['nx'])
                    B.sim_solvers[i].set('seed_adj', V)
                    T[i].set('seed_adj', V)
            if r.bool(0.3):
                B.num_threads_in_batch_solve = r.int(1, 4)
            m = r.choice([None, r.int(1, cur)])
            B.solve(m)
            cur = m or cur
            expect(B.n_batch_current == cur, '%sn_batch_current is %d, expected %d' % (w, B.n_batch_current, cur))
            for t in T[:cur]:
                t.solve()
            for i in range(nb):
                for f in ['x'] + (['S_forw'] if c['forw'] else []) + (['S_adj'] if c['adj'] else []) + (['S_hess'] if c['hess'] else []) + (['z'] if c['nz'] else []):
                    same('%s%s of integrator %d of %d' % (w, f, i, cur), B.sim_solvers[i].get(f), T[i].get(f))
        return {'nontrivial': True, 'labels': ['sim', c['kind'], 'threads:%d' % d['threads']]}
    finally:
        del B
        T.clear()
        shutil.rmtree(o.code_gen_options.code_export_directory, ignore_errors=True)
        if os.path.exists(o.code_gen_options.json_file):
            os.unlink(o.code_gen_options.json_file)
