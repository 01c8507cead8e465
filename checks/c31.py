"""Multi-phase problems: the solver works on the concatenation of the phases as they were formulated."""
import contextlib
import io
import os
import warnings
import casadi as ca
import numpy as np
from hypothesis import strategies as st
import c03
import ocpgen
import solvercfg
from common import Rnd, Skip, expect, expect_close

PHASE = ('seed', 'nx', 'nu', 'integ', 'nz', 'np', 'linear', 'coll', 'cint', 'cost', 'cost0', 'coste', 'Wdiag', 'x0', 'nbu', 'nbx', 'nbxe',
         'ng', 'nge', 'nh0', 'nh', 'nhe', 'bgp', 'soft', 'rev', 'lbs', 'onesided')


def init(job):
    c03.init(job)
    warnings.filterwarnings('ignore')


@st.composite
def full(draw, tier):
    hess = draw(st.sampled_from(['GAUSS_NEWTON', 'GAUSS_NEWTON', 'EXACT']))
    n = draw(st.sampled_from([2, 2, 3, 1, 4]))
    kw = dict(hess=(hess,), linear=True, tdep=False, maxnx=3, maxN=3)
    ph = []
    for i in range(n):
        c = draw(ocpgen.spec(integ=('ERK', 'IRK', 'DISCRETE', 'DISCRETE') + (('GNSF',) if hess != 'EXACT' else ()), **kw))
        ph.append(c)
    d = {'phases': ph, 'Ns': [draw(st.integers(1, 3)) for _ in range(n)], 'trans': [draw(st.booleans()) for _ in range(n - 1)],
         'same': draw(st.integers(0, 3)) == 0, 'direct': draw(st.booleans()), 'none': draw(st.booleans()),
         'it': draw(st.lists(st.integers(0, 2 ** 30), min_size=1, max_size=2)),
         'pvar': draw(st.booleans()), 'yvar': draw(st.booleans()), 'bvar': draw(st.booleans()), 'pgvar': draw(st.booleans()),
         'solve': draw(st.booleans()), 'names': draw(st.booleans()), 'json': draw(st.integers(0, 2)) == 0}
    d['opt'] = draw(solvercfg.config(types=('SQP',), qps=('PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM')))
    return d


def strategy(tier):
    return full(tier)


class Multi:
    def __init__(self, d):
        S, Ns = [dict(c) for c in d['phases']], d['Ns']
        base = S[0]
        N = sum(Ns)
        cls = ca.SX if base['sx'] or any(c['integ'] == 'GNSF' for c in S) else ca.MX
        npg = 0 if any(c['integ'] == 'GNSF' for c in S) else base['npg']
        pg = cls.sym('pg', npg)
        stages = min(c['stages'] for c in S)
        if d['same']:
            for c in S:
                c['nx'] = base['nx']
        self.P, self.ks = [], []
        start, x = 0, None
        for j, c in enumerate(S):
            c.update(sx=cls is ca.SX, N=N, npg=npg, stages=stages, vsim=False, tdep=False, eq0=False, share=False,
                     **{q: base[q] for q in ('steps', 'grid', 'scaling', 'hess')})
            sh = {'seed': base['seed'], 'pg': pg, 'start': start, 'x': x}
            if j + 1 < len(S):
                if S[j + 1]['nx'] != c['nx']:
                    if d['trans'][j]:
                        # a phase with one interval maps to the next state dimension
                        c['integ'], c['nz'], c['cint'], c['linear'] = 'DISCRETE', 0, False, False
                        Ns[j] = Ns[j]
                        sh['nx_next'] = S[j + 1]['nx']
                    else:
                        S[j + 1]['nx'] = c['nx']
                        S[j + 1]['nbx'], S[j + 1]['nbxe'] = min(S[j + 1]['nbx'], c['nx']), min(S[j + 1]['nbxe'], c['nx'])
            c['nbx'], c['nbxe'] = min(c['nbx'], c['nx']), min(c['nbxe'], c['nx'])
            p = ocpgen.Problem(c, sh)
            if Rnd(c['seed'], 'p0', j).bool(0.25):
                p.p0 = np.zeros(c['np'])
                p.P = [p.p0.copy() for _ in range(N + 1)]
            self.P.append(p)
            self.ks.append(list(range(start, start + Ns[j] + (j == len(S) - 1))))
            start, x = start + Ns[j], None
            x = p.x_next if 'nx_next' in sh else p.xn[start]
        self.N = N
        self.npg, self.pg = npg, self.P[0].pg.copy()
        self.at = [p for p, ks in zip(self.P, self.ks) for _ in ks]

    def evaluate(self, it, exact):
        out = [None] * (self.N + 1)
        cost = 0.0
        for p, ks in zip(self.P, self.ks):
            ev = p.evaluate(it, exact, ks)
            cost += ev['cost']
            for k in ks:
                out[k] = ev['st'][k]
        return {'st': out, 'cost': cost, 'res': ocpgen.residuals(out, it)}

    def iterate(self, seed):
        its = [ocpgen.random_iterate(p, Rnd(seed, 'phase', j).int(0, 2 ** 30)) for j, p in enumerate(self.P)]
        it = {q: [] for q in ('x', 'u', 'pi', 'lam', 'sl', 'su')}
        r = Rnd(seed, 'pi')
        for j, ks in enumerate(self.ks):
            for k in ks:
                for q in it:
                    if q == 'pi':
                        if k < self.N:
                            it['pi'].append(r.vec(self.at[k + 1].nx))
                    else:
                        it[q].append(its[j][q][k])
        return it

    def set(self, s, it):
        for k, p in enumerate(self.at):
            s.set(k, 'x', it['x'][k])
            if k < self.N:
                s.set(k, 'u', it['u'][k])
                s.set(k, 'pi', it['pi'][k])
            for q in ('lam', 'sl', 'su'):
                if it[q][k].size:
                    s.set(k, q, it[q][k])

    def get(self, s):
        it = {q: [] for q in ('x', 'u', 'pi', 'lam', 'sl', 'su')}
        for k in range(self.N + 1):
            for q in it:
                if q in ('u', 'pi') and k == self.N:
                    if q == 'u':
                        it[q].append(np.zeros(0))
                    continue
                it[q].append(s.get(k, q))
        return it


def limit(d):
    """phases whose successor has another state dimension have one interval"""
    S, Ns = d['phases'], d['Ns']
    nx = S[0]['nx']
    for j in range(len(S) - 1):
        if not d['same'] and d['trans'][j] and S[j + 1]['nx'] != nx:
            Ns[j] = 1
            nx = S[j + 1]['nx']
        elif not d['same'] and not d['trans'][j]:
            pass


def run(d):
    from acados_template import AcadosOcpSolver, AcadosMultiphaseOcp
    d = dict(d, Ns=list(d['Ns']))
    limit(d)
    M = Multi(d)
    N, n = M.N, len(M.P)
    exact = M.P[0].c['hess'] == 'EXACT'
    nm = ocpgen.newname()
    mocp = AcadosMultiphaseOcp(list(d['Ns']))
    mocp.name = nm
    ocps = []
    with contextlib.redirect_stdout(io.StringIO()):
        for j, p in enumerate(M.P):
            o = p.acados(nm + ('_p%d' % j if d['names'] else ''))
            ocps.append(o)
            if d['direct']:
                mocp.model[j], mocp.cost[j], mocp.constraints[j] = o.model, o.cost, o.constraints
            else:
                mocp.set_phase(o, j)
        mocp.parameter_values = [p.p0.copy() for p in M.P]
    if M.npg:
        mocp.p_global_values = M.pg.copy()
    so, s0 = mocp.solver_options, ocps[0].solver_options
    for q in ('tf', 'sim_method_num_stages', 'sim_method_num_steps', 'sim_method_newton_iter', 'hessian_approx'):
        setattr(so, q, getattr(s0, q))
    if s0.time_steps is not None:
        so.time_steps = s0.time_steps
    if s0.shooting_nodes is not None:
        so.shooting_nodes = s0.shooting_nodes
    if s0.cost_scaling is not None:
        so.cost_scaling = s0.cost_scaling
    m = mocp.mocp_opts
    for q, vals, dflt in (('integrator_type', [p.c['integ'] for p in M.P], 'integrator_type'),
                          ('collocation_type', [p.c['coll'] for p in M.P], 'collocation_type'),
                          ('cost_discretization', ['INTEGRATOR' if p.c['cint'] else 'EULER' for p in M.P], 'cost_discretization')):
        if d['none'] and len(set(vals)) == 1:
            setattr(so, q, vals[0])
        else:
            setattr(m, q, vals)
    so.qp_solver = d['opt']['qp'] if d['solve'] else 'PARTIAL_CONDENSING_HPIPM'
    so.nlp_solver_max_iter = 60
    so.eval_residual_at_max_iter = True
    so.qp_solver_iter_max = 200
    so.globalization = 'MERIT_BACKTRACKING' if d['solve'] and d['opt']['glob'] == 'MERIT_BACKTRACKING' and not any(p.nz for p in M.P) else 'FIXED_STEP'
    so.regularize_method = 'PROJECT' if exact and d['solve'] else 'NO_REGULARIZE'
    if d['opt']['condN']:
        so.qp_solver_cond_N = min(d['opt']['condN'], N)
    plain = so.qp_solver.startswith('PARTIAL') and so.regularize_method == 'NO_REGULARIZE'
    g = mocp.code_gen_options
    g.ext_fun_compile_flags = '-O0'
    g.code_export_directory = os.path.join(os.getcwd(), 'c_' + nm)
    g.json_file = os.path.join(os.getcwd(), nm + '.json')
    s = None
    labels = ['phases:%d' % n, 'hess:' + M.P[0].c['hess'], 'direct' if d['direct'] else 'set_phase'] + sorted({p.c['integ'] for p in M.P})
    labels += ['nx varies'] * (len({p.nx for p in M.P}) > 1) + ['nu varies'] * (len({p.nu for p in M.P}) > 1) + ['p_global'] * bool(M.npg)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if d['json']:
                mocp.make_consistent(verbose=False)
                os.makedirs(g.code_export_directory, exist_ok=True)
                mocp.dump_to_json()
                mocp = AcadosMultiphaseOcp.from_json(g.json_file)
                g = mocp.code_gen_options
                labels.append('json')
            s = AcadosOcpSolver(mocp, verbose=False)
        for i, v in enumerate(d['it']):
            r = Rnd(v, 'vary', i)
            if i and d['pgvar'] and M.npg:
                M.pg = M.pg + 0.3 * r.vec(M.npg)
                for p in M.P:
                    p.pg = M.pg
                s.set_p_global_and_precompute_dependencies(M.pg)
            for p, ks in zip(M.P, M.ks):
                c03.vary(p, s, r, d['pvar'], d['yvar'], ks)
                if d['bvar']:
                    c03.vary_bounds(p, s, r, True, ks)
            it = M.iterate(v)
            M.set(s, it)
            s.options_set('max_iter', 0)
            status = s.solve()
            expect(status in (0, 2), 'status %s with zero iterations' % status)
            ev = M.evaluate(it, exact)
            if max(np.max(np.abs(e['c'])) if e['c'].size else 0 for e in ev['st']) > 1e3:
                raise Skip('iterate too large')
            for j, (p, ks) in enumerate(zip(M.P, M.ks)):
                if plain:
                    c03.compare_qp(s, p, it, ev, exact, 'phase %d ' % j, ks)
            expect_close('cost', s.get_cost(), ev['cost'], 1e-8, 1e-8)
            res = s.get_residuals(recompute=True)
            expect_close('residuals', res, ev['res'], 1e-6, 1e-7)
        if d['solve']:
            # from the phases' nominal points
            it = M.iterate(d['it'][0])
            for k, p in enumerate(M.at):
                s.set(k, 'x', p.xn[k])
                if k < N:
                    s.set(k, 'u', p.un[k])
                    s.set(k, 'pi', np.zeros(M.at[k + 1].nx))
                for q in ('lam', 'sl', 'su'):
                    if it[q][k].size:
                        s.set(k, q, np.zeros(it[q][k].size))
            s.options_set('max_iter', 60)
            if s.solve() == 0:
                labels.append('solved')
                it = M.get(s)
                expect(all(np.all(np.isfinite(q)) for l in it.values() for q in l), 'success reported with non-finite values')
                ev = M.evaluate(it, exact)
                for name, v in zip(('stationarity', 'dynamics', 'inequality', 'complementarity'), ev['res']):
                    expect(v <= 1.001e-6 + 1e-9, 'success reported, but the %s residual of the problem is %.3e (reported %s)' % (name, v, s.get_residuals()))
                expect_close('optimal cost', s.get_cost(), ev['cost'], 1e-8, 1e-8)
        return {'nontrivial': n > 1, 'labels': labels + ['qp compared'] * plain}
    finally:
        del s
        ocpgen.cleanup(mocp)
