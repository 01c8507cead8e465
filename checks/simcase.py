"""Generator and execution of AcadosSim cases (C01, C02)."""
import os
import numpy as np
import casadi as ca
from hypothesis import strategies as st

import common
from common import Rnd, expect_close, expect
import exprs
import refint

_n = [0]


def strategy(sens):
    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(['ERK', 'IRK', 'IRK', 'GNSF']))
        c = {'kind': kind, 'sx': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 40))}
        if kind == 'GNSF':
            c['sx'] = True       # structure detection is documented for SX models only
        c['nx'] = draw(st.integers(1, 4))
        c['nu'] = draw(st.integers(0, 2))
        if kind == 'GNSF':
            pass
        c['np'] = draw(st.integers(0, 3))
        c['nz'] = draw(st.integers(0, 2)) if kind != 'ERK' else 0
        c['stages'] = draw(st.integers(1, 4)) if kind == 'ERK' else draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
        c['steps'] = draw(st.integers(1, 4))
        c['coll'] = draw(st.sampled_from(['GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA']))
        c['tdep'] = kind == 'IRK' and draw(st.booleans())
        c['implicit'] = kind == 'IRK' and draw(st.booleans())
        c['linear'] = draw(st.integers(0, 5)) == 0
        c['T'] = draw(st.sampled_from([0.05, 0.1, 0.2, 0.3]))
        c['newton_tol'] = draw(st.sampled_from([0.0, 0.0, 1e-13]))
        c['zc'] = draw(st.integers(0, 2)) if kind == 'GNSF' else 0
        c['blind'] = draw(st.integers(0, 3))     # gnsf: how many variables enter only linearly
        if sens:
            c['forw'] = True
            c['adj'] = draw(st.booleans())
            c['hess'] = kind != 'GNSF' and draw(st.booleans())
            c['sp'] = kind != 'GNSF' and c['np'] > 0 and draw(st.booleans())
            c['alg'] = c['nz'] > 0 and draw(st.booleans())
        else:
            c['forw'] = draw(st.booleans())
            c['adj'] = c['hess'] = c['sp'] = c['alg'] = False
        c['ops'] = draw(st.lists(st.fixed_dictionaries({
            'v': st.integers(0, 2 ** 30),
            'what': st.sampled_from(['x', 'u', 'xup', 'xup', 'p', 'T', 't0', 'guess', 'simulate', 'toggle']),
        }), min_size=2, max_size=6))
        return c
    return case()


def dynamics(c):
    r = Rnd(c['seed'], 'sim')
    cls = ca.SX if c['sx'] else ca.MX
    if c['kind'] != 'GNSF' or c['linear']:
        return exprs.dynamics(r, cls, c['nx'], c['nu'], c['nz'], c['np'], tdep=c['tdep'], implicit=c['implicit'], linear_dyn=c['linear'])
    # GNSF-structured: linear part + few nonlinearities, possibly states/algebraics that are pure linear outputs
    d = {}
    nx, nu, nz, np_ = c['nx'], c['nu'], c['nz'], c['np']
    x, u, z, xd, p, t = cls.sym('x', nx), cls.sym('u', nu), cls.sym('z', nz), cls.sym('xdot', nx), cls.sym('p', np_), cls.sym('t')
    nlo = min(c['blind'], nx - 1) if nx > 1 else 0     # last nlo states do not feed back
    n1 = nx - nlo
    core = exprs.cat(cls, x[:n1], u)
    f = []
    nl = [exprs.scalar(r, exprs.cat(cls, x[:n1], u, p), amp=0.7) for _ in range(r.int(1, 2))]
    for i in range(nx):
        e = exprs.linear(r, 1, core)
        if r.bool(0.6):
            e = e + r.unif() * r.choice(nl)
        if i >= n1:
            e = e + r.unif() * x[i]
            if r.bool(0.3):
                e = e + exprs.term(r, core, 0.5)
        if nz and i < n1 and r.bool(0.5):
            e = e + 0.5 * r.unif() * z[r.int(0, nz - 1)]
        f.append(e)
    G = xd - ca.vertcat(*f)
    if nz:
        gz = [exprs.linear(r, 1, core) + (r.unif() * r.choice(nl) if r.bool(0.6) else 0) for _ in range(nz)]
        zc = c.get('zc', 0)
        if zc:      # algebraic equations coupled with each other and with the state derivatives
            rz = Rnd(c['seed'], 'zc')
            gz = [e + ca.mtimes(ca.DM(zc * rz.mat(1, n1)), xd[:n1]) + ca.mtimes(ca.DM(zc * rz.mat(1, nz)), z) for e in gz]
        G = ca.vertcat(G, z - ca.vertcat(*gz))
    d.update(x=x, u=u, z=z, xdot=xd, p=p, pg=cls.sym('pg', 0), t=t, G=G, f_expl=None)
    return d


def formulate(c, name):
    from acados_template import AcadosSim, AcadosModel
    d = dynamics(c)
    sim = AcadosSim()
    m = AcadosModel()
    m.name = name
    m.x, m.u = d['x'], d['u']
    if c['np']:
        m.p = d['p']
        sim.parameter_values = Rnd(c['seed'], 'p').vec(c['np'])
    if c['nz']:
        m.z = d['z']
    if c['tdep']:
        m.t = d['t']
    if c['kind'] == 'ERK':
        m.f_expl_expr = d['f_expl']
    else:
        m.xdot = d['xdot']
        m.f_impl_expr = d['G']
    sim.model = m
    o = sim.solver_options
    o.T = c['T']
    o.integrator_type = c['kind']
    o.num_stages, o.num_steps = c['stages'], c['steps']
    o.newton_iter = 120
    if c['newton_tol']:
        o.newton_tol = c['newton_tol']
    o.collocation_type = c['coll']
    o.sens_forw, o.sens_adj, o.sens_hess, o.sens_algebraic = c['forw'], c['adj'], c['hess'], c['alg']
    o.output_z = c['nz'] > 0
    if c['sp']:
        sim.code_gen_options.sens_forw_p = True
    sim.code_gen_options.ext_fun_compile_flags = '-O0'
    sim.code_gen_options.code_export_directory = os.path.join(os.getcwd(), 'c_' + name)
    sim.code_gen_options.json_file = os.path.join(os.getcwd(), name + '.json')
    return sim, d


def make(c):
    from acados_template import AcadosSimSolver
    _n[0] += 1
    sim, d = formulate(c, 'm%d' % _n[0])
    s = AcadosSimSolver(sim, verbose=False)
    return sim, s, reference(c, d)


def reference(c, d):
    return refint.Ref(d, 'ERK' if c['kind'] == 'ERK' else 'IRK', c['stages'], c['steps'], c['coll'])


def run(c, sens):
    import shutil
    c = dict(c)
    # GNSF + time or implicit nonlinear mass is outside; fall through by construction
    import sys

    def stop(*a, **k):
        raise RuntimeError('the code stopped at an interactive prompt')
    sys.breakpointhook = stop
    sim, s, ref = make(c)
    try:
        return _run(c, s, ref, sens)
    finally:
        d = sim.code_gen_options.code_export_directory
        del s
        shutil.rmtree(d, ignore_errors=True)


def _run(c, s, ref, sens):
    nx, nu, np_, nz = c['nx'], c['nu'], c['np'], c['nz']
    cur = {'x': np.zeros(nx), 'u': np.zeros(nu), 'p': Rnd(c['seed'], 'p').vec(np_), 'T': c['T'], 't0': 0.0}
    seed_set = np.zeros(nx)
    toggles = {'sens_forw': c['forw'], 'sens_adj': c['adj'], 'sens_hess': c['hess']}
    solves = 0
    tol = 1e-8
    for k, op in enumerate(c['ops']):
        r = Rnd(op['v'], 'op', k)
        w = op['what']
        if k == 0:
            w = 'xup'
        simx = None
        if w in ('x', 'xup', 'simulate'):
            cur['x'] = r.vec(nx)
            if w != 'simulate':
                s.set('x', cur['x'])
        if w in ('u', 'xup', 'simulate') and nu:
            cur['u'] = r.vec(nu)
            if w != 'simulate':
                s.set('u', cur['u'])
        if w in ('p', 'xup', 'simulate') and np_:
            cur['p'] = r.vec(np_)
            if w != 'simulate':
                s.set('p', cur['p'])
        if w == 'T':
            cur['T'] = c['T'] * r.choice([0.5, 0.8, 1.0, 1.2])
            s.set('T', cur['T'])
        if w == 't0' and c['kind'] == 'IRK':
            cur['t0'] = r.unif(0, 3)
            s.set('t0', cur['t0'])
        if w == 'guess' and c['kind'] == 'IRK':
            s.set('xdot', 0.5 * r.vec(nx))
            if nz:
                s.set('z', 0.5 * r.vec(nz))
        if w == 'toggle' and sens:
            f = r.choice(sorted(toggles))
            want = r.bool()
            orig = {'sens_forw': c['forw'], 'sens_adj': c['adj'], 'sens_hess': c['hess']}[f]
            # the Hessian sweep builds on the adjoint and forward sweeps and is switched alone
            if orig and not (f == 'sens_forw' and (c['hess'] or c['alg'])):
                s.options_set(f, want)
                toggles[f] = want
        if sens and (c['adj'] or c['hess']):
            seed_set = r.vec(nx)
            s.set('seed_adj', seed_set)
        rr = ref.integrate(cur['x'], cur['u'], cur['p'], cur['T'], cur['t0'])
        if rr is None or not np.all(np.isfinite(rr['x'])) or np.max(np.abs(rr['x'])) > 1e3 or rr.get('cond', 0) > 1e5:
            raise common.Skip('reference integration does not converge')
        if w == 'simulate':
            simx = s.simulate(x=cur['x'], u=cur['u'] if nu else None, p=cur['p'] if np_ else None)
        else:
            st_ = s.solve()
            expect(st_ == 0, 'op %d (%s): sim status %s' % (k, w, st_))
        solves += 1
        where = 'op %d (%s): ' % (k, w)
        xg = s.get('x')
        expect_close(where + 'x', xg, rr['x'], tol, 1e-9)
        if simx is not None:
            expect_close(where + 'simulate()', simx, rr['x'], tol, 1e-9)
        if nu:
            pass
        if nz:
            expect_close(where + 'z', s.get('z'), rr['z'], 1e-7, 1e-8)
        if not sens:
            continue
        S = rr['S']
        if toggles['sens_forw'] and c['forw']:
            expect_close(where + 'S_forw', s.get('S_forw'), S, 1e-7, 1e-8)
            expect_close(where + 'Sx', s.get('Sx'), S[:, :nx], 1e-7, 1e-8)
            if nu:
                expect_close(where + 'Su', s.get('Su'), S[:, nx:], 1e-7, 1e-8)
            if c['sp']:
                expect_close(where + 'S_p', s.get('S_p'), rr['Sp'], 1e-7, 1e-8)
            if c['alg']:
                expect_close(where + 'S_algebraic', s.get('S_algebraic'), rr['Sz'][:, :nx + nu], 1e-6, 1e-7)
        if toggles['sens_adj'] and c['adj']:
            expect_close(where + 'S_adj', s.get('S_adj'), S.T @ seed_set, 1e-7, 1e-8)
        if toggles['sens_hess'] and c['hess']:
            H = fd_hess(ref, cur, seed_set, nx, nu)
            expect_close(where + 'S_hess', s.get('S_hess'), H, 1e-6, 1e-6)
    labels = [c['kind'], 'sx' if c['sx'] else 'mx', 'linear' if c['linear'] else 'nonlinear', 'nz>0' if nz else 'nz=0']
    labels += ['sens:' + f for f in ('forw', 'adj', 'hess', 'sp', 'alg') if c[f]]
    if c['kind'] != 'ERK':
        labels.append(c['coll'])
    nontrivial = not c['linear'] and solves >= 2
    return {'nontrivial': nontrivial, 'labels': labels}


def fd_hess(ref, cur, seed, nx, nu):
    """4th-order central differences of the reference adjoint"""
    n = nx + nu
    H = np.zeros((n, n))
    h = 2e-3

    def g(w):
        o = ref.integrate(w[:nx], w[nx:], cur['p'], cur['T'], cur['t0'])
        return o['S'].T @ seed
    w0 = np.concatenate([cur['x'], cur['u']])
    for i in range(n):
        e = np.zeros(n)
        e[i] = h
        H[:, i] = (-g(w0 + 2 * e) + 8 * g(w0 + e) - 8 * g(w0 - e) + g(w0 - 2 * e)) / (12 * h)
    return 0.5 * (H + H.T)
