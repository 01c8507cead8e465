"""Formulations survive JSON, generated code is a function of the formulation, and stale code is never reused."""
import filecmp
import inspect
import json
import os
import shutil
import warnings
import casadi as ca
import numpy as np
from hypothesis import strategies as st
import c03
import ocpgen
import simcase
import solvercfg
from common import Rnd, Skip, expect, expect_close

SECTIONS = ('constraints', 'cost', 'solver_options', 'dims', 'code_gen_options')
STR = {
    'nlp_solver_type': ['SQP', 'SQP_RTI', 'DDP', 'SQP_WITH_FEASIBLE_QP'],
    'qp_solver': ['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_OSQP'],
    'hessian_approx': ['GAUSS_NEWTON', 'EXACT'], 'integrator_type': ['ERK', 'IRK', 'DISCRETE'],
    'collocation_type': ['GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA', 'EXPLICIT_RUNGE_KUTTA'],
    'regularize_method': ['NO_REGULARIZE', 'MIRROR', 'PROJECT', 'CONVEXIFY', 'PROJECT_REDUC_HESS', 'GERSHGORIN_LEVENBERG_MARQUARDT'],
    'globalization': ['FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH'],
    'cost_discretization': ['EULER', 'INTEGRATOR'], 'hpipm_mode': ['BALANCE', 'SPEED', 'ROBUST'],
    'qpscaling_scale_objective': ['NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN'],
    'qpscaling_scale_constraints': ['NO_CONSTRAINT_SCALING', 'INF_NORM'],
    'nlp_solver_tol_strategy': None, 'ext_fun_compile_flags': ['-O0', '-O1', '-O2'],
    'qp_solver_warm_start': None, 'as_rti_level': None,
}


def init(job):
    c03.init(job)
    warnings.filterwarnings('ignore')


@st.composite
def full(draw, tier):
    c = draw(ocpgen.spec(hess=('GAUSS_NEWTON', 'EXACT'), linear=True, cint=True, tdep=True, maxN=4, maxnx=3))
    d = {'ocp': c}
    d['mode'] = draw(st.sampled_from(['pair', 'pair', 'pair', 'round', 'round', 'e2e', 'sim']))
    d['fixed'] = draw(st.booleans())
    d['sim'] = draw(simcase.strategy(False)) if d['mode'] == 'sim' else None
    d['opts'] = [[draw(st.integers(0, 2 ** 20)), draw(st.integers(0, 7))] for _ in range(draw(st.integers(0, 8)))]
    d['tweaks'] = [[draw(st.integers(0, 2 ** 20)), draw(st.integers(0, 15)), draw(st.integers(0, 9))] for _ in range(draw(st.integers(1, 8)))]
    return d


def strategy(tier):
    return full(tier)


def props(o):
    return [k for k, v in inspect.getmembers(type(o), lambda v: isinstance(v, property))]


def get(o, k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return getattr(o, k)
    except Exception as e:
        return 'raises ' + type(e).__name__


def norm(v):
    """comparable form of a property value"""
    if isinstance(v, (np.ndarray, ca.DM)):
        a = np.array(v, float)
        if not a.size:
            return []
        return {'shape': list(a.shape), 'v': a.ravel().tolist()}
    if isinstance(v, (list, tuple)):
        return [norm(q) for q in v]
    if isinstance(v, (np.integer, np.floating, np.bool_)):
        return v.item()
    if isinstance(v, dict):
        return {k: norm(q) for k, q in v.items()}
    if v is None or isinstance(v, (int, float, str, bool)):
        return v
    if hasattr(v, '__dict__'):
        return repr(type(v))
    return repr(v)


IGNORE = {('dims', 'n_global_data')}


def state(ocp):
    s = {}
    for sec in SECTIONS:
        o = getattr(ocp, sec)
        for k in props(o):
            if (sec, k) not in IGNORE:
                s[sec + '.' + k] = norm(get(o, k))
    for k in ('parameter_values', 'p_global_values', 'name'):
        s[k] = norm(getattr(ocp, k))
    m = ocp.model
    for k in props(m):
        v = get(m, k)
        if not isinstance(v, (ca.SX, ca.MX)):
            s['model.' + k] = norm(v)
    return s


def dist(a, b):
    """0 equal, inf structurally different, else largest numerical difference"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return np.inf
        return max([dist(a[k], b[k]) for k in a] + [0.])
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return np.inf
        return max([dist(x, y) for x, y in zip(a, b)] + [0.])
    num = (int, float, bool)
    if isinstance(a, num) and isinstance(b, num):
        return 0. if a == b else abs(float(a) - float(b))
    if a in (None, []) and b in (None, []):
        return 0.
    return 0. if a == b else np.inf


def diff(A, B):
    out = {}
    for k in sorted(set(A) | set(B)):
        e = dist(A.get(k), B.get(k)) if k in A and k in B else np.inf
        if e > 0:
            out[k] = e
    return out


def tweak(ocp, s, kind, size):
    """change one thing; -> description or None if it does not apply"""
    r = Rnd(s, 'tweak')
    m = ocp.model
    if kind == 0:
        exprs_ = [k for k in props(m) if isinstance(get(m, k), (ca.SX, ca.MX)) and k not in ('x', 'u', 'z', 'p', 'p_global', 't', 'xdot', 'con_r_in_phi', 'con_r_in_phi_0', 'con_r_in_phi_e', 'cost_r_in_psi_expr', 'cost_r_in_psi_expr_0', 'cost_r_in_psi_expr_e', 'p_slack', 'pi', 't0', 't_label')
                  and get(m, k).numel() > 0]
        if not exprs_:
            return None
        k = r.choice(exprs_)
        v = getattr(m, k)
        if r.bool():
            setattr(m, k, v * (1 + 1e-3))
        else:
            setattr(m, k, v + 1e-3 * ca.sin(v))
        return 'model.%s' % k
    sec = r.choice(['constraints', 'constraints', 'cost', 'solver_options', 'solver_options', 'code_gen_options', 'ocp'])
    if sec == 'ocp':
        k = r.choice(['parameter_values', 'p_global_values'])
        v = np.array(getattr(ocp, k), float)
        if not v.size:
            return None
        v[r.int(0, v.size - 1)] += [1e-3, 1e-9][size % 2]
        setattr(ocp, k, v)
        return k
    o = getattr(ocp, sec)
    keys = [k for k in props(o) if k not in ('json_file', 'code_export_directory', 'acados_lib_path', 'acados_include_path', 'acados_link_libs', 'cython_include_dirs', 'os', 'shared_lib_ext', 'ext_fun_expand_constr')]
    arrays = [q for q in keys if isinstance(get(o, q), np.ndarray) and get(o, q).size and get(o, q).dtype.kind == 'f']
    wide = [q for q in arrays if np.max(np.abs(get(o, q))) > 1e6]     # absent bounds: the tolerance is absolute nevertheless
    k = r.choice(wide if wide and r.bool(0.4) else arrays if arrays and r.bool(0.4) else keys)
    v = get(o, k)
    try:
        if isinstance(v, bool):
            new = not v
        elif isinstance(v, str):
            alt = STR.get(k)
            if not alt:
                return None
            new = r.choice(alt)
        elif isinstance(v, (int, np.integer)):
            new = int(v) + r.choice([1, 1, 2, -1])
        elif isinstance(v, (float, np.floating)):
            new = float(v) * 1.25 + (0.01 if size % 2 else 0.)
        elif isinstance(v, np.ndarray) and v.size and v.dtype.kind == 'f':
            new = v.copy()
            small = [i for i in range(v.size) if abs(v.ravel()[i]) < 1e6] or [0]
            new.ravel()[r.choice(small)] += [1e-3, 1e-9, 1.0, 1e-15][size % 4]
        elif v is None:
            new = r.choice([1e-3, 2, True])
        else:
            return None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            setattr(o, k, new)
    except Exception:
        return None
    return '%s.%s: %s -> %s' % (sec, k, v, new)


def fresh(d, name, extra=()):
    """the same formulation built anew"""
    P = ocpgen.Problem(d['ocp'])
    ocp = P.acados(name)
    o = ocp.solver_options
    for s, size in d['opts']:
        r = Rnd(s, 'opts')
        k = r.choice([k for k in props(o) if k not in ('N_horizon', 'tf', 'time_steps', 'shooting_nodes', 'Tsim')])
        v = get(o, k)
        try:
            if isinstance(v, bool):
                setattr(o, k, not v)
            elif isinstance(v, str):
                if STR.get(k):
                    setattr(o, k, r.choice(STR[k]))
            elif isinstance(v, int):
                setattr(o, k, v + 1)
            elif isinstance(v, float):
                setattr(o, k, v * 1.5 + .01)
        except Exception:
            pass
    for t in extra:
        d_ = tweak(ocp, *t)
        if d_ is None:
            return P, ocp, None
    return P, ocp, extra and d_


def consistent(ocp):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ocp.make_consistent(verbose=False)
        return True
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return False


def run(d):
    if d['mode'] == 'sim':
        return sim(d)
    from acados_template import AcadosOcp, AcadosOcpSolver
    name = 'j%d' % os.getpid()
    P, A, _ = fresh(d, name)
    jf, cd = A.code_gen_options.json_file, A.code_gen_options.code_export_directory
    labels = ['mode:' + d['mode']] + ocpgen.prob_labels(d['ocp'])[:4]
    try:
        if not consistent(A):
            d = dict(d, opts=[])
            P, A, _ = fresh(d, name)
            consistent_or_raise(A)
        f = {'pair': pair, 'round': around, 'e2e': e2e}[d['mode']]
        return f(d, P, A, name, labels)
    finally:
        for q in (cd, cd + '_old'):
            if os.path.isdir(q):
                shutil.rmtree(q, ignore_errors=True)
        if os.path.exists(jf):
            os.unlink(jf)


def consistent_or_raise(A):
    try:
        A.make_consistent(verbose=False)
    except NotImplementedError as e:
        raise Skip(str(e)[:60])


def pair(d, P, A, name, labels):
    from acados_template import AcadosOcpSolver
    sA0 = state(A)
    os.makedirs(A.code_gen_options.code_export_directory, exist_ok=True)
    A.dump_to_json()
    expect(not diff(sA0, state(A)), 'dump_to_json changed the formulation: %s' % diff(sA0, state(A)))
    P2, B, _ = fresh(d, name)
    B.make_consistent(verbose=False)
    expect(not diff(sA0, state(B)), 'the same formulation built twice differs: %s' % diff(sA0, state(B)))
    expect(AcadosOcpSolver.is_code_reuse_possible(B, False, 1e-13), 'code of the identical formulation is not reused')
    n = 0
    for t in d['tweaks']:
        _, B, what = fresh(d, name, [t])
        if what is None or not consistent(B):
            labels.append('tweak rejected')
            continue
        D = diff(sA0, state(B))
        got = AcadosOcpSolver.is_code_reuse_possible(B, False, 1e-13)
        worst = max(D.values()) if D else 0.
        if what.startswith('model.') and t[1] == 0:
            worst = np.inf
        if worst == 0.:
            expect(got, 'code is not reused although nothing changed (%s)' % what)
            labels.append('unchanged')
        elif worst > 1e-12:
            expect(not got, 'code of another formulation would be reused: %s; differing: %s' % (what, sorted(D)[:8]))
            n += 1
            labels.append('tweak:' + what.split(':')[0].split('.')[0])
        else:
            expect(got, 'code is not reused although values differ by %g only (%s)' % (worst, what))
    # a formulation loaded from the file
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        L = type(A).from_json(A.code_gen_options.json_file)
    L.make_consistent(verbose=False)
    expect(AcadosOcpSolver.is_code_reuse_possible(L, False, 1e-13), 'code is not reused for the formulation loaded from its JSON file')
    return {'nontrivial': n > 0, 'labels': sorted(set(labels))}


RS = ('cost_r_in_psi_expr', 'cost_r_in_psi_expr_0', 'cost_r_in_psi_expr_e', 'con_r_in_phi', 'con_r_in_phi_0', 'con_r_in_phi_e')


def functions(ocp):
    """all model expressions as one function per field"""
    m = ocp.model
    out = {}
    base, rs = {}, {}
    for k in ('x', 'u', 'z', 'p', 'p_global', 't', 'xdot') + RS:
        v = get(m, k)
        if isinstance(v, (ca.SX, ca.MX)) and v.numel():
            (rs if k in RS else base)[k] = v
    sym = dict(base, **rs)
    for k in props(m):
        v = get(m, k)
        if isinstance(v, (ca.SX, ca.MX)) and v.numel() and k not in sym and k not in ('t0', 'p_slack', 'pi'):
            suf = k[-2:] if k[-2:] in ('_0', '_e') else ''
            arg = [sym[q] if q in base or (q[-2:] if q[-2:] in ('_0', '_e') else '') == suf else type(sym[q]).sym('unused', *sym[q].shape) for q in sym]
            try:
                out[k] = ca.Function('f', arg, [ca.densify(v)])
            except RuntimeError as e:
                if 'free' in str(e):
                    expect(False, 'model.%s depends on variables that are not part of the model: %s' % (k, str(e)[:200]))
                raise
    return {k: v.shape for k, v in sym.items()}, out


def around(d, P, A, name, labels):
    """object -> JSON -> object -> JSON and generated code"""
    from acados_template import AcadosOcp, AcadosOcpSolver
    AcadosOcpSolver.generate(A, verbose=False)
    jf, cd = A.code_gen_options.json_file, A.code_gen_options.code_export_directory
    js = open(jf).read()
    sA = state(A)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        L = AcadosOcp.from_json(jf)
    sa, fa = functions(A)
    sl, fl = functions(L)
    expect(sa == sl and sorted(fa) == sorted(fl), 'expressions of the model after loading: %s %s' % (sorted(set(sa) ^ set(sl)), sorted(set(fa) ^ set(fl))))
    r = Rnd(d['ocp']['seed'], 'pt')
    for i in range(2):
        arg = [r.vec(sh[0]) for sh in sa.values()]
        for k in fa:
            expect_close('model.%s after loading' % k, np.array(fl[k](*arg)), np.array(fa[k](*arg)), 0, 0)
    os.rename(cd, cd + '_old')
    L.make_consistent(verbose=False)
    D = diff(sA, state(L))
    expect(not D, 'make_consistent changes the loaded formulation: %s' % {k: (sA.get(k), state(L).get(k)) for k in list(D)[:4]})
    AcadosOcpSolver.generate(L, verbose=False)
    same_tree(cd + '_old', cd)
    a, b = json.loads(js), json.loads(open(jf).read())
    for q in (a, b):
        q['model'].pop('serialized_expressions', None)
        q.pop('hash', None)
        q.pop('json_file', None)
    D = [(k, q, a[k].get(q), b[k].get(q)) if isinstance(a[k], dict) else k for k in set(a) & set(b) if a[k] != b[k]
         for q in (sorted(set(a[k]) | set(b[k])) if isinstance(a[k], dict) else [0]) if not isinstance(a[k], dict) or dist(a[k].get(q), b[k].get(q)) > 0]
    expect(not D and set(a) == set(b), 'JSON file of the loaded formulation differs in %s' % D)
    return {'nontrivial': True, 'labels': labels}


def same_tree(a, b):
    fa = sorted(os.path.relpath(os.path.join(r, f), a) for r, _, fs in os.walk(a) for f in fs)
    fb = sorted(os.path.relpath(os.path.join(r, f), b) for r, _, fs in os.walk(b) for f in fs)
    expect(fa == fb, 'generated files differ: %s' % sorted(set(fa) ^ set(fb)))
    for f in fa:
        if f.endswith('.json'):
            continue                    # compared as a dictionary
        x, y = open(os.path.join(a, f), 'rb').read(), open(os.path.join(b, f), 'rb').read()
        if x != y:
            lx, ly = x.decode().split('\n'), y.decode().split('\n')
            dl = [(p, q) for p, q in zip(lx, ly) if p != q][:3]
            expect(False, 'generated file %s differs: %s (%d, %d lines)' % (f, dl, len(lx), len(ly)))


EDIT = ('same', 'same', 'seed', 'seed', 'steps', 'stages', 'scaling', 'integ', 'hess', 'grid', 'onesided', 'cost', 'N', 'np', 'sx', 'Wdiag')


def variants(d, draw):
    """the formulations of successive runs of a user's script: (spec, generate, build)"""
    c, out = d['ocp'], []
    for s, kind, size in [(d['ocp']['seed'], 0, 0)] + d['tweaks'][:2]:
        r = Rnd(s, 'variant', kind)
        k = r.choice(EDIT)
        if out:
            c = dict(c)
            if k == 'seed':
                c['seed'] = s
            elif k == 'steps':
                c['steps'] = c['steps'] + 1
            elif k == 'stages':
                c['stages'] = c['stages'] % 4 + 1
            elif k in ('scaling', 'onesided', 'sx', 'Wdiag'):
                c[k] = not c[k]
            elif k == 'integ':
                c[k] = 'IRK' if c[k] == 'ERK' else 'ERK' if c[k] == 'IRK' and not c['nz'] and not c['tdep'] else c[k]
            elif k == 'hess':
                c[k] = 'EXACT' if not (c['bgp'] or c['cint'] or c['nz'] or 'CONVEX_OVER_NONLINEAR' in (c['cost'], c['cost0'], c['coste'])) else c[k]
            elif k == 'grid':
                c[k] = {'uniform': 'nodes', 'nodes': 'steps'}.get(c[k], 'uniform')
            elif k == 'cost':
                c[k] = 'NONLINEAR_LS' if c[k] == 'LINEAR_LS' else c[k]
            elif k in ('N', 'np'):
                c[k] += 1
        out.append((c, bool(r.bool(0.3)), bool(r.bool(0.3)), k if out else 'first'))
    return out


def e2e(d, P, A, name, labels):
    """a solver created without generating and building is the solver of the current formulation"""
    from acados_template import AcadosOcpSolver
    prev, n = None, 0
    jf, cd = A.code_gen_options.json_file, A.code_gen_options.code_export_directory
    for c, gen, bld, k in variants(d, None):
        P = ocpgen.Problem(c)
        ocp = P.acados(name)
        expect(ocp.code_gen_options.code_export_directory == cd, 'harness: directory')
        if d['fixed']:
            ocp.name = 'fixed_' + name
        ocp.solver_options.nlp_solver_max_iter = 0
        ocp.solver_options.eval_residual_at_max_iter = True
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = AcadosOcpSolver(ocp, generate=gen, build=bld, verbose=False)
        try:
            if c == prev and not gen:
                expect(not s.generated, 'code of the identical formulation is generated again')
            if c == prev:
                labels.append('reused' if not gen else 'regenerated')
            exact = c['hess'] == 'EXACT'
            it = ocpgen.random_iterate(P, c['seed'])
            ocpgen.set_iterate(s, P, it)
            st_ = s.solve()
            expect(st_ in (0, 2), 'status %d with zero iterations' % st_)
            ev = P.evaluate(it, exact)
            if max(np.max(np.abs(e['c'])) if e['c'].size else 0 for e in ev['st']) > 1e3:
                raise Skip('iterate too large')
            c03.compare_qp(s, P, it, ev, exact, 'solver of %s (generate=%s, build=%s, change: %s) ' % ('the same formulation' if c == prev else 'a new formulation', gen, bld, k))
        finally:
            del s
        prev = c
        labels.append('change:' + k)
        n += k != 'first'
    return {'nontrivial': n > 0, 'labels': sorted(set(labels))}


def sim_variants(d):
    c, out = d['sim'], []
    for s, kind, size in [(c['seed'] % 1000, 0, 0)] + d['tweaks'][:3]:
        r = Rnd(s, 'variant', kind)
        k = r.choice(['same', 'seed', 'T', 'stages', 'steps', 'coll', 'nx', 'np', 'linear', 'forw'])
        if out:
            c = dict(c)
            if k == 'seed':
                c[k] = s
            elif k == 'T':
                c[k] = c[k] * (1.5 if size % 2 else 1 + 1e-6)
            elif k == 'stages':
                c[k] = c[k] % 4 + 1
            elif k in ('steps', 'nx', 'np'):
                c[k] += 1
            elif k in ('linear', 'forw'):
                c[k] = not c[k]
            elif k == 'coll':
                c[k] = 'GAUSS_RADAU_IIA' if c[k] == 'GAUSS_LEGENDRE' else 'GAUSS_LEGENDRE'
        out.append((c, bool(r.bool(0.3)), bool(r.bool(0.3)), k if out else 'first'))
    return out


def sim(d):
    """the same for integrators"""
    from acados_template import AcadosSimSolver
    name = 'i%d' % os.getpid()
    prev, labels, o = None, ['mode:sim', 'sim:' + d['sim']['kind']], None
    try:
        for c, gen, bld, k in sim_variants(d):
            o, dy = simcase.formulate(c, name)
            if d['fixed']:
                o.name = 'fixed_' + name
            s = AcadosSimSolver(o, generate=gen, build=bld, verbose=False)
            try:
                if c == prev and not gen and c['kind'] != 'GNSF':   # the GNSF structure is detected when generating
                    expect(not s.generated, 'integrator code of the identical formulation is generated again')
                r = Rnd(c['seed'], 'simpt')
                x, u = r.vec(c['nx']), r.vec(c['nu'])
                rr = simcase.reference(c, dy).integrate(x, u, Rnd(c['seed'], 'p').vec(c['np']), c['T'], 0.0)
                if rr is None or not np.all(np.isfinite(rr['x'])) or np.max(np.abs(rr['x'])) > 1e3 or rr.get('cond', 0) > 1e5:
                    raise Skip('reference integration does not converge')
                s.set('x', x)
                if c['nu']:
                    s.set('u', u)
                st_ = s.solve()
                expect(st_ == 0, 'sim status %d' % st_)
                w = 'integrator of %s (generate=%s, build=%s, change: %s): ' % ('the same model' if c == prev else 'a new model', gen, bld, k)
                expect_close(w + 'x', s.get('x'), rr['x'], 1e-8, 1e-9)
                if c['forw']:
                    expect_close(w + 'S_forw', s.get('S_forw'), rr['S'], 1e-7, 1e-8)
            finally:
                del s
            labels.append('change:' + k)
            prev = c
    finally:
        if o is not None:
            shutil.rmtree(o.code_gen_options.code_export_directory, ignore_errors=True)
            if os.path.exists(o.code_gen_options.json_file):
                os.unlink(o.code_gen_options.json_file)
    return {'nontrivial': True, 'labels': sorted(set(labels))}
