"""Cost translations and cost queries keep the cost: value, gradient and (Gauss-Newton) Hessian."""
import casadi as ca
import numpy as np
from hypothesis import strategies as st
import exprs
import formul
from common import Rnd, Skip, expect, expect_close

KINDS = ['LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL']


def init(job):
    import acados_template.utils as U
    U.is_tera_version_sufficient = lambda *a: True


@st.composite
def full(draw):
    c = formul.dims(draw, st)
    c['op'] = op = draw(st.sampled_from(['conl', 'ext', 'ext', 'copy', 'auto', 'auto', 'expr', 'expr']))
    ks = ['NONLINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR'] if op == 'conl' else KINDS
    c['kinds'] = [draw(st.sampled_from(ks + [None])), draw(st.sampled_from(ks)), draw(st.sampled_from(ks))]
    c['hess'] = draw(st.sampled_from(['EXACT', 'EXACT', 'GAUSS_NEWTON']))
    c['sub'] = [draw(st.integers(0, 15)) for _ in range(3)]
    c['pg_on'] = draw(st.booleans())
    c['each'] = draw(st.booleans())
    c['quad'] = [draw(st.sampled_from(['full', 'full', 'square', 'diag', 'offset', 'lin', 'bilinear', 'rank', 'p', 'cubic', 'quart', 'zero', 'int'])) for _ in range(3)]
    return c


def strategy(tier):
    return full()


def consistent(ocp, what):
    """the formulation is accepted"""
    try:
        ocp.make_consistent(verbose=False)
    except Exception as e:
        expect(False, '%s: make_consistent rejects the formulation: %s %s' % (what, type(e).__name__, e))


def meaning(ocp, d, sf, what):
    try:
        return formul.Meaning(ocp, d, sf)
    except AssertionError as e:
        expect(False, '%s: inconsistent cost term: %s' % (what, e))


def run(c):
    ocp, d = formul.new(c)
    if c['op'] == 'auto':
        return auto(c, ocp, d)
    for sf, k in zip(formul.STAGES, c['kinds']):
        formul.set_cost(ocp, d, c, sf, k)
    before = {sf: formul.Meaning(ocp, d, sf) for sf in formul.STAGES}
    w0 = list(formul.points(c, ocp, 3))
    want = {sf: [m(w) for w in w0] for sf, m in before.items()}
    labels = ['op:' + c['op'], 'kinds:%s' % '/'.join(str(k)[:3] for k in c['kinds']), 'sx' if c['sx'] else 'mx']
    if c['nz']:
        labels.append('z')
    op = c['op']
    ocp.solver_options.hessian_approx = 'GAUSS_NEWTON'
    if op == 'expr':
        return query(c, ocp, d, before, labels)
    if op == 'copy':
        ocp.copy_path_cost_to_stage_0()
        m = meaning(ocp, d, '_0', 'copy_path_cost_to_stage_0')
        expect(ocp.cost.cost_type_0 == ocp.cost.cost_type, 'cost_type_0 %s after the copy' % ocp.cost.cost_type_0)
        for w, v in zip(w0, want['']):
            formul.compare('stage 0 after copy_path_cost_to_stage_0', m(w), v)
        consistent(ocp, 'after copy_path_cost_to_stage_0')
        for sf in ('', '_e'):
            for w, v in zip(w0, want[sf]):
                formul.compare('stage%s after copy_path_cost_to_stage_0' % sf, formul.Meaning(ocp, d, sf)(w), v)
        return {'nontrivial': True, 'labels': labels}
    if op == 'conl':
        ocp.translate_nls_cost_to_conl()
        for sf in formul.STAGES:
            t = getattr(ocp.cost, 'cost_type' + sf)
            expect(t == 'CONVEX_OVER_NONLINEAR' or (t is None and sf == '_0' and c['kinds'][0] is None), 'cost_type%s is %s' % (sf, t))
            m = meaning(ocp, d, sf, 'translate_nls_cost_to_conl')
            for w, v in zip(w0, want[sf]):
                formul.compare('translate_nls_cost_to_conl, stage type %r' % sf, m(w), v)
        # the reference stays adjustable
        r = Rnd(c['seed'], 'newref')
        ocp2, _ = None, None
        for sf in formul.STAGES:
            if getattr(ocp.cost, 'cost_type' + sf):
                y = getattr(ocp.cost, 'yref' + sf)
                setattr(ocp.cost, 'yref' + sf, y + r.vec(y.shape[0]))
        consistent(ocp, 'after translate_nls_cost_to_conl')
        return {'nontrivial': True, 'labels': labels}
    return external(c, ocp, d, w0, want, labels)


def external(c, ocp, d, w0, want, labels):
    """translate_cost_to_external_cost with optional symbolic yref and W"""
    S = d['S']
    r = Rnd(c['seed'], 'ext')
    gn = c['hess'] == 'GAUSS_NEWTON'
    if gn and any(k in ('CONVEX_OVER_NONLINEAR', 'EXTERNAL') for k in c['kinds']):
        try:
            ocp.translate_cost_to_external_cost(cost_hessian='GAUSS_NEWTON')
        except ValueError:
            return {'nontrivial': True, 'labels': labels + ['gn rejected']}
        labels.append('gn accepted')
    # which references / weights become parameters
    syms, vals, kw, repl = [], [], {}, {}
    for i, (sf, k) in enumerate(zip(formul.STAGES, c['kinds'])):
        if k in (None, 'EXTERNAL'):
            continue
        ny = getattr(ocp.cost, 'yref' + sf).shape[0]
        if c['sub'][i] & 1:
            s = S.sym('yr' + sf, ny)
            v = r.vec(ny)
            syms.append(s)
            vals.append(v)
            scale = r.unif(.5, 2) if c['sub'][i] & 4 else 1.
            kw['yref' + sf] = scale * s
            repl.setdefault(sf, {})['yref'] = lambda q, scale=scale: scale * q
            repl[sf]['yref_s'] = s
        if c['sub'][i] & 2 and k != 'CONVEX_OVER_NONLINEAR':
            s = S.sym('w' + sf, ny)
            v = r.vec(ny, .3, 2)
            syms.append(s)
            vals.append(v)
            full = c['sub'][i] & 8
            B = np.eye(ny) + (.4 * r.mat(ny, ny) if full else 0)
            kw['W' + sf] = ca.mtimes([ca.DM(B).T, ca.diag(s), ca.DM(B)])
            repl.setdefault(sf, {})['W'] = lambda q, B=B: B.T @ np.diag(q) @ B
            repl[sf]['W_s'] = s
    vals = np.concatenate(vals) if vals else np.zeros(0)
    nadd = vals.shape[0]
    p0 = np.array(ocp.parameter_values, float)
    g0 = np.array(ocp.p_global_values, float)
    if nadd:
        key = 'p_global' if c['pg_on'] else 'p'
        kw[key] = ca.vertcat(*syms)
        kw[key + '_values'] = vals
    types0 = {sf: getattr(ocp.cost, 'cost_type' + sf) for sf in formul.STAGES}
    # reference problem: same terms with the numeric values put in
    def reference(sf, q):
        o2, d2 = formul.new(c)
        d2.update(d)
        o2.model.x, o2.model.u, o2.model.p, o2.model.p_global = d['x'], d['u'], ocp0['p'], ocp0['pg']
        for s2, k2 in zip(formul.STAGES, c['kinds']):
            formul.set_cost(o2, d, c, s2, k2)
        R = repl.get(sf, {})
        off = 0
        for s in syms:
            n = s.shape[0]
            part = q[off:off + n]
            off += n
            if R.get('yref_s') is s:
                setattr(o2.cost, 'yref' + sf, R['yref'](part))
            if R.get('W_s') is s:
                setattr(o2.cost, 'W' + sf, R['W'](part))
        return formul.Meaning(o2, d, sf)
    ocp0 = {'p': ocp.model.p, 'pg': ocp.model.p_global}
    if c['each'] and not nadd:
        ocp.translate_terminal_cost_term_to_external(cost_hessian=c['hess'])
        ocp.translate_initial_cost_term_to_external(cost_hessian=c['hess'])
        ocp.translate_intermediate_cost_term_to_external(cost_hessian=c['hess'])
    else:
        ocp.translate_cost_to_external_cost(cost_hessian=c['hess'], **kw)
    gl = c['pg_on'] and nadd
    expect_close('parameter_values', ocp.parameter_values, p0 if gl else np.concatenate((p0, vals)), 0, 0)
    expect_close('p_global_values', ocp.p_global_values, np.concatenate((g0, vals)) if gl else g0, 0, 0)
    for sf in formul.STAGES:
        t = getattr(ocp.cost, 'cost_type' + sf)
        expect(t == ('EXTERNAL' if types0[sf] else None), 'cost_type%s %s after the translation' % (sf, t))
    for i, sf in enumerate(formul.STAGES):
        src = sf if not (sf == '_0' and c['kinds'][0] is None) else ''
        m = meaning(ocp, d, sf, 'translate_cost_to_external_cost')
        for j, w in enumerate(w0):
            q = vals if j == 0 else vals * (1 + .3 * r.vec(nadd))
            w = dict(w)
            w['pg' if gl else 'p'] = np.concatenate((w['pg' if gl else 'p'], q))
            ref = reference(src, q)
            w2 = dict(w0[j])
            expect_close('translated external cost at stage type %r' % sf, m(w)[0], ref(w2)[0], 1e-10, 1e-10)
            formul.compare('translated external cost at stage type %r' % sf, m(w), ref(w2), gn=gn and getattr(ocp.cost, 'cost_type' + src) and c['kinds'][formul.STAGES.index(src)] != 'EXTERNAL')
    ocp.solver_options.hessian_approx = 'EXACT'
    consistent(ocp, 'after translate_cost_to_external_cost')
    labels += ['hess:' + c['hess'], 'symbolic' if nadd else 'numeric', 'global' if gl else 'stagewise']
    return {'nontrivial': True, 'labels': labels}


def query(c, ocp, d, before, labels):
    """get_*_cost_expression, with the stored and with a given reference"""
    fs = {'_0': ocp.get_initial_cost_expression, '': ocp.get_path_cost_expression, '_e': ocp.get_terminal_cost_expression}
    x, u, z, m = d['x'], d['u'], d['z'], ocp.model
    S = d['S']
    p = m.p if not formul.empty(m.p) else S.zeros(0, 1)
    pg = m.p_global if not formul.empty(m.p_global) else S.zeros(0, 1)
    r = Rnd(c['seed'], 'query')
    for i, (sf, f) in enumerate(fs.items()):
        k = c['kinds'][i]
        if k is None:
            continue
        e = f()
        F = ca.Function('q', [x, u, z, p, pg], [S(e)])
        for w in formul.points(c, ocp, 3):
            expect_close('cost expression of stage type %r (%s)' % (sf, k), float(F(w['x'], w['u'], w['z'], w['p'], w['pg'])), before[sf](w)[0], 1e-10, 1e-10)
        if k == 'EXTERNAL':
            continue
        old = getattr(ocp.cost, 'yref' + sf)
        ys = S.sym('ys', old.shape[0])
        F = ca.Function('q', [x, u, z, p, pg, ys], [S(f(ys))])
        for w in formul.points(c, ocp, 2):
            q = r.vec(old.shape[0])
            setattr(ocp.cost, 'yref' + sf, q)
            ref = formul.Meaning(ocp, d, sf)(w)[0]
            setattr(ocp.cost, 'yref' + sf, old)
            expect_close('cost expression of stage type %r (%s) with given yref' % (sf, k), float(F(w['x'], w['u'], w['z'], w['p'], w['pg'], q)), ref, 1e-10, 1e-10)
    return {'nontrivial': True, 'labels': labels}


def quad(c, d, sf, how):
    """cost expression, and whether it can be written as linear least squares"""
    r = Rnd(c['seed'], 'quad', sf)
    S = d['S']
    v = exprs.cat(S, *([d['x']] if sf == '_e' else [d['x'], d['u'], d['z']]))
    n = v.shape[0]
    on = [i for i in range(n) if r.bool(.75)] or [0]
    s = ca.vertcat(*[v[i] for i in on])
    k = len(on)
    ref = r.vec(k)
    H = r.spd(k, .3)
    if how == 'diag':
        H = np.diag(r.vec(k, .3, 2))
    if how == 'int':
        e = s[0] ** 2
        return e, True
    e0 = s - ca.DM(ref)
    if how == 'square':
        return .5 * ca.mtimes([s.T, ca.DM(H), s]), True
    e = .5 * ca.mtimes([e0.T, ca.DM(H), e0])
    ok = True
    if how == 'offset':
        e, ok = e + 1.5, False
    elif how == 'lin':
        off = [i for i in range(n) if i not in on]
        if off:
            e, ok = e + r.unif() * v[off[0]], False
    elif how == 'bilinear' and n > 1:
        e, ok = v[0] * v[1] + e, None
    elif how == 'rank':
        e, ok = .5 * (ca.sum1(s) - .3) ** 2, None
    elif how == 'p':
        q = exprs.cat(S, d['p'], d['pg'])
        if q.shape[0]:
            e, ok = e * (1.5 + ca.sin(q[r.int(0, q.shape[0] - 1)])), False
    elif how == 'cubic':
        e, ok = e + .1 * s[0] ** 3, False
    elif how == 'quart':
        e, ok = (e + .1 * v[0] ** 2 * v[n - 1] ** 2) if n > 1 else e, n == 1
    elif how == 'zero':
        e, ok = S.zeros(1, 1), True
    return e, ok


def auto(c, ocp, d):
    if not c['sx'] and c.get('mxauto', True) is False:
        raise Skip('mx')
    kinds = [None if c['kinds'][0] is None else 'AUTO', 'AUTO', 'AUTO']
    exp, can = {}, {}
    m = ocp.model
    S = d['S']
    for sf, k, how in zip(formul.STAGES, kinds, c['quad']):
        if k is None:
            continue
        setattr(ocp.cost, 'cost_type' + sf, k)
        e, can[sf] = quad(c, d, sf, how)
        setattr(m, 'cost_expr_ext_cost' + sf, e)
        exp[sf] = e
    if kinds[0] is None:
        exp['_0'], can['_0'] = exp[''], can['']
    p = m.p if not formul.empty(m.p) else S.zeros(0, 1)
    pg = m.p_global if not formul.empty(m.p_global) else S.zeros(0, 1)
    want = {}
    w0 = list(formul.points(c, ocp, 4))
    wz = ca.vertcat(d['u'], d['x'], d['z'])
    for sf, e in exp.items():
        F = ca.Function('q', [d['x'], d['u'], d['z'], p, pg], [e, ca.densify(ca.gradient(e, wz))])
        want[sf] = [[np.array(v) for v in F(w['x'], w['u'], w['z'], w['p'], w['pg'])] for w in w0]
    consistent(ocp, 'AUTO cost type for %s' % exp)
    for sf in formul.STAGES:
        t = getattr(ocp.cost, 'cost_type' + sf)
        expect(t in ('LINEAR_LS', 'EXTERNAL'), 'AUTO became %s' % t)
        if can[sf] is True:
            expect(t == 'LINEAR_LS', 'AUTO turned the quadratic cost %s into %s' % (exp[sf], t))
        M = meaning(ocp, d, sf, 'AUTO')
        for w, v in zip(w0, want[sf]):
            got = M(w)
            what = 'AUTO (%s) at stage type %r, cost %s' % (t, sf, str(exp[sf])[:200])
            expect_close(what + ': value', got[0], float(v[0].item()), 1e-8, 1e-8)
            expect_close(what + ': gradient', got[1], v[1][:, 0], 1e-8, 1e-8)
    return {'nontrivial': True, 'labels': ['op:auto'] + ['quad:' + q for q in set(c['quad'])] + ['type:' + str(getattr(ocp.cost, 'cost_type' + sf)) for sf in formul.STAGES]}
