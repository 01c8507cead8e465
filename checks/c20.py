"""Iterate containers and the parameter manager hold exactly the values put into them.

Model: plain lists of numpy vectors (one per field and stage), a dictionary of values per stage."""
import copy
import json
import os
import tempfile

import casadi as ca
import numpy as np
from hypothesis import strategies as st
from common import Rnd, expect, expect_close

FIELDS = ['x', 'u', 'z', 'sl', 'su', 'pi', 'lam']


def init(job):
    pass


@st.composite
def iterates(draw):
    N = draw(st.sampled_from([0, 1, 2, 3, 4, 8, 9, 10, 11, 12]))
    return dict(kind='iterate', seed=draw(st.integers(0, 2**32)), N=N, nb=draw(st.integers(1, 4)),
                dims={f: draw(st.integers(1 if f == 'x' else 0, 4)) for f in FIELDS},
                vary=draw(st.sampled_from([None, None, 'zero', 'rand'])),
                special=draw(st.booleans()), file=draw(st.booleans()),
                field=draw(st.sampled_from(FIELDS)), mag=draw(st.sampled_from([0, -12, -7, -4, -2, 0, 1, 3])))


@st.composite
def manager(draw):
    n = draw(st.integers(1, 4))
    N = draw(st.integers(0, 5))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('set'), st.integers(0, n - 1), st.integers(0, 7), st.sampled_from(['2d', 'F', 'flat', 'scalar', 'list', 'int'])),
        st.tuples(st.just('N'), st.integers(0, 7)),
        st.tuples(st.just('mut'), st.integers(0, n - 1), st.integers(0, 7)),
        st.tuples(st.just('bad'), st.sampled_from(['stage', 'neg', 'name', 'shape', 'get', 'N']))), min_size=1, max_size=8))
    return dict(kind='manager', seed=draw(st.integers(0, 2**32)), N=N, sx=draw(st.booleans()),
                shapes=[[draw(st.integers(1, 3)), draw(st.sampled_from([1, 1, 2, 3]))] for _ in range(n)],
                form=[draw(st.sampled_from(['2d', 'F', 'int'])) for _ in range(n)], ops=[list(o) for o in ops])


def strategy(tier):
    return st.one_of(iterates(), manager())


def run(c):
    return run_iterate(c) if c['kind'] == 'iterate' else run_manager(c)


# ---------------------------------------------------------------- iterates

def draw_iterate(c, r):
    """the lists of an iterate as returned by a solver: u, z, pi have N entries, the others N+1"""
    N, out = c['N'], {}
    for f in FIELDS:
        n = N if f in ('u', 'z', 'pi') else N + 1
        l = []
        for k in range(n):
            m = c['dims'][f]
            if c['vary'] == 'zero' and f != 'x' and (k * 7 + len(f) + c['seed']) % 3 == 0:
                m = 0
            elif c['vary'] == 'rand':
                m = max(1 if f == 'x' else 0, m - (k + c['seed']) % 3)
            v = r.vec(m, -10, 10)
            if c['special'] and m:
                v[r.int(0, m - 1)] = r.choice([0.0, 1e-300, -1e300, 1e-17, 1 / 3, 3.0, float('inf')])
            l.append(v)
        out[f] = l
    return out


def cat(l):
    return np.concatenate(l) if len(l) else np.zeros(0)


def same_iterate(it, m, what):
    for f in FIELDS:
        got = getattr(it, f)
        expect(len(got) == len(m[f]), '%s: field %s has %d entries instead of %d' % (what, f, len(got), len(m[f])))
        for k, (a, b) in enumerate(zip(got, m[f])):
            a = np.asarray(a)
            expect(a.shape == b.shape and np.array_equal(a, b), '%s: %s of stage %d: %s instead of %s' % (what, f, k, a, b))


def same_flat(fl, m, what):
    for f in FIELDS:
        a, b = np.asarray(getattr(fl, f)), m[f]
        expect(a.shape == b.shape and np.array_equal(a, b), '%s: field %s: %s instead of %s' % (what, f, a, b))


def finite(m):
    return {f: [np.where(np.abs(v) < 1e100, v, 1.0) for v in m[f]] for f in FIELDS}


def run_iterate(c):
    from acados_template import AcadosOcpIterate
    from acados_template.acados_ocp_iterate import AcadosOcpFlattenedIterate, AcadosOcpFlattenedBatchIterate, AcadosOcpIterates
    r = Rnd(c['seed'])
    labels = ['iterate', 'N=%d' % c['N'], 'vary:%s' % c['vary']]
    m = draw_iterate(c, r)
    orig = copy.deepcopy(m)
    it = AcadosOcpIterate(**{f: list(m[f]) for f in FIELDS})
    same_iterate(it, orig, 'constructor')
    # deprecated keywords mean the same
    same_iterate(AcadosOcpIterate(**{f + '_traj': list(m[f]) for f in FIELDS}), orig, 'constructor with _traj keywords')
    for f in FIELDS:
        expect(getattr(it, f + '_traj') is getattr(it, f), 'property %s_traj differs from %s' % (f, f))
        try:
            AcadosOcpIterate(**{g: list(m[g]) for g in FIELDS if g != f})
        except ValueError:
            continue
        expect(False, 'iterate without the field %s is accepted' % f)
    # flatten: stage-wise concatenation
    fl = it.flatten()
    same_flat(fl, {f: cat(orig[f]) for f in FIELDS}, 'flatten')
    # JSON: the text and the file
    for kw in ({}, dict(indent=None), dict(sort_keys=False)):
        text = it.to_json(**kw)
        if c['file']:
            fd, name = tempfile.mkstemp(suffix='.json')
            try:
                with os.fdopen(fd, 'w') as fh:
                    fh.write(text)
                back = AcadosOcpIterate.from_json(filename=name)
            finally:
                os.remove(name)
        else:
            back = AcadosOcpIterate.from_json(json_data=json.loads(text))
        same_iterate(back, orig, 'to_json / from_json')
        same_iterate(it, orig, 'iterate after to_json')
    data = json.loads(it.to_json())
    want = {f: {k: v for k, v in enumerate(orig[f]) if v.size} for f in FIELDS}
    got = {f: {} for f in FIELDS}
    for key, v in data.items():
        f, k = key.split('_')
        expect(int(k) not in got[f], 'stage twice in JSON')
        got[f][int(k)] = np.array(v)
        expect(len(k) == len(str(c['N'] + 1)), 'stage number of JSON key %s is not padded as in store_iterate' % key)
    for f in FIELDS:
        expect(sorted(got[f]) == sorted(want[f]) and all(np.array_equal(got[f][k], want[f][k]) for k in got[f]),
               'JSON entries of %s: %s' % (f, got[f]))
    # algebra of flattened iterates and comparison
    m2 = finite(draw_iterate(c, r))
    a = AcadosOcpIterate(**finite(orig)).flatten()
    b = AcadosOcpIterate(**m2).flatten()
    fa = {f: cat(finite(orig)[f]) for f in FIELDS}
    fb = {f: cat(m2[f]) for f in FIELDS}
    same_flat(a + b, {f: fa[f] + fb[f] for f in FIELDS}, 'sum')
    same_flat(a - b, {f: fa[f] - fb[f] for f in FIELDS}, 'difference')
    same_flat(a, fa, 'operand after arithmetic')
    same_flat(b, fb, 'operand after arithmetic')
    for o, fo in ((a, fa), (b, fb), (a - b, {f: fa[f] - fb[f] for f in FIELDS})):
        expect(o.inf_norm() == max(np.max(np.abs(v)) for v in fo.values() if v.size), 'inf_norm')
    for bad in (1.0, None, it, 'x'):
        for op in (lambda: a + bad, lambda: a - bad, lambda: a.allclose(bad)):
            try:
                op()
            except TypeError:
                continue
            expect(False, 'operation of an iterate with %r is accepted' % (bad,))
    # allclose sees a difference of any entry of any field
    tols = [dict(), dict(rtol=0, atol=1e-3), dict(rtol=1e-3, atol=0.0), dict(rtol=1e-9, atol=1e-9)]
    f = c['field']
    base = finite(orig)
    expect(AcadosOcpIterate(**copy.deepcopy(base)).allclose(AcadosOcpIterate(**copy.deepcopy(base))), 'iterate is not close to itself')
    spots = [(f2, k, i) for f2 in FIELDS for k in range(len(base[f2])) for i in range(base[f2][k].size)]
    spots = [s for s in spots if s[0] == f] or spots
    f2, k, i = r.choice(spots)
    for d in (10.0 ** c['mag'], -10.0 ** c['mag']):
        mod = copy.deepcopy(base)
        mod[f2][k][i] += d
        d_ = abs(mod[f2][k][i] - base[f2][k][i])
        for kw in tols:
            for obj, other, defaults in ((AcadosOcpIterate(**mod), AcadosOcpIterate(**base), dict(rtol=1e-5, atol=1e-8)),
                                         (AcadosOcpIterate(**mod).flatten(), AcadosOcpIterate(**base).flatten(), dict(rtol=1e-5, atol=1e-6))):
                t = dict(defaults, **kw)
                bound = t['atol'] + t['rtol'] * abs(base[f2][k][i])
                if d_ and abs(d_ - bound) < 1e-12 + 1e-6 * bound:
                    continue
                expect(bool(obj.allclose(other, **kw)) == (d_ <= bound),
                       'allclose(%s) of iterates differing by %g in %s of stage %d (value %g): %s' % (kw, d_, f2, k, base[f2][k][i], not d_ <= bound))
    labels.append('field:' + f2)
    # batches
    nb = c['nb']
    rows = [{f: cat(x[f]) for f in FIELDS} for x in [draw_iterate(c, r) for _ in range(nb)]]
    ba = AcadosOcpFlattenedBatchIterate(**{f: np.array([x[f] for x in rows]).reshape(nb, -1) for f in FIELDS}, N_batch=nb)
    for i in range(nb):
        same_flat(ba[i], rows[i], 'batch element %d' % i)
        same_flat(ba[i - nb], rows[i], 'batch element %d' % (i - nb))
    j = r.int(0, nb - 1)
    new = {f: cat(v) for f, v in draw_iterate(c, r).items()}
    ba[j] = AcadosOcpFlattenedIterate(**copy.deepcopy(new))
    rows[j] = new
    for i in range(nb):
        same_flat(ba[i], rows[i], 'batch element %d after setting %d' % (i, j))
    # list of iterates as array
    its = [draw_iterate(c, r) for _ in range(nb)]
    lst = AcadosOcpIterates([AcadosOcpIterate(**x) for x in its])
    for f in FIELDS:
        sizes = {len(v) for v in its[0][f]}
        try:
            arr = lst.as_array(f)
        except ValueError:
            expect(len(sizes) > 1, 'as_array(%s) fails with equal stage dimensions %s' % (f, sizes))
            continue
        expect(len(sizes) <= 1, 'as_array(%s) accepts stage dimensions %s' % (f, sizes))
        want = np.array([[list(v) for v in x[f]] for x in its], dtype=float)
        expect(arr.shape == want.shape and np.array_equal(arr, want) and arr.dtype == float, 'as_array(%s)' % f)
    for f in ('y', 'x_traj', ''):
        try:
            lst.as_array(f)
        except ValueError:
            continue
        expect(False, 'as_array(%r) is accepted' % f)
    return dict(nontrivial=c['N'] > 0 and sum(len(cat(m[f])) > 0 for f in FIELDS) >= 4, labels=labels)


# ---------------------------------------------------------------- parameter manager

def value(r, shape, form):
    """(what is passed, the matrix it stands for)"""
    if form == 'scalar' and shape == [1, 1]:
        v = r.unif(-9, 9)
        return v, np.array([[v]])
    if form == 'int':
        v = np.array([[r.int(-9, 9) for _ in range(shape[1])] for _ in range(shape[0])])
        return v, v.astype(float)
    v = r.mat(*shape, -9, 9)
    if form == 'F':
        return np.asfortranarray(v), v.copy()
    if form == 'flat' and shape[1] == 1:
        return v.ravel(), v.copy()
    if form == 'list' and shape[1] == 1:
        return [float(a) for a in v.ravel()], v.copy()
    return v.copy(), v.copy()


def vec(mats):
    return np.concatenate([m.ravel(order='F') for m in mats])


def run_manager(c):
    from acados_template import AcadosParam, AcadosParamManager
    r = Rnd(c['seed'])
    n = len(c['shapes'])
    names = ['p%s' % chr(ord('z') - i) for i in range(n)]
    labels = ['manager', 'sx' if c['sx'] else 'mx'] + sorted({'op:' + o[0] for o in c['ops']})
    params, default = [], []
    for nm, sh, form in zip(names, c['shapes'], c['form']):
        passed, v = value(r, sh, form if form in ('F', 'int') else '2d')
        params.append(AcadosParam(nm, passed))
        default.append(v)
    N = c['N']
    man = AcadosParamManager(params, N_horizon=N, use_SX=c['sx'])
    model = [[d.copy() for d in default] for _ in range(N + 1)]
    p = man.get_p_stagewise_expression()
    ex = [man.get_expression(nm) for nm in names]
    expect(type(p) is (ca.SX if c['sx'] else ca.MX), 'type of the expression: %s' % type(p))
    for e, sh, nm in zip(ex, c['shapes'], names):
        expect(list(e.shape) == sh, 'expression of %s has shape %s' % (nm, e.shape))
    # the vector of values belongs to the vector of expressions
    if c['sx']:
        fun = ca.Function('f', [p], ex)
    else:
        inv = ca.Function('g', ex, [p])

    def check(what):
        expect(man.N_horizon == N, '%s: N_horizon %s' % (what, man.N_horizon))
        for k in range(N + 1):
            for nm, v in zip(names, model[k]):
                got = np.asarray(man.get_value(nm, k), float)
                expect(got.size == v.size and np.array_equal(got.reshape(v.shape), v), '%s: value of %s at stage %d: %s instead of %s' % (what, nm, k, got, v))
            pk = man.get_p_stagewise_values(k)
            want = vec(model[k])
            expect(np.array_equal(np.asarray(pk).ravel(), want), '%s: parameter vector of stage %d: %s instead of %s' % (what, k, pk, want))
            if c['sx']:
                back = fun(np.asarray(pk).ravel())
                back = [np.array(b) for b in (back if n > 1 else [back])]
                for nm, b, v in zip(names, back, model[k]):
                    expect(np.array_equal(b, v), '%s: expression %s evaluated with the vector of stage %d: %s instead of %s' % (what, nm, k, b, v))
            else:
                expect(np.array_equal(np.array(inv(*model[k])).ravel(), np.asarray(pk).ravel()), '%s: order of the vector of stage %d' % (what, k))
        flat = np.asarray(man.get_p_stagewise_values_flat())
        expect(np.array_equal(flat.ravel(), np.concatenate([vec(mk) for mk in model[:N + 1]])), '%s: flat parameter vector' % what)

    def rejects(what, f, exc=Exception):
        try:
            f()
        except exc:
            return
        expect(False, '%s is accepted' % what)

    check('initially')
    for o in c['ops']:
        if o[0] == 'set':
            i, k = o[1], o[2] % (N + 1)
            passed, v = value(r, c['shapes'][i], o[3])
            man.set_value(names[i], passed, k)
            model[k][i] = v
        elif o[0] == 'mut':
            # the values handed out are not shared between stages
            i, k = o[1], o[2] % (N + 1)
            new = value(r, c['shapes'][i], '2d')[1]
            man.set_value(names[i], new.copy(), k)
            model[k][i] = new
            man.get_value(names[i], k)[...] = 7.5
            model[k][i] = np.full(new.shape, 7.5)
        elif o[0] == 'N':
            M = o[1]
            man.N_horizon = M
            # new stages start with the default values, the others keep theirs
            model = model[:M + 1] + [[d.copy() for d in default] for _ in range(M - N)]
            N = M
        else:
            v = np.zeros(c['shapes'][0])
            if o[1] == 'stage':
                rejects('set_value at stage N+1', lambda: man.set_value(names[0], v, N + 1), IndexError)
                rejects('get_value at stage N+1', lambda: man.get_value(names[0], N + 1), IndexError)
                rejects('get_p_stagewise_values at stage N+1', lambda: man.get_p_stagewise_values(N + 1), IndexError)
            elif o[1] == 'neg':
                rejects('set_value at stage -1', lambda: man.set_value(names[0], v, -1), IndexError)
                rejects('get_value at stage -1', lambda: man.get_value(names[0], -1), IndexError)
            elif o[1] == 'name':
                rejects('set_value of an unknown name', lambda: man.set_value('unknown', v, 0))
            elif o[1] == 'shape':
                rejects('set_value of a wrong size', lambda: man.set_value(names[0], np.zeros((v.size + 1, 1)), 0))
            elif o[1] == 'get':
                rejects('get_value of an unknown name', lambda: man.get_value('unknown', 0))
            else:
                rejects('negative horizon', lambda: setattr(man, 'N_horizon', -1), ValueError)
        check('after %s' % (o,))
    return dict(nontrivial=any(o[0] in ('set', 'N', 'mut') for o in c['ops']), labels=labels)
