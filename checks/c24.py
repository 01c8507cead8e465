"""zoRO custom update: uncertainty propagation, feedback gains and tightened bounds follow the zoRO recursion.

Oracle: the covariance recursion in numpy on the linearization of the reference problem (ocpgen)."""
import ctypes
import numpy as np
from hypothesis import strategies as st
import ocpgen
import c03
from common import Rnd, expect, expect_close, Skip

INF = ocpgen.INF
SIDES = ('lbu', 'ubu', 'lbx', 'ubx', 'lg', 'ug', 'lh', 'uh')
EPS = 1e-8


def init(job):
    import acados_template.utils as U
    U.is_tera_version_sufficient = lambda *a: True


@st.composite
def case(draw, tier):
    b = st.booleans()
    mode = draw(st.sampled_from(['CONSTANT_FEEDBACK', 'CONSTANT_FEEDBACK', 'RICCATI_CONSTANT_COST', 'RICCATI_BARRIER_1', 'RICCATI_BARRIER_2']))
    unc = draw(st.sampled_from(['NONE', 'NONE', 'NOISE', 'CONSTANT']))
    ocp = draw(ocpgen.spec(integ=('ERK', 'IRK') if unc != 'NONE' else ('ERK', 'IRK', 'DISCRETE'), z=False, phi=False, soft='BARRIER' not in mode,
                           rev=False, costs=('LINEAR_LS', 'NONLINEAR_LS'), cint=False, scaling=False, pg=unc == 'NONE'))
    if unc != 'NONE':
        ocp['np'] = max(1, ocp['np'])
    sig = draw(st.sampled_from(['no', 'no', 'diag', 'full'])) if ocp['np'] and (unc != 'NONE' or draw(b)) else 'no'
    return {'ocp': ocp, 'seed': draw(st.integers(0, 2**40)), 'mode': mode, 'unc': unc, 'sig': sig,
            'sigmat': draw(b), 'nw': draw(st.sampled_from([None, None, 1, 2, 3])), 'Wfull': draw(b), 'G': draw(b),
            'P0': draw(st.sampled_from(['no', 'diag', 'full', 'full'])), 'Wdiag': draw(b), 'Wadd': draw(b), 'outP': draw(b), 'outt': draw(b),
            'noK': draw(b), 'noQe': draw(b), 'none_first': draw(b), 'spread': draw(st.sampled_from([0.02, 0.1, 0.5])),
            'skip': draw(b), 'rounds': draw(st.integers(1, 3)), 'solver': 'SQP' if 'BARRIER' in mode else draw(st.sampled_from(['RTI', 'SQP'])),   # constraint values are part of the feedback phase
            'sides': draw(st.sampled_from(['all', 'some', 'some']))}


def strategy(tier):
    return case(tier)


def spd0(r, n, scale=1.0, full=True):
    A = r.spd(n, 0.05) * scale
    return A if full else np.diag(np.diag(A))


class Zoro:
    """description, streamed data and reference recursion"""

    def __init__(self, c, P):
        self.c, self.P = c, P
        r = Rnd(c['seed'], 'zoro')
        nx, nu, npar, N = P.nx, P.nu, c['ocp']['np'], P.N
        C = P.con
        self.G = None
        if c['G'] or (c['nw'] is not None and c['nw'] != nx):
            self.nw = c['nw'] or nx
            self.G = r.mat(nx, self.nw)
        else:
            self.nw = nx
        self.W = spd0(r, self.nw, 0.02, c['Wfull'])
        self.P0 = spd0(r, nx, 0.02)
        self.K = 0.3 * r.mat(nu, nx)
        self.Q, self.R, self.S = r.spd(nx), r.spd(nu, 0.5), 0.05 * r.mat(nu, nx)
        self.Qe = None if c['noQe'] else r.spd(nx)
        self.Sig = spd0(r, npar, 0.03) if npar else np.zeros((0, 0))
        self.gamma = r.choice([1.0, 0.5, 2.0])
        # rows [bu, bx, g, h] of the path and the terminal node to be tightened
        self.idx = {}
        for suf, k in (('', 1), ('_e', N)):
            if suf == '' and N == 1:
                k = 0
            nbu = len(C['idxbu']) if suf == '' else 0
            nbx = len(C['idxbx' + suf])
            nh = C['nh' + suf]
            ng = (P.con['Cg'].shape[0] if 'Cg' in P.con else P.CD[0][0].shape[0]) if suf == '' else P.CD[N][0].shape[0]
            rows = {'bu': nbu, 'bx': nbx, 'g': ng, 'h': nh}
            setattr(self, 'rows' + suf, rows)
            full = self.bounds('' if suf == '' else '_e')
            for t, n in rows.items():
                for side in 'lu':
                    b = full[side + t]
                    cand = [i for i in range(n) if abs(b[i]) < INF]
                    if c['sides'] == 'some':
                        cand = [i for i in cand if r.bool(0.6)]
                    # any order
                    cand = [cand[i] for i in r.perm(len(cand))]
                    self.idx[side + t + suf] = cand
        self.beta = None
        self.cur = None

    def bounds(self, suf):
        """original bounds of a path / terminal node by name"""
        P = self.P
        rows = self.rows_e if suf == '_e' else self.rows
        if suf == '' and P.N == 1:
            k = 0
            nb = {'bu': rows['bu']}
            lo, up = P.lo[0][:rows['bu']], P.up[0][:rows['bu']]
            out = {}
            for t, n in rows.items():
                out['l' + t] = lo if t == 'bu' else np.full(n, -INF)
                out['u' + t] = up if t == 'bu' else np.full(n, INF)
            return out
        k = P.N if suf == '_e' else 1
        out, o = {}, 0
        for t, n in rows.items():
            out['l' + t], out['u' + t] = P.lo[k][o:o + n], P.up[k][o:o + n]
            o += n
        return out

    def apply(self, ocp):
        from acados_template import ZoroDescription
        c = self.c
        z = ZoroDescription()
        z.backoff_scaling_gamma = self.gamma
        z.feedback_optimization_mode = c['mode']
        z.nonlinear_uncertainty_mode = c['unc']
        ric = c['mode'] != 'CONSTANT_FEEDBACK'
        if not (ric and c['noK']):
            z.fdbk_K_mat = self.K.copy()
        if ric:
            z.riccati_Q_const, z.riccati_R_const, z.riccati_S_const = self.Q.copy(), self.R.copy(), self.S.copy()
            if self.Qe is not None:
                z.riccati_Q_const_e = self.Qe.copy()
        if self.G is not None:
            z.unc_jac_G_mat = self.G.copy()
        z.P0_mat, z.W_mat = self.P0.copy(), self.W.copy()
        self.siginit = c['sig'] == 'no' or c['sigmat']
        if c['unc'] != 'NONE':
            ocp.code_gen_options.sens_forw_p = True
            if self.siginit:
                z.Sigma_p_mat = self.Sig.copy()
            else:
                self.Sig = np.zeros_like(self.Sig)
        for t in ('bu', 'bx', 'g', 'h'):
            for side in 'lu':
                setattr(z, 'idx_%s%s_t' % (side, t), list(self.idx[side + t]))
                if t != 'bu':
                    setattr(z, 'idx_%s%s_e_t' % (side, t), list(self.idx[side + t + '_e']))
        z.input_P0, z.input_P0_diag = c['P0'] == 'full', c['P0'] == 'diag'
        z.input_W_diag, z.input_W_add_diag = c['Wdiag'], c['Wadd']
        z.input_Sigma_p, z.input_Sigma_p_diag = c['sig'] == 'full', c['sig'] == 'diag'
        z.output_P_matrices, z.output_riccati_t = c['outP'], ric and c['outt']
        ocp.zoro_description = z
        o = ocp.solver_options
        o.custom_update_filename = 'custom_update_function.c'
        o.custom_update_header_filename = 'custom_update_function.h'
        o.custom_update_copy = False
        o.custom_templates = [('custom_update_function_zoro_template.in.c', 'custom_update_function.c'),
                              ('custom_update_function_zoro_template.in.h', 'custom_update_function.h')]

    def data(self, r):
        """random payload; updates the matrices of the model -> (input part, outputs appended)"""
        c, P = self.c, self.P
        nx, N, npar = P.nx, P.N, c['ocp']['np']
        d = []

        def diag(M, n):
            v = np.array([r.unif(0.0, 0.05) for _ in range(n)])
            M = M.copy()
            for i in range(n):
                if c['skip'] and r.bool(0.3):
                    v[i] = -r.unif(0.5, 1.0)
                    continue
                if r.bool(0.2) and not np.any(np.delete(M[i], i)):
                    v[i] = 0.0      # not negative: has to be taken over
                M[i, i] = v[i]
            return v, M
        if c['P0'] == 'diag':
            v, self.P0 = diag(self.P0, nx)
            d.append(v)
        elif c['P0'] == 'full':
            self.P0 = spd0(r, nx, 0.02)
            d.append(self.P0.ravel('F'))
        if c['Wdiag']:
            v, self.W = diag(self.W, self.nw)
            d.append(v)
        if c['Wadd']:
            self.Wadd = np.array([[r.unif(0.0, 0.05) for _ in range(self.nw)] for _ in range(N)])
            d.append(self.Wadd.ravel())
        if c['sig'] == 'diag':
            v, S = diag(self.Sig, npar)
            d.append(v)
            self.Sig = S
        elif c['sig'] == 'full':
            self.Sig = spd0(r, npar, 0.03)
            d.append(self.Sig.ravel('F'))
        n_in = sum(len(v) for v in d)
        n_out = nx * nx * (N + 1) if c['outP'] else 0
        n_out += 1 if (c['mode'] != 'CONSTANT_FEEDBACK' and c['outt']) else 0
        return np.concatenate(d + [np.full(n_out, -7.0)]), n_in

    # ---- reference ------------------------------------------------------------------------------------------
    def sl(self, t, suf):
        rows = self.rows_e if suf == '_e' else self.rows
        o = 0
        for k, n in rows.items():
            if k == t:
                return slice(o, o + n)
            o += n

    def gains(self, AB, ev):
        c, P = self.c, self.P
        N, nx, nu = P.N, P.nx, P.nu
        if c['mode'] == 'CONSTANT_FEEDBACK':
            return [self.K] * N
        barrier = 'BARRIER' in c['mode']
        self.cond = 1.0

        def add(k, suf, M):
            """M + barrier contributions of the tightened rows of node k"""
            rows = self.rows_e if suf == '_e' else self.rows
            orig = self.bounds(suf)
            e = ev['st'][k]
            M = M.copy()
            for t, n in rows.items():
                s = self.sl(t, suf)
                for side in 'lu':
                    for i in self.idx[side + t + suf]:
                        j = s.start + i
                        if self.beta is None:
                            bsq = 1e-4
                            h = (orig['l' + t][i] - e['c'][j] if side == 'l' else e['c'][j] - orig['u' + t][i]) - 1e-2
                        else:
                            bsq = self.beta[k][j]
                            h = orig['l' + t][i] - e['c'][j] if side == 'l' else e['c'][j] - orig['u' + t][i]
                        if abs(h) < 3e-3:
                            raise Skip('constraint of the barrier active')
                        w = 1.0 / h**2 if c['mode'] == 'RICCATI_BARRIER_1' else -1.0 / h / (2 * np.sqrt(bsq))
                        g = e['J'][j]
                        M += w * np.outer(g, g)
            return M
        Qe = self.Q if self.Qe is None else self.Qe
        Pn = add(N, '_e', Qe) if barrier else Qe
        Ks = [np.zeros((nu, nx))] * N
        M0 = np.block([[self.Q, self.S.T], [self.S, self.R]])
        for k in range(N - 1, 0, -1):
            A, B = AB[k]
            M = add(k, '', M0) if barrier else M0
            Rb = M[nx:, nx:] + B.T @ Pn @ B
            ev_ = np.linalg.eigvalsh(Rb)
            if ev_[0] < 1e-3 or np.max(np.abs(Pn)) > 1e6:
                raise Skip('Riccati recursion not well posed')
            Sb = M[nx:, :nx] + B.T @ Pn @ A
            Ks[k] = np.linalg.solve(Rb, Sb)
            Pn = M[:nx, :nx] + A.T @ Pn @ A - Sb.T @ Ks[k]
            self.cond = max(self.cond, np.max(np.abs(Pn)), ev_[-1] / ev_[0])
        return Ks

    def reference(self, AB, ev, Sp, streaming):
        """-> K_k, P_k, bounds per stage"""
        c, P = self.c, self.P
        N, nx = P.N, P.nx
        Ks = self.gains(AB, ev)
        G = np.eye(nx) if self.G is None else self.G
        Ps, Pw, Pi = [self.P0], self.P0, np.zeros((nx, self.Sig.shape[0]))
        for k in range(N):
            A, B = AB[k]
            AK = A - B @ Ks[k]
            W = self.W + (np.diag(self.Wadd[k]) if c['Wadd'] and streaming else 0)
            add = G @ W @ G.T
            if c['unc'] == 'NOISE':
                add = add + Sp[k] @ self.Sig @ Sp[k].T
            if c['unc'] == 'CONSTANT':
                Pw = AK @ Pw @ AK.T + add
                Pi = AK @ Pi + Sp[k]
                Ps.append(Pw + Pi @ self.Sig @ Pi.T)
            else:
                Ps.append(AK @ Ps[k] @ AK.T + add)
        eps = EPS if 'BARRIER' in c['mode'] else 0.0
        if self.cur is None:
            self.cur = [{'l': P.lo[k].copy(), 'u': P.up[k].copy()} for k in range(N + 1)]
        beta = [None] * (N + 1)
        for k in range(N + 1):
            suf = '_e' if k == N else ''
            rows = self.rows_e if k == N else self.rows
            orig = self.bounds(suf) if k else None
            beta[k] = np.zeros(P.nrows(k))
            for t, n in rows.items():
                if not n or (k == 0 and t != 'bu'):
                    continue
                s = self.sl(t, suf)
                J = ev['st'][k]['J'][s]
                T = J[:, :nx] - (J[:, nx:] @ Ks[k] if k < N else 0)
                b = self.gamma**2 * np.einsum('ij,jk,ik->i', T, Ps[k], T) + eps
                beta[k][s] = b
                for side, sg in (('l', 1), ('u', -1)):
                    o = (P.lo if side == 'l' else P.up)[k][s]
                    for i in self.idx[side + t + suf]:
                        self.cur[k][side][s.start + i] = o[i] + sg * np.sqrt(max(b[i], 0.0))
        self.beta = beta
        return Ks, Ps


def sens_p(P, it, k):
    """d x_{k+1} / d p by 4th order differences of the reference integration"""
    n, h = P.c['np'], 2e-3
    S = np.zeros((P.nx, n))

    def f(p):
        return P.dyn(it['x'][k], it['u'][k], p, P.pg, P.dt[k], k)[0]
    for i in range(n):
        e = np.zeros(n)
        e[i] = h
        p = P.P[k]
        S[:, i] = (-f(p + 2 * e) + 8 * f(p + e) - 8 * f(p - e) + f(p - 2 * e)) / (12 * h)
    return S


def get_K(s, name, N, nu, nx):
    f = getattr(s.shared_lib, name + '_acados_get_zoRO_K_matrices')
    f.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_double), ctypes.c_int]
    f.restype = ctypes.c_int
    buf = np.zeros(N * nu * nx)
    st_ = f(s.capsule, buf.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), buf.size)
    expect(st_ == 0, 'K getter returned %s' % st_)
    return [buf[k * nu * nx:(k + 1) * nu * nx].reshape((nu, nx), order='F') for k in range(N)]


def check_bounds(s, z, P, tag, atol):
    for k in range(P.N + 1):
        rows = dict(z.rows_e if k == P.N else z.rows)
        if k == 0:
            rows['bx'], rows['h'] = len(P.con['idxbx_0']), P.con['nh_0']
        o = 0
        for t, n in rows.items():
            if n:
                for side in 'lu':
                    got = np.atleast_1d(s.constraints_get(k, side + t)).ravel()
                    expect_close('%sstage %d: %s%s' % (tag, k, side, t), got, z.cur[k][side][o:o + n], 1e-8, atol)
            o += n


def run(c):
    P = ocpgen.Problem(c['ocp'])
    z = Zoro(c, P)
    ocp = P.acados()
    z.apply(ocp)
    o = ocp.solver_options
    o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
    o.nlp_solver_type = 'SQP' if c['solver'] == 'SQP' else 'SQP_RTI'
    if c['solver'] == 'SQP':
        o.nlp_solver_max_iter = 0
        o.eval_residual_at_max_iter = True
    from acados_template import AcadosOcpSolver
    N, nx, nu = P.N, P.nx, P.nu
    s = None
    ntight = sum(len(v) for v in z.idx.values())
    try:
        s = AcadosOcpSolver(ocp, verbose=False)
        any_in = c['P0'] != 'no' or c['Wdiag'] or c['Wadd'] or c['sig'] != 'no' or c['outP'] or (c['mode'] != 'CONSTANT_FEEDBACK' and c['outt'])
        for n in range(c['rounds']):
            r = Rnd(c['seed'], 'round', n)
            tag = 'round %d ' % n
            it = ocpgen.random_iterate(P, r.u64() % 2**30, spread=c['spread'])
            ocpgen.set_iterate(s, P, it)
            c03.vary(P, s, r, True, False)
            if c['solver'] == 'RTI':
                s.options_set('rti_phase', 1)
            status = s.solve()
            expect(status in (0, 2, 5), 'status %s' % status)
            ev = P.evaluate(it)
            if max([np.max(np.abs(e['c'])) if e['c'].size else 0 for e in ev['st']] + [np.max(np.abs(e['A'])) for e in ev['st'][:N]]) > 1e2:
                raise Skip('iterate too large')
            AB = []
            for k in range(N):
                e = ev['st'][k]
                AB.append((e['A'][:, :nx], e['A'][:, nx:]))
            Sp = None
            if c['unc'] != 'NONE':
                Sp = [sens_p(P, it, k) for k in range(N)]
                for k in range(N):
                    expect_close(tag + 'stage %d: S_p' % k, s.get(k, 'S_p'), Sp[k], 1e-6, 1e-7)
            streaming = any_in and not (n == 0 and c['none_first'])
            payload, n_in = z.data(r) if streaming else (np.zeros(0), 0)
            buf = np.ascontiguousarray(payload)
            Ks, Ps = z.reference(AB, ev, Sp, streaming)
            if any_in:
                bad = np.full(len(payload) + 1 if len(payload) else 3, 0.01)
                if len(bad) != ocp.zoro_description.data_size:
                    expect(s.custom_update(bad) != 0, tag + 'payload of wrong length accepted')
            status = s.custom_update(buf)
            expect(status == 0, tag + 'custom_update returned %s' % status)
            tol = 1e-8 * max(1.0, getattr(z, 'cond', 1.0))
            if tol > 1e-4:
                raise Skip('ill-conditioned Riccati recursion')
            stol = 1e-7 if c['unc'] != 'NONE' else 1e-9
            got = get_K(s, ocp.name, N, nu, nx)
            for k in range(N):
                expect_close(tag + 'K_%d' % k, got[k], Ks[k], 10 * tol, 10 * tol)
            for k in range(N + 1):
                expect_close(tag + 'P_%d' % k, s.get(k, 'zoRO_Pk_mats'), Ps[k], max(100 * tol, 1e-7), 0.1 * tol + stol)
            if streaming and c['outP']:
                for k in range(N + 1):
                    expect_close(tag + 'P_%d in the data' % k, buf[n_in + k * nx * nx:n_in + (k + 1) * nx * nx].reshape((nx, nx), order='F'), Ps[k], max(100 * tol, 1e-7), 0.1 * tol + stol)
            if streaming and c['mode'] != 'CONSTANT_FEEDBACK' and c['outt']:
                expect(0 <= buf[-1] < 60, tag + 'Riccati time %g' % buf[-1])
            if streaming:
                expect(np.array_equal(buf[:n_in], payload[:n_in]), tag + 'inputs of the update overwritten')
            check_bounds(s, z, P, tag, 1e-7 + 100 * tol + (1e-5 if c['unc'] != 'NONE' else 0))
        lab = [c['mode'], 'unc ' + c['unc'], c['solver']] + (['streamed Sigma_p ' + c['sig']] if c['sig'] != 'no' else []) + \
              [x for x in ('Wdiag', 'Wadd', 'outP') if c[x]] + ['P0 ' + c['P0']] + (['N=1'] if N == 1 else [])
        return {'labels': lab, 'nontrivial': ntight > 0}
    finally:
        if s is not None:
            del s
        ocpgen.cleanup(ocp)
