"""Reference pieces of the Newton-type iterations: regularization, QP optimality of a step, a small QP solver."""
import numpy as np
from common import Rnd, expect, expect_close, Skip


# ---- Hessian regularization -------------------------------------------------------------------------------------
def regularize(method, H, o, scale=None):
    """one stage block; None if the method couples stages"""
    if method == 'NO_REGULARIZE':
        return H
    if method == 'GERSHGORIN_LEVENBERG_MARQUARDT':
        m = min(H[i, i] - sum(abs(H[i, j]) for j in range(len(H)) if j != i) for i in range(len(H)))
        eps = o['eps']
        return H if m >= eps else H + (eps + max(0.0, -m)) * np.eye(len(H))
    d, V = np.linalg.eigh(0.5 * (H + H.T))
    if o['adaptive']:
        big = max(0.0, np.max(np.abs(d))) if method == 'MIRROR' else max(0.0, np.max(d))
        eps = max(big / o['cond'], o['mineps'])
    else:
        eps = o['eps']
    if method == 'PROJECT':
        d = np.maximum(d, eps)
    elif method == 'MIRROR':
        d = np.maximum(np.abs(d), eps)
    else:
        return None
    return V @ np.diag(d) @ V.T


def riccati_margin(P, ev, shift, H):
    """smallest eigenvalue of the control blocks of the backward Riccati recursion (cost-to-go reduced by `shift`)"""
    nx = P.nx
    Q = H[P.N] - shift * np.eye(nx)
    m = np.inf
    for k in range(P.N - 1, -1, -1):
        A = ev['st'][k]['A']
        G = H[k] + A.T @ Q @ A
        R, S = G[nx:, nx:], G[nx:, :nx]
        if R.size:
            m = min(m, np.min(np.linalg.eigvalsh(R)))
            if m <= 1e-12:
                return m, None
            Q = G[:nx, :nx] - S.T @ np.linalg.solve(R, S)
        else:
            Q = G[:nx, :nx]
        if k:
            Q = Q - 0.0
        if k == 0:
            return m, G
    return m, None


# ---- optimality of a step ---------------------------------------------------------------------------------------
def step_residual(P, ev, H, step, tau=0.0, free0=False):
    """KKT residual of the QP linearized in `ev` at the primal step and the absolute duals `step`
    (free0: without stationarity with respect to the initial state)"""
    N, nx = P.N, P.nx
    worst = {'stationarity': 0.0, 'dynamics': 0.0, 'inequality': 0.0, 'complementarity': 0.0, 'sign': 0.0}

    def mx(q, v):
        v = np.asarray(v)
        if v.size:
            worst[q] = max(worst[q], float(np.max(v)))
    for k in range(N + 1):
        s = ev['st'][k]
        nr, ns = P.nrows(k), P.ns(k)
        d = step['x'][k] if k == N else np.concatenate([step['x'][k], step['u'][k]])
        M = P.slack_map(k)
        lam = step['lam'][k]
        m = s['mask']
        ll, lu, lls, lus = lam[:nr] * m[:nr], lam[nr:2 * nr] * m[nr:2 * nr], lam[2 * nr:2 * nr + ns], lam[2 * nr + ns:]
        r = H[k] @ d + s['costgrad'] - s['J'].T @ (ll - lu)
        if k < N:
            r = r + s['A'].T @ step['pi'][k]
            mx('dynamics', np.abs(s['A'] @ d + s['b'] - step['x'][k + 1]))
        if k:
            r[:nx] -= step['pi'][k - 1]
        elif free0:
            r = r[nx:]
        mx('stationarity', np.abs(r))
        sl, su = step['sl'][k], step['su'][k]
        mx('stationarity', np.abs(s['gsl'] + s['Zl'] * sl - M.T @ ll - lls))
        mx('stationarity', np.abs(s['gsu'] + s['Zu'] * su - M.T @ lu - lus))
        f = s['ineq'] + np.concatenate([-(s['J'] @ d + M @ sl), s['J'] @ d - M @ su, -sl, -su]) * m
        mx('inequality', f)
        eq = P.eqrows(k)
        rows = [i for i in range(2 * nr + 2 * ns) if m[i] and i not in eq and not (nr <= i < 2 * nr and i - nr in eq)]
        mx('complementarity', np.abs(lam * f + tau)[rows])
        mx('sign', -lam[rows])
    return worst


def library_gap(P):
    """the installed HPIPM returns a wrong point for QPs with scalar states and no inequalities"""
    if P.nx > 1:
        return False
    for k in range(P.N + 1):
        m = np.array(P.masks(k))
        if P.ns(k) or np.any(m[:, np.asarray(P.lo[k]) < np.asarray(P.up[k])]):
            return False
    return True


def expect_step(tag, P, ev, H, step, tol, tau=0.0, comp_tol=None, free0=False):
    w = step_residual(P, ev, H, step, tau, free0)
    big = max([1.0] + [np.max(np.abs(q)) for q in step['pi']] + [np.max(np.abs(q)) for q in step['lam'] if q.size]
              + [np.max(np.abs(q)) for q in step['x'] + step['u'] if q.size])
    for q, v in w.items():
        t = (comp_tol or tol) if q == 'complementarity' else tol
        expect(v <= t * big, '%s: the step does not solve the quadratic program of this iterate: %s residual %.3e (%s)'
               % (tag, q, v, {a: '%.1e' % b for a, b in w.items()}))


# ---- dense QP solver --------------------------------------------------------------------------------------------
def solve_qp(P, ev, H, grad=None):
    """primal-dual interior point method for the stage QP; -> step dict (primal step, absolute duals)"""
    N, nx = P.N, P.nx
    off, o = [], 0
    for k in range(N + 1):
        n = nx if k == N else P.n
        off.append((o, n, P.ns(k)))
        o += n + 2 * P.ns(k)
    nv = o
    Hd, g = np.zeros((nv, nv)), np.zeros(nv)
    Eq, eb, G, h, where = [], [], [], [], []
    for k in range(N + 1):
        a, n, ns = off[k]
        s = ev['st'][k]
        Hd[a:a + n, a:a + n] = 0.5 * (H[k] + H[k].T)
        g[a:a + n] = s['costgrad'] if grad is None else grad[k]
        for i in range(ns):
            Hd[a + n + i, a + n + i] = s['Zl'][i]
            Hd[a + n + ns + i, a + n + ns + i] = s['Zu'][i]
        g[a + n:a + n + ns], g[a + n + ns:a + n + 2 * ns] = s['gsl'], s['gsu']
        if k < N:
            E = np.zeros((nx, nv))
            E[:, a:a + n] = s['A']
            E[:, off[k + 1][0]:off[k + 1][0] + nx] -= np.eye(nx)
            Eq.append(E)
            eb.append(s['b'])
        nr = P.nrows(k)
        M = P.slack_map(k)
        F = np.zeros((2 * nr + 2 * ns, nv))
        F[:nr, a:a + n], F[:nr, a + n:a + n + ns] = -s['J'], -M
        F[nr:2 * nr, a:a + n], F[nr:2 * nr, a + n + ns:a + n + 2 * ns] = s['J'], -M
        F[2 * nr:2 * nr + ns, a + n:a + n + ns] = -np.eye(ns)
        F[2 * nr + ns:, a + n + ns:a + n + 2 * ns] = -np.eye(ns)
        eq = P.eqrows(k)
        for i in range(2 * nr + 2 * ns):
            if not s['mask'][i] or (nr <= i < 2 * nr and i - nr in eq):
                continue
            if i in eq:
                Eq.append(-F[i:i + 1])
                eb.append(-s['ineq'][i:i + 1])
                where.append((k, i, 'eq', sum(len(q) for q in eb) - 1))
            else:
                where.append((k, i, 'in', len(h)))
                G.append(F[i])
                h.append(s['ineq'][i])
    E, e = np.vstack(Eq), np.concatenate(eb)
    G, h = np.array(G).reshape(len(h), nv), np.array(h)
    m, p = len(h), len(e)
    x, y = np.zeros(nv), np.zeros(p)
    t = np.maximum(1.0, -h)
    lam = np.ones(m)
    for it in range(120):
        rd = Hd @ x + g + E.T @ y + G.T @ lam
        rp = E @ x + e
        ri = G @ x + h + t
        mu = lam @ t / m if m else 0.0
        if max(np.max(np.abs(rd)), np.max(np.abs(rp)) if p else 0, np.max(np.abs(ri)) if m else 0, mu) < 1e-11:
            break
        D = lam / t
        K = np.block([[Hd + G.T @ (D[:, None] * G), E.T], [E, np.zeros((p, p))]])
        K[:nv, :nv] += 1e-14 * np.eye(nv)

        def newton(rc):
            rhs = np.concatenate([-(rd + G.T @ ((rc + lam * ri) / t)), -rp])
            z = np.linalg.solve(K, rhs)
            dx, dy = z[:nv], z[nv:]
            dt = -ri - G @ dx
            dl = (rc - lam * dt) / t
            return dx, dy, dl, dt

        def maxstep(v, dv):
            neg = dv < 0
            return min(1.0, np.min(-v[neg] / dv[neg])) if np.any(neg) else 1.0
        try:
            if m:
                dx, dy, dl, dt = newton(-lam * t)
                a = min(maxstep(lam, dl), maxstep(t, dt))
                sig = ((lam + a * dl) @ (t + a * dt) / m / mu) ** 3
                dx, dy, dl, dt = newton(sig * mu - dl * dt - lam * t)
                a = min(1.0, 0.995 * min(maxstep(lam, dl), maxstep(t, dt)))
            else:
                dx, dy, dl, dt = newton(np.zeros(0))
                a = 1.0
        except np.linalg.LinAlgError:
            return None
        x, y, lam, t = x + a * dx, y + a * dy, lam + a * dl, t + a * dt
    else:
        return None
    out = {q: [] for q in ('x', 'u', 'sl', 'su', 'pi', 'lam')}
    row = 0
    for k in range(N + 1):
        a, n, ns = off[k]
        out['x'].append(x[a:a + nx])
        out['u'].append(x[a + nx:a + n])
        out['sl'].append(x[a + n:a + n + ns])
        out['su'].append(x[a + n + ns:a + n + 2 * ns])
        out['lam'].append(np.zeros(2 * P.nrows(k) + 2 * ns))
    # equations were appended stage by stage: dynamics of stage k first, then its equality rows
    pos = 0
    for k in range(N + 1):
        if k < N:
            out['pi'].append(y[pos:pos + nx])
            pos += nx
        pos += len([1 for w in where if w[0] == k and w[2] == 'eq'])
    for k, i, q, j in where:
        if q == 'in':
            out['lam'][k][i] = lam[j]
        else:
            nr = P.nrows(k)
            out['lam'][k][i], out['lam'][k][nr + i] = max(-y[j], 0.0), max(y[j], 0.0)
    return out


def add_step(P, it, step, alpha=1.0):
    """full dual step"""
    new = {q: [a + alpha * b for a, b in zip(it[q], step[q])] for q in ('x', 'u', 'sl', 'su')}
    new['pi'] = [q.copy() for q in step['pi']]
    new['lam'] = [q.copy() for q in step['lam']]
    return new
