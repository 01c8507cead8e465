"""Random OCP-structured QPs with an independent numpy description (strictly convex in the states and controls)."""
import numpy as np
from hypothesis import strategies as st
from common import Rnd


@st.composite
def spec(draw, Nmax=5):
    b = st.booleans()
    return {'seed': draw(st.integers(0, 2 ** 40)), 'N': draw(st.integers(0, Nmax)), 'nx': draw(st.integers(1, 4)),
            'nu': draw(st.integers(0, 3)), 'vardim': draw(b), 'x0': draw(st.sampled_from(['none', 'eq', 'eq', 'part'])),
            'nb': draw(st.integers(0, 3)), 'ng': draw(st.integers(0, 3)), 'soft': draw(st.integers(0, 3)),
            'share': draw(st.integers(0, 3).map(lambda v: v == 3)), 'mask': draw(st.integers(0, 2).map(lambda v: v == 2)),
            'smask': draw(st.integers(0, 3).map(lambda v: v == 3)), 'lls': draw(b), 'perm': draw(b),
            'tight': draw(b), 'nuN': draw(st.integers(0, 3).map(lambda v: v == 3)),
            'infeas': draw(st.integers(0, 7).map(lambda v: v == 7)), 'nulls': draw(st.integers(0, 3).map(lambda v: v == 3))}


class QP:
    def __init__(self, c):
        r = Rnd(c['seed'], 'qp')
        N = self.N = c['N']
        self.nx = [max(1, c['nx'] + (r.int(-1, 1) if c['vardim'] else 0)) for _ in range(N + 1)]
        self.nu = [max(0, c['nu'] + (r.int(-1, 1) if c['vardim'] else 0)) for _ in range(N)] + [c['nu'] if c['nuN'] else 0]
        nx, nu = self.nx, self.nu
        self.A = [r.mat(nx[k + 1], nx[k]) for k in range(N)]
        self.B = [r.mat(nx[k + 1], nu[k]) for k in range(N)]
        self.b = [0.3 * r.vec(nx[k + 1]) for k in range(N)]
        self.H = [r.spd(nx[k] + nu[k], 0.2) for k in range(N + 1)]       # order u, x
        self.g = [r.vec(nx[k] + nu[k]) for k in range(N + 1)]
        # a feasible trajectory
        self.un = [0.5 * r.vec(nu[k]) for k in range(N + 1)]
        self.xn = [0.5 * r.vec(nx[0])]
        for k in range(N):
            self.xn.append(self.A[k] @ self.xn[k] + self.B[k] @ self.un[k] + self.b[k])
        self.idxb, self.nbu, self.J, self.lo, self.up, self.eq = [], [], [], [], [], []
        self.C, self.D = [], []
        self.idxs, self.ns = [], []
        self.mask, self.Z, self.z, self.ls, self.smask = [], [], [], [], []
        for k in range(N + 1):
            n = nu[k] + nx[k]
            iu = r.subset(nu[k], min(nu[k], r.int(0, c['nb'])))
            ix = r.subset(nx[k], min(nx[k], r.int(0, c['nb'])))
            if not c['perm']:
                iu, ix = sorted(iu), sorted(ix)
            eq = []
            if k == 0 and c['x0'] == 'eq':
                ix = list(range(nx[0]))
                eq = ix
            elif k == 0 and c['x0'] == 'part' and ix:
                eq = ix[:1]
            ng = r.int(0, c['ng'])
            C, D = r.mat(ng, nx[k]), r.mat(ng, nu[k])
            J = np.vstack([np.eye(n)[iu], np.eye(n)[[nu[k] + i for i in ix]], np.hstack([D, C])]) if True else None
            v = J @ np.concatenate([self.un[k], self.xn[k]])
            nr = len(v)
            wl, wu = r.vec(nr, 0.05, 0.6), r.vec(nr, 0.05, 0.6)
            if not c['tight']:
                wl, wu = wl * 4, wu * 4
            lo, up = v - wl, v + wu
            eqrows = [len(iu) + j for j, i in enumerate(ix) if i in eq]
            for i in eqrows:
                lo[i] = up[i] = v[i]
            free = [i for i in range(nr) if i not in eqrows]
            sr = sorted(r.perm(len(free))[:r.int(0, c['soft'])]) if c['soft'] else []
            sr = [free[i] for i in sr]
            idxs = -np.ones(nr, int)
            ns = len(sr)
            if c['share'] and ns > 1:
                ns = r.int(1, ns - 1)
                for j, i in enumerate(sr):
                    idxs[i] = j if j < ns else r.int(0, ns - 1)
            else:
                p = r.perm(ns) if c['perm'] else list(range(ns))
                for j, i in enumerate(sr):
                    idxs[i] = p[j]
            for i in sr:           # soft rows may be violated at the nominal point
                sh = r.unif(-1, 1)
                lo[i] += sh
                up[i] += sh
            mask = np.ones(2 * nr)
            if c['mask']:
                for i in range(2 * nr):
                    if i % max(nr, 1) not in eqrows and r.bool(0.3):
                        mask[i] = 0
            smask = np.ones(2 * ns)
            Z = r.vec(2 * ns, 0.1, 3)
            if c['nulls']:
                Z *= 0
            z = r.vec(2 * ns, 0.1, 2)
            ls = np.zeros(2 * ns) if not c['lls'] else r.vec(2 * ns, 0, 0.2)
            if c['smask'] and not c['nulls']:
                for i in range(2 * ns):
                    if r.bool(0.4):
                        smask[i] = 0
            for l, val in (('idxb', iu + [nu[k] + i for i in ix]), ('nbu', len(iu)), ('J', J), ('lo', lo), ('up', up), ('eq', eqrows),
                           ('C', C), ('D', D), ('idxs', idxs), ('ns', ns), ('mask', mask), ('Z', Z), ('z', z), ('ls', ls), ('smask', smask)):
                getattr(self, l).append(val)
        self.infeas = False
        if c['infeas'] and not c['mask']:
            # contradict a hard equality: the initial state, or a hard row duplicated with a disjoint interval
            k = r.int(0, N)
            nr = self.J[k].shape[0]
            hard = [i for i in range(nr - self.C[k].shape[0], nr) if self.idxs[k][i] < 0]
            if hard:
                i = hard[0]
                n0 = nr - self.C[k].shape[0]
                gap = self.up[k][i] - self.lo[k][i] + 0.5
                self.C[k] = np.vstack([self.C[k], self.C[k][i - n0]])
                self.D[k] = np.vstack([self.D[k], self.D[k][i - n0]])
                self.J[k] = np.vstack([self.J[k], self.J[k][i]])
                self.lo[k] = np.append(self.lo[k], self.lo[k][i] + gap)
                self.up[k] = np.append(self.up[k], self.up[k][i] + gap)
                self.idxs[k] = np.append(self.idxs[k], -1)
                self.mask[k] = np.ones(2 * (nr + 1))
                self.infeas = True

    def fields(self):
        """(field, stage, value) triples in the public naming"""
        out = []
        for k in range(self.N + 1):
            nu, nx, nbu, ns = self.nu[k], self.nx[k], self.nbu[k], self.ns[k]
            nb = len(self.idxb[k])
            nr = self.J[k].shape[0]
            H, g = self.H[k], self.g[k]
            d = {'R': H[:nu, :nu], 'S': H[:nu, nu:], 'Q': H[nu:, nu:], 'r': g[:nu], 'q': g[nu:],
                 'idxb': np.array(self.idxb[k], int), 'lbu': self.lo[k][:nbu], 'ubu': self.up[k][:nbu],
                 'lbx': self.lo[k][nbu:nb], 'ubx': self.up[k][nbu:nb], 'lg': self.lo[k][nb:], 'ug': self.up[k][nb:],
                 'C': self.C[k], 'D': self.D[k], 'idxs_rev': self.idxs[k],
                 'lls': self.ls[k][:ns], 'lus': self.ls[k][ns:], 'zl': self.z[k][:ns], 'zu': self.z[k][ns:],
                 'Zl': self.Z[k][:ns], 'Zu': self.Z[k][ns:],
                 'lbu_mask': self.mask[k][:nbu], 'lbx_mask': self.mask[k][nbu:nb], 'lg_mask': self.mask[k][nb:nr],
                 'ubu_mask': self.mask[k][nr:nr + nbu], 'ubx_mask': self.mask[k][nr + nbu:nr + nb], 'ug_mask': self.mask[k][nr + nb:],
                 'lls_mask': self.smask[k][:ns], 'lus_mask': self.smask[k][ns:], 'idxe': np.array(self.eq[k], int)}
            if k < self.N:
                d.update(A=self.A[k], B=self.B[k], b=self.b[k])
            out += [(f, k, v) for f, v in d.items()]
        return out

    def has_mask(self):
        return any(np.any(m == 0) for m in self.mask + self.smask)

    def shared(self):
        return any(len([i for i in s if i >= 0]) != len(set(i for i in s if i >= 0)) for s in self.idxs)

    def cost(self, it):
        c = 0.0
        for k in range(self.N + 1):
            v = np.concatenate([it['u'][k], it['x'][k]])
            s = np.concatenate([it['sl'][k], it['su'][k]])
            c += 0.5 * v @ self.H[k] @ v + self.g[k] @ v + 0.5 * s @ (self.Z[k] * s) + self.z[k] @ s
        return c

    def kkt(self, it):
        """max violations: stationarity, dynamics, inequality, complementarity, dual sign"""
        r = np.zeros(5)

        def up(i, v):
            v = np.asarray(v)
            if v.size:
                r[i] = max(r[i], float(np.max(v)))
        for k in range(self.N + 1):
            nu, ns = self.nu[k], self.ns[k]
            v = np.concatenate([it['u'][k], it['x'][k]])
            nr = self.J[k].shape[0]
            m = self.mask[k]
            lam = it['lam'][k]
            ll, lu, lsl, lsu = lam[:nr] * m[:nr], lam[nr:2 * nr] * m[nr:], lam[2 * nr:2 * nr + ns] * self.smask[k][:ns], \
                lam[2 * nr + ns:] * self.smask[k][ns:]
            st = self.H[k] @ v + self.g[k] + self.J[k].T @ (lu - ll)
            if k < self.N:
                st += np.hstack([self.B[k], self.A[k]]).T @ it['pi'][k]
                up(1, np.abs(self.A[k] @ it['x'][k] + self.B[k] @ it['u'][k] + self.b[k] - it['x'][k + 1]))
            if k > 0:
                st[nu:] -= it['pi'][k - 1]
            up(0, np.abs(st))
            sl, su = it['sl'][k], it['su'][k]
            gl = self.Z[k][:ns] * sl + self.z[k][:ns] - lsl
            gu = self.Z[k][ns:] * su + self.z[k][ns:] - lsu
            y = self.J[k] @ v
            vl, vu = y - self.lo[k], self.up[k] - y
            for i in range(nr):
                j = self.idxs[k][i]
                if j >= 0:
                    gl[j] -= ll[i]
                    gu[j] -= lu[i]
                    vl[i] += sl[j]
                    vu[i] += su[j]
            up(0, np.abs(gl))
            up(0, np.abs(gu))
            ml, mu = m[:nr] > 0, m[nr:] > 0
            up(2, -vl[ml])
            up(2, -vu[mu])
            vs = np.concatenate([sl, su]) - self.ls[k]
            ms = self.smask[k] > 0
            up(2, -vs[ms])
            ne = np.array([i not in self.eq[k] for i in range(nr)], bool)
            up(3, np.abs(ll * vl)[ml & ne])
            up(3, np.abs(lu * vu)[mu & ne])
            up(3, np.abs(np.concatenate([lsl, lsu]) * vs)[ms])
            up(4, -ll[ne])
            up(4, -lu[ne])
            up(4, -lsl)
            up(4, -lsu)
        return r
