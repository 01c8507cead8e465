"""Shared pieces of all checks: outcome classes, deterministic number streams, comparison helpers."""
import hashlib
import json
import math
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property is broken on this case."""


class Skip(Exception):
    """The case turned out to lie outside the property's domain (counted, never silent)."""


class Rnd:
    """Deterministic number stream expanded from an integer drawn by Hypothesis.

    Not a source of randomness: the same integer always yields the same numbers
    (splitmix64), so a case is fully described by its JSON form.
    """

    def __init__(self, seed, *salt):
        h = hashlib.blake2b(repr((int(seed),) + salt).encode(), digest_size=8).digest()
        self.s = int.from_bytes(h, 'little')

    def u64(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        return z ^ (z >> 31)

    def unif(self, lo=-1.0, hi=1.0):
        return lo + (hi - lo) * (self.u64() >> 11) / float(1 << 53)

    def int(self, lo, hi):
        """inclusive"""
        return lo + self.u64() % (hi - lo + 1)

    def choice(self, seq):
        return seq[self.u64() % len(seq)]

    def bool(self, p=0.5):
        return self.unif(0, 1) < p

    def perm(self, n):
        l = list(range(n))
        for i in range(n - 1, 0, -1):
            j = self.int(0, i)
            l[i], l[j] = l[j], l[i]
        return l

    def subset(self, n, k):
        return self.perm(n)[:k]

    def mat(self, m, n, lo=-1.0, hi=1.0):
        import numpy as np
        return np.array([[self.unif(lo, hi) for _ in range(n)] for _ in range(m)]).reshape(m, n)

    def vec(self, n, lo=-1.0, hi=1.0):
        import numpy as np
        return np.array([self.unif(lo, hi) for _ in range(n)]).reshape(n)

    def spd(self, n, eps=0.1):
        import numpy as np
        a = self.mat(n, n)
        return a @ a.T / max(n, 1) + eps * np.eye(n)


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def close(a, b, rtol, atol):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b))
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= atol + rtol * scale)


def expect_close(name, got, want, rtol=1e-7, atol=1e-9):
    """Compare arrays: max abs error against atol + rtol*max(1, |want|_inf)."""
    import numpy as np
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        if got.size == want.size and got.size == 0:
            return
        raise Violation('%s: shape %s, expected %s' % (name, got.shape, want.shape))
    if got.size == 0:
        return
    if not close(got, want, rtol, atol):
        with np.printoptions(precision=10, threshold=60, linewidth=160):
            raise Violation('%s: got\n%s\nexpected\n%s\nmax abs diff %.3e' % (
                name, got, want, float(np.max(np.abs(got - want)))))


def expect(cond, msg):
    if not cond:
        raise Violation(msg)
