"""No call of the library or of generated code touches memory that is not its own; nothing is leaked over a life cycle.

libacados and the generated solvers are compiled with AddressSanitizer and UndefinedBehaviorSanitizer (the workers run
with libasan preloaded) and driven by the generators of the other checks: any report ends the worker, which is the
violation.  What the other checks say about values is of no interest here.
The life-cycle mode compares the number of bytes that are allocated before and after create - solve - free."""
import ctypes
import importlib
import os
import shutil

from hypothesis import strategies as st
from common import Skip, Violation

MODS = ('c01', 'c02', 'c03', 'c05', 'c06', 'c07', 'c09', 'c12', 'c13', 'c23', 'c24', 'c31')
SAN = '-g1 -fsanitize=address,undefined -fno-omit-frame-pointer -fno-sanitize=alignment,shift -fno-sanitize-recover=undefined'


def init(job):
    os.environ.pop('LD_PRELOAD', None)       # children need no sanitizer runtime
    os.environ['CC'] = 'gcc ' + SAN
    for m in MODS:
        m = importlib.import_module(m)
        if hasattr(m, 'init'):
            m.init(job)


@st.composite
def full(draw, tier):
    m = draw(st.sampled_from(MODS))
    return {'m': m, 'case': draw(importlib.import_module(m).strategy(tier)), 'life': draw(st.integers(0, 3))}


def strategy(tier):
    return full(tier)


class Leak(Exception):
    pass


def cycle(lib, name, sim, ops):
    """create - use - free, entirely in C"""
    def f(n, res, *args):
        g = getattr(lib, name + n)
        g.restype, g.argtypes = res, [t for t, _ in args]
        return g(*[v for _, v in args])
    i, vp = ctypes.c_int, ctypes.c_void_p
    if sim:
        cap = f('_acados_sim_solver_create_capsule', vp)
        f('_acados_sim_create', i, (vp, cap))
        if ops & 1:
            f('_acados_sim_solve', i, (vp, cap))
        f('_acados_sim_free', i, (vp, cap))
        f('_acados_sim_solver_free_capsule', i, (vp, cap))
        return
    cap = f('_acados_create_capsule', vp)
    f('_acados_create', i, (vp, cap))
    if ops & 1:
        f('_acados_solve', i, (vp, cap))
    if ops & 2:
        f('_acados_reset', i, (vp, cap), (i, 1))
    f('_acados_free', i, (vp, cap))
    f('_acados_free_capsule', i, (vp, cap))


def lifecycle(lib, name, sim, ops):
    """allocated bytes are the same before and after; the first round may fill caches of the C library"""
    count = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    count.restype = ctypes.c_size_t
    table = lib.vc_table_bytes            # the stand-in for missing HPIPM functions keeps some vectors per workspace
    table.restype = ctypes.c_size_t
    grow = []
    for r in range(4):
        a = count() - table()
        cycle(lib, name, sim, ops)
        grow.append(count() - table() - a)
    if min(grow[1:]) > 0:
        raise Leak('create%s%s - free of %s leaks: allocated bytes grow by %s per cycle'
                   % (' - solve' if ops & 1 else '', ' - reset' if ops & 2 else '', name, grow))


class patched:
    """the first solver a case creates goes through the life cycle"""
    def __init__(self, ops):
        self.ops, self.done = ops, 0

    def __enter__(self):
        import acados_template as at
        self.old = [(cl, cl.__init__) for cl in (at.AcadosOcpSolver, at.AcadosSimSolver)]
        for cl, init in self.old:
            def new(obj, *args, _init=init, **kw):
                _init(obj, *args, **kw)
                if not self.done:
                    self.done = 1
                    sim = isinstance(obj, at.AcadosSimSolver)
                    lifecycle(obj.shared_lib, obj.sim.name if sim else obj.acados_ocp.name, sim, self.ops)
            cl.__init__ = new
        return self

    def __exit__(self, *a):
        for cl, init in self.old:
            cl.__init__ = init


def run(c):
    lab = [c['m']]
    try:
        with patched(c['life']) as p:
            info = importlib.import_module(c['m']).run(c['case']) or {}
        return {'labels': lab + ['life cycle'] * p.done + ['%s %s' % (c['m'], l) for l in info.get('labels', [])[:3]], 'nontrivial': True}
    except Leak as e:
        raise Violation(str(e))
    except Violation as e:
        return {'labels': lab + [c['m'] + ' (its own oracle objects)'], 'nontrivial': False}
    except (Skip, MemoryError):
        raise
    except Exception as e:
        return {'labels': lab + ['%s raised %s' % (c['m'], type(e).__name__)], 'nontrivial': False}
    finally:
        here = os.getcwd()
        for q in os.listdir(here):
            q = os.path.join(here, q)
            if os.path.isdir(q) and not os.path.islink(q):
                shutil.rmtree(q, ignore_errors=True)
