"""Build libacados (and an ACADOS_SOURCE_DIR overlay) from /repo's working tree.

Everything lands in VERIF_BUILD (default /verif/.build), keyed by the content of
the sources, so that a run against changed sources never sees stale objects.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
PY = '/opt/acados-env/venv/bin/python'
CA = '/opt/acados-env/venv/lib/python3.12/site-packages/casadi'
SHIM = os.path.join(VERIF, 'shim')

EXCLUDE = ('hpmpc', 'ooqp', 'qore', 'qpdunes', 'qpoases', 'clarabel')
EXCLUDE_EXACT = ('dense_qp_daqp.c',)


def sources():
    out = []
    for d in ('acados/utils', 'acados/sim', 'acados/ocp_qp', 'acados/dense_qp',
              'acados/ocp_nlp', 'interfaces/acados_c'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.c'))):
            b = os.path.basename(f)
            if any(e in b for e in EXCLUDE) or b in EXCLUDE_EXACT:
                continue
            out.append(f)
    out.append(os.path.join(SHIM, 'hpipm_compat.c'))
    return out


def headers():
    out = []
    for d in ('acados', 'interfaces/acados_c'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith('.h')]
    for root, dirs, files in os.walk(os.path.join(SHIM, 'include')):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files)]
    return out


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(f):
    with open(f, 'rb') as fh:
        return fh.read()


def _symlink(src, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.islink(dst) or os.path.exists(dst):
        return
    os.symlink(src, dst)


VARIANTS = {
    'opt': ['-O2', '-fPIC'],
    'asan': ['-O1', '-g', '-fPIC', '-fsanitize=address,undefined', '-fno-omit-frame-pointer',
             '-fno-sanitize=alignment,shift', '-fno-sanitize-recover=undefined'],
}


def cflags(extra_inc):
    return ['-DACADOS_WITH_OSQP', '-std=c99', '-D_GNU_SOURCE', '-include', 'hpipm_compat.h',
            '-I' + REPO, '-I' + os.path.join(REPO, 'interfaces'),
            '-I' + os.path.join(SHIM, 'include'),
            '-I' + os.path.join(extra_inc, 'hpipm', 'include'),
            '-I' + extra_inc,
            '-I' + os.path.join(CA, 'include', 'daqp'),
            '-I' + os.path.join(CA, 'include', 'osqp')]


def build(variant='opt', verbose=False):
    """Returns the overlay directory to use as ACADOS_SOURCE_DIR."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, verbose)


def _build(variant, verbose):
    inc = os.path.join(BUILD, 'inc')
    _symlink(os.path.join(CA, 'include'), os.path.join(inc, 'hpipm', 'include'))
    _symlink(os.path.join(CA, 'include'), os.path.join(inc, 'blasfeo', 'include'))
    _symlink(os.path.join(CA, 'include', 'osqp'), os.path.join(inc, 'osqp', 'include'))

    flags = VARIANTS[variant] + cflags(inc)
    hdr_key = _sha(*[x for f in headers() for x in (os.path.relpath(f, '/'), _read(f))])
    srcs = sources()
    objs, jobs = [], []
    objdir = os.path.join(BUILD, 'obj-' + variant)
    os.makedirs(objdir, exist_ok=True)
    keys = []
    for s in srcs:
        k = _sha(hdr_key, _read(s), ' '.join(flags))
        keys.append(os.path.basename(s) + k)
        o = os.path.join(objdir, os.path.basename(s)[:-2] + '-' + k + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    total = _sha(*keys)
    ov = os.path.join(BUILD, 'ov-%s-%s' % (variant, total))
    lib = os.path.join(ov, 'lib', 'libacados.so')

    def cc(job):
        s, o = job
        tmp = o + '.tmp%d.o' % os.getpid()
        impl = ['-DVERIF_HPIPM_COMPAT_IMPL'] if s.startswith(SHIM) else []
        r = subprocess.run(['gcc'] + flags + impl + ['-w', '-c', s, '-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return (s, r.stderr)
        os.replace(tmp, o)
        return None

    if not os.path.exists(lib):
        # drop outdated overlays / objects to keep the disk footprint bounded
        for old in glob.glob(os.path.join(BUILD, 'ov-%s-*' % variant)):
            if old != ov and _age(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(cc, jobs) if e]
        if errs:
            for s, e in errs[:3]:
                sys.stderr.write('compile error in %s:\n%s\n' % (s, e[:3000]))
            raise RuntimeError('libacados does not compile')
        os.makedirs(os.path.join(ov, 'lib'), exist_ok=True)
        tmp = lib + '.tmp'
        san = ['-fsanitize=address,undefined'] if variant == 'asan' else []
        r = subprocess.run(['gcc', '-shared', '-o', tmp] + san + objs +
                           ['-L' + CA, '-Wl,-rpath,' + CA, '-Wl,--no-undefined', '-lhpipm', '-lblasfeo', '-losqp',
                            '-lqdldl', '-lm', '-ldl', '-Wl,-soname,libacados.so'], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[:4000])
            raise RuntimeError('libacados does not link')
        for l in ('libhpipm.so', 'libblasfeo.so', 'libosqp.so', 'libqdldl.so'):
            _symlink(os.path.join(CA, l), os.path.join(ov, 'lib', l))
        with open(os.path.join(ov, 'lib', 'link_libs.json'), 'w') as f:
            json.dump(dict(qpoases='', hpmpc='', osqp='', daqp='', clarabel='', openmp='', qpdunes='', ooqp='', hpipm='', blasfeo=''), f)
        incd = os.path.join(ov, 'include')
        _symlink(os.path.join(REPO, 'acados'), os.path.join(incd, 'acados'))
        _symlink(os.path.join(REPO, 'interfaces', 'acados_c'), os.path.join(incd, 'acados_c'))
        _symlink(os.path.join(CA, 'include'), os.path.join(incd, 'blasfeo', 'include'))
        hinc = os.path.join(incd, 'hpipm', 'include')
        os.makedirs(hinc, exist_ok=True)
        for f in glob.glob(os.path.join(CA, 'include', 'hpipm*')):
            _symlink(f, os.path.join(hinc, os.path.basename(f)))
        for f in glob.glob(os.path.join(SHIM, 'include', 'hpipm', 'include', '*')):
            _symlink(f, os.path.join(hinc, os.path.basename(f)))
        # the shim header is force-included by generated code through CPATH-free flag below
        _symlink(os.path.join(SHIM, 'include', 'hpipm_compat.h'), os.path.join(incd, 'hpipm_compat.h'))
        _symlink(os.path.join(SHIM, 'include', 'hpipm'), os.path.join(incd, 'hpipm_shim'))
        _symlink(os.path.join(REPO, 'interfaces'), os.path.join(ov, 'interfaces'))
        _symlink(os.path.join(VERIF, 'vlib', 't_renderer'), os.path.join(ov, 'bin', 't_renderer'))
        if variant == 'asan':
            r = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', os.path.join(SHIM, 'nodeepbind.c'), '-o',
                                os.path.join(ov, 'lib', 'nodeepbind.so'), '-ldl'], capture_output=True, text=True)
            if r.returncode != 0:
                raise RuntimeError('nodeepbind does not compile: ' + r.stderr[:1000])
        os.replace(tmp, lib)
    return ov


def _age(p):
    import time
    try:
        return time.time() - os.stat(p).st_mtime
    except OSError:
        return 0


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'opt', True))
