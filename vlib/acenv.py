"""Import acados_template inside a worker: overlay as ACADOS_SOURCE_DIR, in-process Tera renderer."""
import os
import shlex
import shutil
import sys
import warnings

import build as _build

_ready = False
_os_system = os.system


def _system(cmd):
    try:
        a = shlex.split(cmd)
    except ValueError:
        a = []
    if a and os.path.basename(a[0]) == 't_renderer':
        import tera
        try:
            return tera.main(a)
        except Exception as e:   # rendering failures surface as acados' own RuntimeError
            sys.stderr.write('tera: %r\n' % (e,))
            return 1
    return _os_system(cmd)


def setup(overlay):
    """Call once per process, before importing acados_template."""
    global _ready
    if _ready:
        return
    os.environ['ACADOS_SOURCE_DIR'] = overlay
    os.environ['ACADOS_INSTALL_DIR'] = overlay
    tpl = os.path.join(_build.REPO, 'interfaces', 'acados_template')
    if tpl not in sys.path:
        sys.path.insert(0, tpl)
    warnings.filterwarnings('ignore')
    os.system = _system
    _ready = True


def cleanup_dir(d):
    if d and os.path.isabs(d) and os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)
