"""Process setup for symbolic and for plain execution."""

import os
import sys
import warnings

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
REPO = os.environ.get('VERIF_REPO', '/repo')


def common():
    warnings.simplefilter('ignore')
    sys.set_int_max_str_digits(0)  # exact models of roots can be long
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)


def import_target():
    import importlib
    import pkgutil
    import nodefinder
    assert os.path.realpath(nodefinder.__file__).startswith(os.path.realpath(REPO) + os.sep), nodefinder.__file__
    for m in pkgutil.walk_packages(nodefinder.__path__, 'nodefinder.'):
        importlib.import_module(m.name)


def symbolic():
    common()
    import numpy  # noqa: F401  (from the venv, before the solver path is added)
    import scipy.linalg
    import scipy.special
    import networkx
    import h5py
    if VT not in sys.path:
        sys.path.append(VT)
    sys.setrecursionlimit(20000)
    from . import npshim
    npshim.install()
    from . import env
    env.install()
    import_target()
    npshim.patch_target()


def plain():
    common()
    import_target()
    warnings.simplefilter('ignore')
