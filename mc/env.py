"""Process set-up shared by every check: stand-ins on the path, the project's
interpreter quirks, nothing written next to the sources."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHIMS = os.path.join(VERIF, 'shims')


def setup():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    for p in (REPO, VERIF, SHIMS):
        if p not in sys.path:
            sys.path.insert(0, p)
    # A real package of that name wins over its stand-in never: stand-ins are
    # what the checks were built against, so they come first.
    sys.path.remove(SHIMS)
    sys.path.insert(0, SHIMS)
    import numpy as np
    np.seterr(all='ignore')
    if not hasattr(np, 'asscalar'):
        np.asscalar = lambda a: np.asarray(a).item()
    if not hasattr(np, 'float'):
        np.float = float
    import logging
    logging.disable(logging.CRITICAL)
