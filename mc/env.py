"""
Import x7.geom from /repo's working tree, without display, files or network.
"""

import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLCONFIGDIR', os.path.join('/tmp', 'verif-mpl-%d' % os.getuid()))
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


def setup():
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    # plot_viewer selects the TkAgg backend and needs a display.  It is only used by a demo in utils.
    stub = types.ModuleType('x7.geom.plot_viewer')
    stub.PlotViewer = object
    import x7.geom
    mods = list(getattr(x7.geom, '__path__', []))
    where = os.path.realpath(os.path.join(REPO, 'x7', 'geom'))
    if not any(os.path.realpath(p) == where for p in mods):
        raise RuntimeError('x7.geom comes from %s, not %s' % (mods, where))
    sys.modules['x7.geom.plot_viewer'] = stub
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: plt.close('all')
