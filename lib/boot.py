"""Bootstraps: makes `phyem` (from /repo) and `hypothesis` importable, in a scratch working directory.

Nothing here writes into /repo or /verif.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('VP_REPO', '/repo')
_state = {}


def scratch():
    """The scratch directory of this process (created on first use, removed at exit)."""
    if 'scratch' not in _state:
        base = os.environ.get('VP_SCRATCH')
        _state['scratch'] = tempfile.mkdtemp(prefix='vp_', dir=base)
        pid = os.getpid()

        def _rm(path=_state['scratch']):
            if os.getpid() == pid:
                os.chdir('/')
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(_rm)
    return _state['scratch']


def add_hypothesis():
    if 'hyp' in _state:
        return
    _state['hyp'] = True
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    src = None
    import glob
    for cand in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'):
        if os.path.isdir(os.path.join(cand, 'hypothesis')):
            src = cand
            break
    d = os.path.join(scratch(), 'hyp')
    os.makedirs(d)
    if src is not None:
        for name in os.listdir(src):
            if name.startswith(('hypothesis', '_hypothesis', 'sortedcontainers')):
                os.symlink(os.path.join(src, name), os.path.join(d, name))
    else:  # the offline wheelhouse
        import zipfile
        for w in glob.glob('/opt/veriftools/wheels/*.whl'):
            if os.path.basename(w).startswith(('hypothesis-', 'sortedcontainers-')):
                zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)


def phyem():
    """Import phyem from the working tree of /repo, and move to a scratch working directory."""
    if 'ph' in _state:
        return _state['ph']
    d = os.path.join(scratch(), 'root')
    os.makedirs(d)
    os.symlink(REPO, os.path.join(d, 'phyem'))
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    cwd = os.path.join(scratch(), 'cwd')
    os.makedirs(cwd)
    os.chdir(cwd)
    os.environ['MPLBACKEND'] = 'Agg'
    import warnings
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    matplotlib.use = lambda *a, **k: None   # phyem asks for TkAgg, which needs a display
    import phyem as ph
    _state['ph'] = ph
    return ph
