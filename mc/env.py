"""Puts the code under test (/repo, never a copy) on the path, hermetically.

* no bytecode is read from or written to /repo;
* the metaschema documents, which are empty git submodules in /repo, are supplied
  from /verif/mc/metaschemas by redirecting only paths below
  /repo/jschon/catalog/json-schema-*; everything else is the real code.
"""
import builtins
import io
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
META = os.path.join(HERE, 'metaschemas')
_CAT = os.path.join(os.path.realpath(REPO), 'jschon', 'catalog') + os.sep + 'json-schema-'

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/verif-pycache'
warnings.simplefilter('ignore')
sys.path.insert(0, REPO)

_real_open = io.open


def _redirect(p):
    try:
        s = os.fspath(p)
    except TypeError:
        return p
    if isinstance(s, bytes):
        return p
    if s.startswith(_CAT) or os.path.realpath(s).startswith(_CAT):
        s = s if s.startswith(_CAT) else os.path.realpath(s)
        if not os.path.isfile(s):
            return os.path.join(META, s[len(_CAT):])
    return p


def _open(file, *a, **k):
    if not isinstance(file, int):
        file = _redirect(file)
    return _real_open(file, *a, **k)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    # deep documents are checked; how many frames a level of depth takes is the code's business
    sys.setrecursionlimit(max(4000, sys.getrecursionlimit()))
    builtins.open = _open
    io.open = _open
    import jschon
    got = os.path.realpath(os.path.dirname(jschon.__file__))
    want = os.path.join(os.path.realpath(REPO), 'jschon')
    if got != want:
        raise RuntimeError(f'jschon imported from {got}, expected {want}')
    from jschon.catalog import LocalSource
    orig = LocalSource.__init__

    def __init__(self, *a, **k):
        def m(v):
            if isinstance(v, (str, os.PathLike)) and os.path.realpath(os.fspath(v)).startswith(_CAT) \
                    and not (os.path.isdir(v) and os.listdir(v)):
                import pathlib
                return pathlib.Path(META) / os.path.realpath(os.fspath(v))[len(_CAT):]
            return v
        return orig(self, *[m(x) for x in a], **{kk: m(v) for kk, v in k.items()})
    LocalSource.__init__ = __init__
