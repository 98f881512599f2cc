"""Containment: the code under test deletes and writes files (HTMLDependency.copy_to), so the
workers normally run as 'nobody' inside a scratch directory. On top of that, shutil.rmtree is
refused outside the scratch directory: such a call is recorded as a failure of the case, not
performed."""
import os, shutil

_root = None
_real = shutil.rmtree


class EscapedDelete(Exception):
    pass


def _guarded(path, *a, **k):
    p = os.path.realpath(os.fspath(path))
    if not p.startswith(_root + os.sep):
        raise EscapedDelete(f"rmtree outside the scratch directory: {p}")
    return _real(path, *a, **k)


def install(root):
    global _root
    _root = os.path.realpath(root)
    shutil.rmtree = _guarded
