"""Temporarily replaces functions of the code under test wherever a module refers to them."""
import contextlib, sys


def holders(fn):
    """Every (module, name) of the package bound to fn."""
    return [(m, n) for k, m in list(sys.modules.items()) if m is not None and (k == 'hapuamod' or k.startswith('hapuamod.'))
            for n, v in list(vars(m).items()) if v is fn]


@contextlib.contextmanager
def replaced(fn, new):
    at = holders(fn)
    for m, n in at:
        setattr(m, n, new)
    try:
        yield new
    finally:
        for m, n in at:
            setattr(m, n, fn)
