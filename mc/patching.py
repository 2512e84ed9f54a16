"""Replacing what the code talks to, wherever and under whatever name the code refers to it."""
import contextlib
import types


@contextlib.contextmanager
def swapped(pairs, modules):
    """every reference to an original object among the globals (or attributes) of the modules becomes the replacement"""
    undo = []
    try:
        for orig, new in pairs:
            for mod in modules:
                for k, v in list(vars(mod).items()):
                    if v is orig:
                        undo.append((mod, k, v))
                        setattr(mod, k, new)
        yield
    finally:
        for mod, k, v in reversed(undo):
            setattr(mod, k, v)


@contextlib.contextmanager
def patched(*sets):
    """(object, attribute, value); attributes that do not exist are left alone"""
    old = [(o, n, getattr(o, n)) for o, n, _ in sets if hasattr(o, n)]
    try:
        for o, n, v in sets:
            if hasattr(o, n):
                setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old):
            setattr(o, n, v)


def call(fn, **named):
    """calls fn with those of the named values that it has parameters for"""
    import inspect
    return fn(**{k: v for k, v in named.items() if k in inspect.signature(fn).parameters})
