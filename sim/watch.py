"""
Where threads could get into each other's way: fingerprints of shared state, taken at every yield point of a recording
run.  A step at which the fingerprint changes is a good place for a switch, because something shared was just written.
Code that shares nothing has no such steps.
"""
import os
import sys
import types
import warnings
import zlib

import numpy as np

ATOMS = (int, float, complex, str, bytes, bool, type(None))
SKIP = (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, type, classmethod,
        staticmethod, property)
try:
    from numpy._core.printoptions import format_options as _format

    def printing():
        return id(_format.get())
except ImportError:
    def printing():
        return repr(np.get_printoptions())


def value(v, depth=4, seen=None):
    """Something that is different once v, or anything below it, is written."""
    if isinstance(v, ATOMS):
        return v if v == v else 'nan'
    if isinstance(v, np.ndarray):
        if v.dtype == object or v.size > 600:
            return id(v)
        return id(v), v.shape, zlib.adler32(np.ascontiguousarray(v).view(np.uint8)) if v.size else 0
    if isinstance(v, SKIP) or depth == 0:
        return id(v)
    seen = seen or set()
    if id(v) in seen:
        return id(v)
    seen = seen | {id(v)}
    if isinstance(v, dict):
        if len(v) > 200:
            return id(v), len(v)
        return id(v), [(k if isinstance(k, ATOMS) else id(k), value(x, depth - 1, seen)) for k, x in list(v.items())]
    if isinstance(v, (list, tuple, set, frozenset)):
        if len(v) > 200:
            return id(v), len(v)
        return id(v), [value(x, depth - 1, seen) for x in list(v)]
    d = getattr(v, '__dict__', None)
    if isinstance(d, dict):
        return id(v), [(k, value(x, depth - 1, seen)) for k, x in list(d.items())]
    return id(v)


def spaces():
    """The dictionaries of the library's modules and classes."""
    out, classes = [], set()
    for n, m in sorted(sys.modules.items()):
        if n.startswith('wai.ma') and m is not None:
            out.append(vars(m))
            for x in list(vars(m).values()):
                if isinstance(x, type) and str(x.__module__).startswith('wai.ma') and x not in classes:
                    classes.add(x)
                    out.append(vars(x))
                elif isinstance(x, types.FunctionType) and str(x.__module__).startswith('wai.ma') and \
                        (vars(x) or x.__defaults__):
                    out += [vars(x), dict(d=x.__defaults__)]
            for c in list(classes):
                for x in list(vars(c).values()):
                    f = getattr(x, '__func__', x)
                    if isinstance(f, types.FunctionType) and f.__defaults__:
                        out.append(dict(d=f.__defaults__))
    return out


def shared(dicts=None):
    """Fingerprints of the library's own global state, one per dictionary."""
    return [[(k, value(x, 3)) for k, x in list(d.items())
             if not (isinstance(x, SKIP) and not isinstance(x, type)) and k[:2] != '__']
            for d in (spaces() if dicts is None else dicts)]


def settings():
    """What calls could change for the rest of the process, as far as it is cheap to look at."""
    return (os.getcwd(), np.geterr(), printing(), id(warnings.filters), len(warnings.filters),
            id(warnings.showwarning), sys.getrecursionlimit(), id(sys.stdout), id(sys.stderr))


def dicts(v, out, depth=4):
    """The attribute dictionaries of v and of what it holds."""
    if isinstance(v, (list, tuple)):
        for x in v[:50]:
            dicts(x, out, depth)
    elif isinstance(v, dict):
        for x in list(v.values())[:50]:
            dicts(x, out, depth)
    elif depth and not isinstance(v, ATOMS + SKIP + (np.ndarray,)):
        d = getattr(v, '__dict__', None)
        if isinstance(d, dict) and not any(d is x for x in out):
            out.append(d)
            dicts(d, out, depth - 1)
    return out


def light(things):
    """Cheap fingerprint: which objects the attributes of the things refer to."""
    ds = dicts(things, [])

    def look():
        return [list(map(id, d.values())) for d in ds]
    return look


def full(things):
    """A function without arguments whose result changes when one of the things is written."""
    return lambda: value(things, 6)
