"""Arrays of every memory layout for the bulk functions of the bindings."""
import numpy as np
LAYOUTS = ("c", "f", "rows2", "cols", "rev", "wide")


def lay(data, layout, cols=2):
    """A float array of the given contents, laid out in memory as asked."""
    a = np.array(data, dtype=float).reshape(-1, cols)
    n = a.shape[0]
    if layout == "c":
        return a.copy()
    if layout == "f":
        return np.asfortranarray(a)
    if layout == "rows2":
        v = np.full((2 * n, cols), -777.)[::2]
    elif layout == "cols":
        v = np.full((n, cols * 2), -777.)[:, ::2]
    elif layout == "rev":
        v = np.full((n, cols), -777.)[::-1, ::-1]
    else:
        v = np.full((n + 2, cols + 3), -777.)[1:n + 1, 2:cols + 2]
    v[...] = a
    return v


def intact(v):
    """Nothing around a view was written."""
    b = v.base
    if b is None or b.shape == v.shape:
        return True
    c = b.copy()
    off = (v.__array_interface__["data"][0] - b.__array_interface__["data"][0])
    w = np.lib.stride_tricks.as_strided(np.ndarray(v.shape, v.dtype, c, off, v.strides), v.shape, v.strides)
    w[...] = -777.
    return bool(np.all(c == -777.))


def call(f, data, obj, inl, outl):
    """Result of the call, and whether everything else is as it should be."""
    a = lay(data, inl)
    keep = a.copy()
    if outl is None:
        r = f(a, obj)
        ok = r is not a and np.array_equal(a, keep)
    elif outl == "same":
        r = f(a, obj, a)
        ok = np.shares_memory(r, a) and np.array_equal(r, a)
    else:
        o = lay(np.zeros((len(data), 2)), outl)
        r = f(a, obj, o) if outl != "c" else f(a, obj, out=o)
        ok = np.shares_memory(r, o) and np.array_equal(r, o) and np.array_equal(a, keep) and intact(o)
        r = o
    return np.array(r), bool(ok and intact(a))
