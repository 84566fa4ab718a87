"""Bitwise comparison and digests of pytrees."""
import hashlib

import numpy as np


def leaves(tree):
    import jax
    return jax.tree_util.tree_flatten_with_path(tree)


def is_arr(x):
    return hasattr(x, "dtype") and hasattr(x, "shape")


def leaf_key(x):
    """Exact identity of a leaf: arrays by dtype, shape and bits; numbers by value and class."""
    if is_arr(x):
        a = np.asarray(x)
        return ("a", str(a.dtype), a.shape, a.tobytes())
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, int):
        return ("i", x)
    if isinstance(x, float):
        return ("f", np.float64(x).tobytes())
    return ("o", repr(x))


def diff(want, got, loose_scalars=False):
    """None, or a description of the first leaf that is not identical.

    loose_scalars: a Python number and a 0-d array of the same value count as equal (a
    checkpoint taken from a jitted state holds arrays where a fresh skeleton holds numbers).
    """
    import jax
    lw, tw = jax.tree_util.tree_flatten_with_path(want)
    lg, tg = jax.tree_util.tree_flatten_with_path(got)
    if len(lw) != len(lg):
        return f"{len(lg)} leaves instead of {len(lw)}"
    for (pw, w), (pg, g) in zip(lw, lg):
        name = jax.tree_util.keystr(pw)
        if pw != pg:
            return f"leaf {jax.tree_util.keystr(pg)} where {name} was expected"
        if leaf_key(w) == leaf_key(g):
            continue
        if loose_scalars and np.ndim(w) == 0 and np.ndim(g) == 0 and is_arr(w) != is_arr(g):
            a, b = (np.asarray(w).item(), np.asarray(g).item())
            if a == b or (a != a and b != b):
                continue
        return f"{name}: {_short(w)} became {_short(g)}"
    return None


def _short(x):
    if is_arr(x):
        a = np.asarray(x)
        s = np.array2string(a.ravel()[:6], precision=8)
        return f"{a.dtype}{list(a.shape)} {s}"
    return repr(x)


def digest(tree):
    import jax
    h = hashlib.sha256()
    for p, x in jax.tree_util.tree_flatten_with_path(tree)[0]:
        h.update(jax.tree_util.keystr(p).encode())
        k = leaf_key(x)
        h.update(repr(k[:-1]).encode())
        v = k[-1]
        h.update(v if isinstance(v, bytes) else repr(v).encode())
    return h.hexdigest()[:24]


def np_tree(tree):
    """Leaves as numpy copies (for keeping values independent of the library's objects)."""
    import jax
    return [(jax.tree_util.keystr(p), leaf_key(x)) for p, x in jax.tree_util.tree_flatten_with_path(tree)[0]]
