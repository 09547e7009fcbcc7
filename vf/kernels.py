"""Access to the weight kernels of the exact-distance code through its public entry points."""
from __future__ import annotations

import contextlib
import functools
import types

import numpy as np

from . import symnp as S
from . import values as V
from .engine import EngineGap


def distance(ctx, generators, kernel: str, homogeneous: bool, stabilizers=(), **kwargs):
    codes = ctx.q.codes
    kwargs["use_numba"] = kernel == "numba"
    if homogeneous and not len(stabilizers):
        return codes.get_distance_classical(generators, **kwargs)
    if not len(stabilizers):
        stabilizers = ctx.np.zeros((0, generators.shape[1]), dtype=int)
    return codes.get_distance_quantum(generators, stabilizers, homogeneous=homogeneous, **kwargs)


def total(ctx, bits):
    """Sum of a list of 0/1 values."""
    if ctx.symbolic:
        words = V.sum_bits([[V.blit(b)] for b in bits] or [[0]])
        return V.mkint(list(words) + [0])
    return sum(int(b) for b in bits)


class _Numba(types.ModuleType):
    """Stand-in for numba: a vectorised function is the Python function applied elementwise."""

    def __init__(self):
        super().__init__("numba")
        for name in ("uint", "uint64", "int64", "uint32", "uint8"):
            setattr(self, name, lambda *a: None)

    @staticmethod
    def vectorize(*sigs, **kw):
        def decorate(func):
            def vec(arr, *bufs, out=None):
                objs = S.make_objects(arr)
                res = S.to_objects(objs, lambda x: func(V.word(x, 64)))
                if out is not None:
                    out[...] = S.wrap(res)
                    return out
                return S.wrap(res)

            return vec

        if len(sigs) == 1 and callable(sigs[0]) and isinstance(sigs[0], types.FunctionType):
            return decorate(sigs[0])
        return decorate

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise EngineGap(f"numba.{name}")


def numba_stubs():
    return {"numba": _Numba()}


class _OldNumpy(S.NPProxy):
    """numpy before bitwise_count existed."""

    def __init__(self):
        super().__init__()
        self.__dict__["bitwise_count"] = None


def fallback_stubs():
    return {"numpy": _OldNumpy()}


def stubs_for(kernel):
    return {"numba": numba_stubs, "fallback": fallback_stubs, "numpy": None}[kernel]


@contextlib.contextmanager
def _hide_bitwise_count(symbolic):
    if symbolic:
        yield
        return
    saved = np.bitwise_count
    del np.bitwise_count
    try:
        yield
    finally:
        np.bitwise_count = saved


def env_for(kernel):
    return _hide_bitwise_count if kernel == "fallback" else None
