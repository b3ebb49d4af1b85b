"""What every law module needs."""
import contextlib
import io
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import ff
import ref
from core import HarnessError, Registry, Violation
from gen import *  # noqa: F401,F403
from ref import close, maxabs, near, need


def gaussian_unitary(rng, n, even=True):
    """(W, O): random W = exp(-i h) of a quadratic h, with its mode rotation"""
    M = rng.standard_normal((2 * n, 2 * n))
    M = (M - M.T) / 2
    g = ref.majoranas(n)
    # h = (i/2) sum_jk M_jk g_j g_k, [h, g_l] = -i (M g)_l for {g,g} = delta
    h = ref.lift(0.5j * M, g, direct=True)
    return ref.expm_herm(h, c=-1j), M


def circuit(n, gates):
    """Clifford circuit from [(kind, q, r)] as a matrix"""
    I2 = np.eye(2)
    Hd = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
    S = np.diag([1, 1j])
    U = np.eye(2 ** n, dtype=complex)
    for kind, q, r in gates:
        q, r = q % n, r % n
        if kind == 2 and n > 1:
            if q == r:
                r = (q + 1) % n
            G = np.zeros((2 ** n, 2 ** n))
            for b in range(2 ** n):
                t = b ^ (1 << (n - 1 - r)) if b >> (n - 1 - q) & 1 else b
                G[t, b] = 1
        else:
            one = Hd if kind == 0 else S
            G = np.ones((1, 1))
            for k in range(n):
                G = np.kron(G, one if k == q else I2)
        U = G @ U
    return U


gate_list = st.lists(st.tuples(st.integers(0, 2), st.integers(0, 4),
                               st.integers(0, 4)), max_size=14)


def aloud(got, f, *args, **kw):
    """asking for a report does not change the answer"""
    with contextlib.redirect_stdout(io.StringIO()):
        loud = f(*args, verbose=True, **kw)
    if got is None or isinstance(got, (bool, np.bool_)):
        need(loud is not None and bool(loud) == bool(got),
             "verbose=True answers %s, otherwise %s", loud, got)
        return
    need(type(loud) is type(got), "verbose=True gives another type")
    many = isinstance(got, (list, tuple))
    for a, b in zip(*(((got, loud) if many else ([got], [loud])))):
        near(b, a, 1e-13 * np.abs(a) + 1e-300, "verbose=True")
    need(not many or len(got) == len(loud), "verbose=True gives another length")
