"""The accepted ways of giving a state."""
import numpy as np
from hypothesis import strategies as st

from gen import (DRESS, dressed, pdf, pdf_of, pick, psi_of, rho_of, state,
                 unitary, vary)

FORMS = ("rho", "rho", "list", "lay", "evolved")
PSI_FORMS = ("flat", "flat", "column", "row", "list", "rho")
PDF_FORMS = ("vec", "vec", "list", "column", "diag")


@st.composite
def any_state(draw, n_min=1, n_max=3, kinds=("mixed", "pure", "rank2", "diag",
                                             "basis", "maxmix", "product",
                                             "pdf", "nearmix", "nearpure"), **kw):
    n = draw(st.integers(n_min, n_max))
    kind = draw(pick(kinds))
    if kind == "few":  # some basis states only
        return {"n": n, "kind": kind, "s": draw(st.integers(0, 1000)),
                "as": draw(pick(DRESS)),
                "m": draw(st.integers(1, min(4, 2 ** n))),
                "form": draw(pick(("flat", "column", "rho", "lay", "list")))}
    if kind == "pdf":
        return {"pdf": draw(pdf((2 ** n,))), "n": n, "as": draw(pick(DRESS)),
                "form": draw(pick(PDF_FORMS)), "kind": kind}
    c = draw(state(n, n, (kind,), **kw))
    c["form"] = draw(pick(PSI_FORMS if kind == "pure" else FORMS))
    c["s"] = draw(st.integers(0, 1000))
    c["as"] = draw(pick(DRESS))
    c["ph"] = draw(pick((0, 0, 1, 2, 3, 4)))
    return c


def close_to(draw, a, b):
    """the spec of a state next to a (both specs of the same size)"""
    if "pdf" in a or "pdf" in b or "few" in (a["kind"], b["kind"]):
        return None
    return {"n": a["n"], "kind": "close", "a": a, "b": b, "form": "rho",
            "s": 0, "eps": draw(st.integers(1, 9))}


def few(c):
    v = np.zeros(2 ** c["n"], dtype=complex)
    rng = np.random.default_rng([c["s"], c["m"]])
    for k in rng.choice(len(v), c["m"], replace=False):
        v[k] = np.exp(.25j * np.pi * rng.integers(8))
    return v / np.linalg.norm(v)


def dm(c):
    """the density matrix meant"""
    if c["kind"] == "few":
        v = few(c)
        return np.outer(v, v.conj())
    return np.diag(pdf_of(c["pdf"])).astype(complex) if "pdf" in c else rho_of(c)


def given(c):
    """what is handed to the library"""
    x, how = given_plain(c), c.get("as", "same")
    return x if how == "same" else dressed(x, how)


def given_plain(c):
    f = c["form"]
    if "pdf" in c:
        p = pdf_of(c["pdf"])
        return {"vec": p, "list": p.tolist(), "column": p.reshape(-1, 1),
                "diag": np.diag(p)}[f]
    if c["kind"] == "pure" and f != "rho":
        k = c.get("ph", 0)  # a global phase
        v = psi_of(c) * [1, -1, 1j, -1j, np.exp(1j * (1 + c["s"]))][k]
        return {"flat": v, "list": v.tolist(), "column": v.reshape(-1, 1),
                "row": v.reshape(1, -1)}[f]
    if c["kind"] == "few" and f in ("flat", "column"):
        v = few(c)
        return v if f == "flat" else v.reshape(-1, 1)
    r = dm(c)
    if f == "list":
        return r.tolist()
    if f == "lay":
        return vary(r, 1 + c["s"] % 3)
    if f == "evolved":  # there and back: equal up to rounding errors
        U = unitary(np.random.default_rng(c["s"]), len(r))
        return U.conj().T @ (U @ r @ U.conj().T) @ U
    return r


def is_nontrivial(c):
    return c["n"] > 1 and c["kind"] not in ("basis", "maxmix")
