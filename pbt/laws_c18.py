from common import *
from forms import any_state, dm, given, is_nontrivial

R = Registry("C18")


@R.law(any_state(1, 4), 400, 10000, rule="two or more qubits, not a basis state",
       nontrivial=is_nontrivial)
def valid_states(c, note):
    x, want = given(c), dm(c)
    keep = np.array(x, copy=True)
    got = ff.cast_to_density_matrix(x)
    close(got, want, "density matrix (%s)" % c["form"], 1e-12)
    if np.ndim(x) == 2 and min(np.shape(x)) > 1:
        need(np.array_equal(got, np.asarray(x)), "not returned unchanged")
    p = ff.cast_to_pdf(x)
    close(p, np.diag(want).real, "distribution (%s)" % c["form"], 1e-12)
    need(not np.iscomplexobj(p) and np.all(p >= 0), "not real, >= 0")
    need(np.array_equal(keep, x), "input modified")
    note(c["kind"] + "/" + c["form"])


@R.law(st.one_of(any_state(5, 7, styles=("gauss",)), any_state(
    5, 7, kinds=("few",))), 24, 400, rule="all")
def larger_states(c, note):
    valid_states(c, note)


@st.composite
def odd_dims(draw):
    d = draw(st.one_of(st.integers(1, 9), st.integers(1, 9),
                       st.integers(10, 40)))
    kind = draw(pick(("psi", "rho", "pdf")))
    return {"d": d, "kind": kind, "X": draw(array((d, d if kind == "rho" else 1),
                            **({} if d < 10 else {"styles": ("gauss",)}))),
            "pdf": draw(pdf((d,))), "sh": draw(pick(("flat", "col", "row")))}


@R.law(odd_dims(), 200, 5000, rule="dimension above one",
       nontrivial=lambda c: c["d"] > 1)
def any_dimension(c, note):
    X = arr(c["X"]).astype(complex)
    if np.linalg.norm(X) < 1e-6:
        X[0, 0] = 1
    reshape = {"flat": lambda v: v.reshape(-1), "col": lambda v: v.reshape(-1, 1),
               "row": lambda v: v.reshape(1, -1)}[c["sh"]]
    if c["kind"] == "rho":
        x = want = X @ X.conj().T / np.trace(X @ X.conj().T).real
        x = want = herm(x)
    elif c["kind"] == "psi":
        v = X[:, 0] / np.linalg.norm(X[:, 0])
        x, want = reshape(v), np.outer(v, v.conj())
    else:
        p = pdf_of(c["pdf"])
        x, want = reshape(p), np.diag(p)
    close(ff.cast_to_density_matrix(x), want.astype(complex), c["kind"], 1e-12)
    close(ff.cast_to_pdf(x), np.diag(want).real, c["kind"] + " pdf", 1e-12)


BAD = ("scaled_psi", "scaled_pdf", "signed_pdf", "phase_pdf", "rect", "trace",
       "skewherm", "asym", "negative", "zero", "zerovec")


@st.composite
def invalid(draw):
    d = draw(st.integers(2, 8))
    return {"d": d, "kind": draw(pick(BAD)), "X": draw(array((d, d))),
            "pdf": draw(pdf((d,))), "f": draw(pick((.5, .9, .98, 1.02, 1.1, 2,
                                                    -1, 0, .999, 1.001,
                                                    1.0002, .9998,
                                                    1.00004, .99996))),
            "e": draw(pick((4e-5, 2e-4, 1e-3, .02, .1, .5, 1.5))), "i": draw(st.integers(0, 7)),
            "j": draw(st.integers(0, 7)), "list": draw(st.booleans()),
            "w": draw(st.integers(2, 7))}


@R.law(invalid(), 400, 10000, rule="every case is an invalid input",
       nontrivial=lambda c: True)
def invalid_inputs(c, note):
    d, kind, e = c["d"], c["kind"], c["e"]
    X = arr(c["X"]).astype(complex)
    X = X @ X.conj().T + 0.1 * np.eye(d)
    rho = X / np.trace(X).real
    p = pdf_of(c["pdf"])
    i, j = c["i"] % d, c["j"] % d
    if kind == "scaled_psi":
        x = np.linalg.eigh(rho)[1][:, -1] * abs(c["f"] if c["f"] != -1 else 3)
        if abs(np.abs(x).sum() - 1) < 1e-2:
            return
    elif kind == "scaled_pdf":
        x = p * c["f"]
        if abs(np.linalg.norm(x) - 1) < 1e-2 or c["f"] == -1:
            return
    elif kind in ("signed_pdf", "phase_pdf"):
        k = int(np.argmax(p))
        if p[k] > .99:
            p = np.ones(d) / d
            k = 0
        x = p.astype(complex)
        x[k] *= -1 if kind == "signed_pdf" else np.exp(1j * e)
    elif kind == "rect":
        w = c["w"] if c["w"] != d else c["w"] + 1
        x = np.resize(rho, (d, w))
    elif kind == "trace":
        if abs(c["f"] - 1) < 1e-9:
            return
        x = rho * c["f"]
    elif kind == "skewherm":
        x = rho.copy()
        x[i, i] += 1j * e
        x[j, j] -= 1j * e * (i != j)
    elif kind == "asym":
        if i == j:
            return
        x = rho.copy()
        x[i, j] += e
    elif kind == "negative":
        w, U = np.linalg.eigh(rho)
        w[0] = -e
        w[-1] += 1 - w.sum()
        x = herm((U * w) @ U.conj().T)
    elif kind == "zero":
        x = np.zeros((d, d))
    else:
        x = np.zeros(d)
    for f in (ff.cast_to_density_matrix, ff.cast_to_pdf):
        try:
            f(x.tolist() if c["list"] else x)
        except (ValueError, AssertionError):
            continue
        raise Violation("%s accepted a %s input" % (f.__name__, kind))
    note(kind)


@R.law(any_state(1, 5, kinds=("pure", "pdf", "few"),
                 styles=("gauss",)), 100, 2000, rule="two or more qubits",
       nontrivial=lambda c: c["n"] > 1)
def single_precision(c, note):
    x = np.asarray(given(c))
    if min(x.shape) > 1 and x.ndim > 1:
        return  # rounding a matrix makes it indefinite
    x = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    if "pdf" in c and np.linalg.norm(x) > .999:
        return
    close(ff.cast_to_density_matrix(x), dm(c), "density matrix", 1e-6)
    close(ff.cast_to_pdf(x), np.diag(dm(c)).real, "distribution", 1e-6)
    note(c["kind"] + "/" + c["form"])
