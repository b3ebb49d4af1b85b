from common import *

R = Registry("C17")
BLOCK, DIAG = ff.partial_trace_over_2, ff.partial_trace_over_1


def pt2(X, d1, d2):
    return np.einsum("ajbj->ab", X.reshape(d1, d2, d1, d2))


def pt1(X, d1, d2):
    return np.einsum("iaib->ab", X.reshape(d1, d2, d1, d2))


@st.composite
def matrix_case(draw):
    d1, d2 = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    D = d1 * d2
    return {"d1": d1, "d2": d2, "X": draw(structured((D, D))),
            "kind": draw(pick(("any", "any", "herm", "real", "int", "state",
                                   "bool", "int8", "float32", "complex64",
                                   "matrix"))),
            "lay": draw(layouts)}


def mat_of(c):
    X = arr(c["X"])
    if c["kind"] == "herm":
        X = herm(X)
    elif c["kind"] == "real":
        X = X.real
    elif c["kind"] == "int":
        X = np.round(X.real * 4).astype(int)
    elif c["kind"] == "state":
        X = X @ X.conj().T
    elif c["kind"] == "bool":
        X = X.real > 0
    elif c["kind"] == "int8":
        X = np.round(X.real * 3).clip(-9, 9).astype(np.int8)
    elif c["kind"] in ("float32", "complex64"):
        X = (X if c["kind"] == "complex64" else X.real).astype(c["kind"])
    elif c["kind"] == "matrix":
        return np.matrix(X)
    return vary(X, c["lay"])


@R.law(matrix_case(), 400, 10000, rule="both factors larger than one",
       nontrivial=lambda c: c["d1"] > 1 and c["d2"] > 1 and nonzero(c["X"]))
def reductions(c, note):
    d1, d2, X = c["d1"], c["d2"], mat_of(c)
    A, B = np.asarray(BLOCK(X, d1)), np.asarray(DIAG(X, d2))
    X = np.asarray(X)
    X = X.astype(complex if np.iscomplexobj(X) else float)
    e = 1e-5 if c["kind"] in ("float32", "complex64") else 1e-9
    # imaginary parts are left out where all of them are below 1e-8
    close(A, pt2(X, d1, d2), "trace over the second factor", max(e, 1.1e-8),
          rel=1e-12)
    close(B, pt1(X, d1, d2), "trace over the first factor", e)
    close(np.trace(A), np.trace(X), "trace of A", max(10 * e, 1e-7))
    close(np.trace(B), np.trace(X), "trace of B", 10 * e)
    note("%s" % ("square" if d1 == d2 else "rectangular"))


@R.law(st.tuples(st.integers(1, 16), st.integers(1, 16)).flatmap(
    lambda d: fixed({"d1": st.just(d[0]), "d2": st.just(d[1]), "lay": layouts,
                     "X": structured((d[0] * d[1],) * 2, styles=("gauss",)),
                     "kind": pick(("any", "herm", "real", "int"))})), 20, 400,
    rule="all")
def larger_dimensions(c, note):
    reductions(c, note)


@R.law(fixed({"d": st.integers(1, 3), "m": st.integers(17, 500),
              "swap": st.booleans(), "seed": seeds, "r": st.booleans()}), 6, 80,
       rule="all")
def one_small_factor(c, note):
    d1, d2 = (c["m"], c["d"]) if c["swap"] else (c["d"], c["m"])
    d1, d2 = (min(d1, 60), d2) if c["swap"] else (d1, d2)
    rng = np.random.default_rng(c["seed"])
    X = rng.standard_normal((d1 * d2,) * 2)
    if not c["r"]:
        X = X + 1j * rng.standard_normal(X.shape)
    close(BLOCK(X, d1), pt2(X, d1, d2), "trace over the second factor", 1e-7)
    close(DIAG(X, d2), pt1(X, d1, d2), "trace over the first factor", 1e-9)
    if not c["swap"]:
        close(DIAG(X, d1), pt1(X, d2, d1), "trace over the first factor", 1e-9)
    note("first factor small" if d1 < d2 else "second factor small")


@R.law(st.tuples(st.integers(1, 5), st.integers(1, 5)).flatmap(
    lambda d: fixed({"d1": st.just(d[0]), "d2": st.just(d[1]),
                     "X": wide((d[0] * d[1],) * 2, lo=-12, hi=6),
                     "im": pick((1, 1, 1e-4, 1e-6))})), 120, 2500,
    rule="both factors larger than one, entries of very different size",
    nontrivial=lambda c: min(c["d1"], c["d2"]) > 1
    and c["X"]["hi"] - c["X"]["lo"] > 3)
def entries_of_any_size(c, note):
    d1, d2, X = c["d1"], c["d2"], arr(c["X"])
    X = X.real + 1j * c["im"] * X.imag
    S = np.abs(X)
    a, b = pt2(X, d1, d2), pt1(X, d1, d2)
    A = BLOCK(X, d1)
    near(A.real, a.real, 1e-13 * pt2(S, d1, d2) + 1e-300, "real parts")
    near(A.imag, a.imag, 1e-13 * pt2(S, d1, d2) + 1.1e-8, "imaginary parts")
    near(DIAG(X, d2), b, 1e-13 * pt1(S, d1, d2) + 1e-300, "first factor")


@R.law(fixed({"X": structured((2, 2)), "Y": structured((3, 3)), "Z": structured((2, 2)),
              "sw": st.booleans()}), 150, 4000, rule="non-zero factors",
       nontrivial=lambda c: nonzero(c["X"]) and nonzero(c["Y"]))
def products(c, note):
    A, B, C = arr(c["X"]), arr(c["Y"]), arr(c["Z"])
    if c["sw"]:
        A, B = B, A
    a, b = len(A), len(B)
    X = np.kron(A, B)
    close(BLOCK(X, a), A * np.trace(B), "A Tr B", 1e-7)
    close(DIAG(X, b), B * np.trace(A), "B Tr A", 1e-8)
    T = np.kron(X, C)
    close(BLOCK(BLOCK(T, a * b), a), BLOCK(T, a), "in two steps", 1e-7)
    close(DIAG(DIAG(T, 2 * b), 2), DIAG(T, 2), "in two steps", 1e-7)
    close(DIAG(BLOCK(T, a * b), b), BLOCK(DIAG(T, 2 * b), b), "commute", 1e-7)


@R.law(fixed({"D": st.integers(2, 60), "d": st.integers(2, 70), "seed": seeds}),
       150, 3000, rule="non-dividing dimension",
       nontrivial=lambda c: c["D"] % c["d"] != 0)
def dividing(c, note):
    D, d = c["D"], c["d"]
    X = np.random.default_rng(c["seed"]).standard_normal((D, D))
    for f in (BLOCK, DIAG):
        try:
            Y = f(X, d)
        except Exception:
            need(D % d != 0, "a valid dimension was refused")
            note("refused")
            continue
        need(D % d == 0, "dimension %d accepted for size %d", d, D)
        need(Y.shape == (d, d), "shape")
