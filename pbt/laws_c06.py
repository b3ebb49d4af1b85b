from common import *

R = Registry("C06")


@st.composite
def rot(draw, m_min=1, m_max=6, d_max=4, **kw):
    m = draw(st.integers(m_min, m_max))
    d = draw(st.integers(1, d_max))
    return {"m": m, "d": d, "C": draw(structured((m, m), **kw)),
            "D": draw(structured((m, m), **kw)),
            "ops": draw(structured((m, d, d), **kw)), "left": draw(st.booleans()),
            "swap": draw(st.booleans()), "lay": draw(layouts)}


def mats(x):
    return [x[i] for i in range(len(x))]


@R.law(rot(), 220, 4000, rule="two or more operators, non-zero matrix",
       nontrivial=lambda c: c["m"] > 1 and nonzero(c["C"]) and
       nonzero(c["ops"]))
def definition(c, note):
    C, ops = vary(arr(c["C"]), c["lay"]), mats(arr(c["ops"]))
    M = C.conj().T if c["left"] else C
    want = [sum(M[j, i] * ops[i] for i in range(c["m"])) for j in range(c["m"])]
    args = (ops, C) if c["swap"] else (C, ops)
    got = (ff.rotate_operators(*args, Left=True) if c["left"]
           else ff.rotate_operators(*args))
    need(len(got) == c["m"], "%d operators returned", len(got))
    for j in range(c["m"]):
        close(got[j], want[j], "operator %d" % j, 1e-7)
    if c["m"] < 4:
        aloud(got, ff.rotate_operators, *args, Left=c["left"])
    note("left=%s swapped=%s" % (c["left"], c["swap"]))


@R.law(st.integers(1, 6).flatmap(lambda m: fixed({
    "m": st.just(m), "C": wide((m, m), lo=-9), "ops": structured((m, 2, 2)),
    "k": pick((0, 0, 0, -8, -5, 6)), "kc": pick((0, 0, 0, 6)),
    "left": st.booleans()})), 80, 1500,
    rule="two or more operators, entries of very different size",
    nontrivial=lambda c: c["m"] > 1 and c["C"]["hi"] - c["C"]["lo"] > 3)
def entries_of_any_size(c, note):
    """small entries count next to large ones"""
    C, ops = arr(c["C"]), mats(arr(c["ops"]) * 10.0 ** c["k"])
    C = C * 10.0 ** c["kc"]
    M = C.conj().T if c["left"] else C
    got = ff.rotate_operators(C, ops, Left=c["left"])
    if c["m"] < 4:
        aloud(got, ff.rotate_operators, C, ops, Left=c["left"])
    for j in range(c["m"]):
        near(got[j], sum(M[j, i] * ops[i] for i in range(c["m"])),
             # coefficients below 1e-9 are left out
             sum((1e-13 + 1.1 * (abs(M[j, i]) < 1.01e-9)) * abs(M[j, i] * ops[i])
                 for i in range(c["m"])) + 1e-12 * 10.0 ** min(0, c["k"]),
             "operator %d" % j)


@R.law(st.integers(1, 6).flatmap(lambda m: fixed({
    "m": st.just(m), "E": structured((m, m)), "ops": structured((m, 2, 2)),
    "k": st.floats(2, 8.5), "base": pick(("one", "one", "perm", "phase", "zero")),
    "diag": st.booleans(), "seed": seeds, "left": st.booleans()})), 60, 1200,
    rule="two or more operators", nontrivial=lambda c: c["m"] > 1)
def near_special_matrices(c, note):
    """close to the identity, a permutation, a phase or zero is not equal"""
    m, rng = c["m"], np.random.default_rng(c["seed"])
    B = {"one": np.eye(m), "perm": np.eye(m)[rng.permutation(m)],
         "phase": np.diag(np.exp(2j * np.pi * rng.random(m))),
         "zero": np.zeros((m, m))}[c["base"]]
    E = arr(c["E"])
    C = B + 10.0 ** -c["k"] * (np.diag(np.diag(E)) if c["diag"] else E)
    ops = mats(arr(c["ops"]))
    M = C.conj().T if c["left"] else C
    got = ff.rotate_operators(C, ops, Left=c["left"])
    for j in range(m):
        near(got[j], sum(M[j, i] * ops[i] for i in range(m)),
             sum((1e-13 + 1.1 * (abs(M[j, i]) < 1.01e-9)) * abs(M[j, i] * ops[i])
                 for i in range(m)) + 1e-14, "operator %d" % j)
    note(c["base"])


@R.law(rot(), 100, 2000, rule="two or more operators",
       nontrivial=lambda c: c["m"] > 1)
def composition(c, note):
    C, D, ops = arr(c["C"]), arr(c["D"]), mats(arr(c["ops"]))
    step = ff.rotate_operators(D, ff.rotate_operators(C, ops))
    both = ff.rotate_operators(D @ C, ops)
    for j in range(c["m"]):
        close(step[j], both[j], "composition, operator %d" % j, 1e-6)
    same = ff.rotate_operators(np.eye(c["m"]), ops)
    for j in range(c["m"]):
        close(same[j], ops[j], "identity rotation", 1e-9)


@R.law(rot(7, 20, 8, styles=("gauss",)), 10, 200, rule="all")
def many_operators(c, note):
    definition(c, note)
    composition(c, note)


@R.law(fixed({"m": st.integers(1, 5), "C": seeds,
              "dt": pick(["int64", "float64", "int32", "complex128"]),
              "cdt": pick(["complex", "float", "int", "complex64",
                           "float32"])}), 60, 800,
       rule="two or more operators", nontrivial=lambda c: c["m"] > 1)
def operator_types(c, note):
    m = c["m"]
    rng = np.random.default_rng(c["C"])
    C = rng.integers(-3, 4, (m, m)).astype(
        {"complex": complex, "complex64": np.complex64, "float": float,
         "float32": np.float32}.get(c["cdt"], int))
    if c["cdt"] in ("complex", "complex64"):
        C = C + 1j * rng.integers(-3, 4, (m, m))
    if c["cdt"] == "float":
        C = C + 0.25
    ops = [rng.integers(-3, 4, (2, 2)).astype(c["dt"]) for _ in range(m)]
    got = ff.rotate_operators(C, ops)
    for j in range(m):
        close(got[j], sum(C[j, i] * ops[i].astype(complex) for i in range(m)),
              "typed operator %d" % j, 1e-9)


@R.law(fixed({"s": state(1, 3), "C": seeds, "sym": st.booleans()}), 100, 1500,
       rule="two or more sites", nontrivial=lambda c: c["s"]["n"] > 1)
def covariance_of_correlations(c, note):
    n = c["s"]["n"]
    rho = rho_of(c["s"])
    rng = np.random.default_rng(c["C"])
    Om = ref.omega(n)
    if c["sym"]:
        C = Om.conj().T @ ortho(rng, 2 * n) @ Om
    else:
        C = rng.standard_normal((2 * n, 2 * n)) + 1j * rng.standard_normal(
            (2 * n, 2 * n))
    al = ff.jordan_wigner_alphas(n)
    b = ff.rotate_operators(C, al)
    G = ff.compute_2corr_matrix(rho, n, al)
    P = ff.compute_2corr_matrix(rho, n, al, conjugation=True)
    close(ff.compute_2corr_matrix(rho, n, b), C @ G @ C.T, "C G C^T", 1e-8)
    close(ff.compute_2corr_matrix(rho, n, b, conjugation=True),
          C @ P @ C.conj().T, "C P C^dag", 1e-8)
    S = ref.swap(n)
    close(ff.compute_algebra_S(b), C @ S @ C.T, "algebra", 1e-7)
    if c["sym"]:
        close(ff.compute_algebra_S(b), S, "algebra preserved", 1e-8)
        for i in range(n):
            close(b[i], b[n + i].conj().T, "adjoint pairs", 1e-9)
