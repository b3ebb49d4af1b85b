from common import *

R = Registry("C03")


def operators(c):
    n, fam = c["n"], c["fam"]
    if fam == "ladder":
        return ref.ladder(n)
    if fam == "majorana":
        return ref.majoranas(n)
    ops = arr(c["ops"])
    return [ops[i] for i in range(2 * n)]


@st.composite
def lifts(draw):
    n = draw(st.integers(1, 4))
    fam = draw(pick(["ladder", "ladder", "majorana", "any"]))
    c = {"n": n, "fam": fam, "R": draw(structured((2 * n, 2 * n))),
         "Q": draw(structured((2 * n, 2 * n))), "direct": draw(st.booleans()),
         "lay": draw(layouts), "s": draw(st.integers(-3, 3))}
    if fam == "any":
        d = draw(st.integers(1, 4))
        c["ops"] = draw(structured((2 * n, d, d)))
    return c


@R.law(lifts(), 150, 3000, rule="non-zero coefficients on two or more sites",
       nontrivial=lambda c: c["n"] > 1 and nonzero(c["R"]))
def lift_is_the_sum(c, note):
    n = c["n"]
    ops = operators(c)
    Rm = vary(arr(c["R"]), c["lay"])
    got = ff.build_op(n, Rm, ops, direct=c["direct"])
    want = ref.lift(Rm, ops, c["direct"])
    close(got, want, "lift (%s, direct=%s)" % (c["fam"], c["direct"]), 1e-8)
    if n < 3:
        aloud(got, ff.build_op, n, Rm, ops, direct=c["direct"])
    if not c["direct"]:
        close(ff.build_op(n, Rm, ops), want, "default lift", 1e-8)
    Q = arr(c["Q"])
    comb = ff.build_op(n, Rm + c["s"] * Q, ops, direct=c["direct"])
    close(comb, want + c["s"] * ff.build_op(n, Q, ops, direct=c["direct"]),
          "linearity", 1e-8)
    note(c["fam"])


@R.law(fixed({"n": st.integers(5, 7), "seed": seeds, "direct": st.booleans(),
              "fam": pick(["ladder", "majorana"]), "fill": pick([1, .2])}),
       8, 120, rule="all")
def lift_on_many_sites(c, note):
    n, rng = c["n"], np.random.default_rng(c["seed"])
    Rm = rng.standard_normal((2 * n, 2 * n)) + 1j * rng.standard_normal(
        (2 * n, 2 * n))
    Rm = Rm * (rng.random((2 * n, 2 * n)) < c["fill"])
    ops = operators(c)
    close(ff.build_op(n, Rm, ops, direct=c["direct"]),
          ref.lift(Rm, ops, c["direct"]), "lift", 1e-8)
    H, V = (f(n, herm(Rm[:n, :n]), skew(Rm[:n, n:])) for f in (
        ff.build_H, ff.build_V))
    al = ref.ladder(n)
    h = ff.build_op(n, H, al)
    close(h, h.conj().T, "Hermitian", 1e-9)
    close(h, ff.build_op(n, V, al, direct=True), "both forms", 1e-8)
    k = c["seed"] % (2 * n)
    close(h @ al[k] - al[k] @ h, -2 * sum(H[k, j] * al[j] for j in range(
        2 * n)), "[H, alpha_%d]" % k, 1e-8)


@R.law(st.integers(1, 4).flatmap(lambda n: fixed({
    "n": st.just(n), "R": wide((2 * n, 2 * n), lo=-9), "direct": st.booleans(),
    "fam": pick(["ladder", "ladder", "majorana"])})), 80, 1500,
    rule="two or more sites, entries of very different size",
    nontrivial=lambda c: c["n"] > 1 and c["R"]["hi"] - c["R"]["lo"] > 3)
def couplings_of_any_size(c, note):
    """weak couplings are kept next to strong ones"""
    ops, Rm = operators(c), arr(c["R"])
    size = ref.lift(np.abs(Rm), [np.abs(o) for o in ops], c["direct"])
    # couplings below 1e-10 are left out
    drop = ref.lift((np.abs(Rm) < 1e-10) * np.abs(Rm), [np.abs(o) for o in ops],
                    c["direct"])
    got = ff.build_op(c["n"], Rm, ops, direct=c["direct"])
    if c["n"] < 3:
        aloud(got, ff.build_op, c["n"], Rm, ops, direct=c["direct"])
    near(got, ref.lift(Rm, ops, c["direct"]),
         1e-13 * np.abs(size) + 1.1 * np.abs(drop) + 1e-12, "lift")
    note("%d decades" % (c["R"]["hi"] - c["R"]["lo"]))


@R.law(st.integers(1, 3).flatmap(lambda n: fixed({
    "n": st.just(n), "R": structured((2 * n, 2 * n)),
    "ops": array((2 * n, 2, 2), cplx=False, styles=("intgrid",)),
    "dt": pick(["int64", "float64", "int16", "complex64"])})), 40, 600,
    rule="non-zero coefficients", nontrivial=lambda c: nonzero(c["R"]))
def lift_of_typed_operators(c, note):
    """operators of real, integer or narrow type give the same operator"""
    ops = arr(c["ops"])
    ops = [ops[i] for i in range(2 * c["n"])]
    Rm = arr(c["R"])
    typed = [o.astype(c["dt"]) for o in ops]
    tol = 1e-4 if c["dt"] == "complex64" else 1e-8
    for direct in (False, True):
        close(ff.build_op(c["n"], Rm, typed, direct=direct),
              ref.lift(Rm, ops, direct), "typed lift", tol)


@R.law(fixed({"q": st.one_of(quad(1, 5), quad(6, 12)), "lay": pick(DRESS[3:]),
              "k": st.integers(-9, 9)}), 40, 800,
       rule="non-zero A or B on two or more sites",
       nontrivial=lambda c: quad_nontrivial(c["q"]))
def blocks_of_any_kind(c, note):
    """blocks of any size, dtype and layout"""
    n = c["q"]["n"]
    A, B = (x * 10.0 ** c["k"] for x in AB(c["q"]))
    how = c["lay"].replace(" list", "").replace("bare", "F")
    a, b = (dressed(x, how) for x in (A, B))
    close(ff.build_H(n, a, b), ref.H_of(A, B), "H blocks", 0, rel=1e-15)
    close(ff.build_V(n, a, b), ref.V_of(A, B), "V blocks", 0, rel=1e-15)
    close(ff.build_H(n, a), ref.H_of(A, 0 * A), "no pairing", 0, rel=1e-15)
    close(ff.build_V(n, a), ref.V_of(A, 0 * A), "no pairing", 0, rel=1e-15)


@R.law(fixed({"n": st.integers(13, 50), "seed": seeds}), 15, 300, rule="all")
def large_blocks(c, note):
    n, rng = c["n"], np.random.default_rng(c["seed"])
    A, B = rng.standard_normal((2, n, n)) + 1j * rng.standard_normal((2, n, n))
    A, B = A + A.conj().T, B - B.T
    for b in (B, 0 * B):
        args = (A, B) if b is B else (A,)
        close(ff.build_H(n, *args), ref.H_of(A, b), "H blocks", 0, rel=1e-15)
        close(ff.build_V(n, *args), ref.V_of(A, b), "V blocks", 0, rel=1e-15)


@R.law(quad(1, 5), 120, 2500, rule="non-zero A or B on two or more sites",
       nontrivial=quad_nontrivial)
def block_forms(c, note):
    n = c["n"]
    A, B = AB(c)
    H = ff.build_H(n, A, B)
    V = ff.build_V(n, B, A)  # same argument order, its own roles
    close(H, ref.H_of(A, B), "H blocks", 1e-13)
    close(V, np.block([[-A.conj(), B], [-B.conj(), A]]), "V blocks", 1e-13)
    close(ff.build_H(n, A), ref.H_of(A, 0 * A), "H without pairing", 1e-13)
    close(ff.build_V(n, A), ref.V_of(A, 0 * A), "V without pairing", 1e-13)
    Ai = np.round(A.real * 4).astype(int)
    Bi = np.round(B.real * 4).astype(int)
    close(ff.build_H(n, Ai, Bi), ref.H_of(Ai, Bi), "integer blocks", 1e-13)
    if n <= 4:
        al = ref.ladder(n)
        h1 = ff.build_op(n, H, al)
        h2 = ff.build_op(n, ff.build_V(n, A, B), al, direct=True)
        close(h1, h1.conj().T, "lift is Hermitian", 1e-9)
        close(h1, h2, "adjoint and direct forms agree", 1e-8)


@R.law(quad(1, 4), 100, 2000, rule="non-zero A or B on two or more sites",
       nontrivial=quad_nontrivial)
def heisenberg_linear(c, note):
    """[H, alpha_k] = -2 sum_j H_kj alpha_j, and signed-sum spectrum"""
    n = c["n"]
    A, B = AB(c)
    H = ff.build_H(n, A, B)
    al = ff.jordan_wigner_alphas(n)
    h = ff.build_op(n, H, al)
    for k in range(2 * n):
        want = -2 * sum(H[k, j] * al[j] for j in range(2 * n))
        close(h @ al[k] - al[k] @ h, want, "[H, alpha_%d]" % k, 1e-8)
    e = np.sort(np.linalg.eigvalsh(H))[n:]
    sums = [0.0]
    for x in e:
        sums = [s + x for s in sums] + [s - x for s in sums]
    close(np.sort(np.linalg.eigvalsh((h + h.conj().T) / 2)),
          np.sort(np.array(sums)), "many-body spectrum", 1e-8)


@R.law(fixed({"a": quad(2, 3, scales=(1,)), "seed": seeds}), 50, 1000,
       rule="non-zero first Hamiltonian",
       nontrivial=lambda c: quad_nontrivial(c["a"]))
def commutator_homomorphism(c, note):
    """[lift(H1), lift(H2)] = lift(2 [H1, H2])"""
    n = c["a"]["n"]
    rng = np.random.default_rng(c["seed"])
    A2 = herm(rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n)))
    B2 = skew(rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n)))
    H1 = ff.build_H(n, *AB(c["a"]))
    H2 = ff.build_H(n, A2, B2)
    al = ff.jordan_wigner_alphas(n)
    h1, h2 = ff.build_op(n, H1, al), ff.build_op(n, H2, al)
    h12 = ff.build_op(n, 2 * (H1 @ H2 - H2 @ H1), al)
    close(h1 @ h2 - h2 @ h1, h12, "commutator", 1e-8)


@R.law(fixed({"n": st.one_of(st.integers(1, 9), st.integers(1, 60)),
              "p": ints(3), "d": pick([1, 2, 7]),
              "int": st.integers(0, 7)}),
       80, 800, rule="three or more sites and not all parameters zero",
       nontrivial=lambda c: c["n"] >= 3 and any(c["p"]))
def kitaev(c, note):
    n = c["n"]
    mu, t, d = (x if c["int"] >> k & 1 else x / c["d"]
                for k, x in enumerate(c["p"]))
    A = np.zeros((n, n))
    B = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i == j:
                A[i, j] = -mu
            elif abs(i - j) == 1:
                A[i, j] = -t
                B[i, j] = d * (j - i)
    close(ff.kitaev_chain(n, mu, t, d), ref.H_of(A, B), "Kitaev chain", 1e-12)
