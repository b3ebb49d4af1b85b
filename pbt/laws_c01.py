from common import *

R = Registry("C01")


@R.law(fixed({"n": st.integers(1, 7), "k": st.integers(0, 13)}), 30, 60,
       rule="n >= 3 sites (the sign string spans a site in between)",
       nontrivial=lambda c: c["n"] >= 3)
def ladder_operators(c, note):
    """every ladder operator is the reference matrix, in the stated order"""
    n = c["n"]
    lo = ff.jordan_wigner_lowering(n)
    al = ff.jordan_wigner_alphas(n)
    need(len(lo) == n and len(al) == 2 * n, "wrong number of operators")
    want = ref.lowering(n)
    for i in range(n):
        close(lo[i], want[i], "lowering %d of %d" % (i, n), 1e-12)
        close(al[n + i], want[i], "alphas[%d], n=%d" % (n + i, n), 1e-12)
        close(al[i], want[i].conj().T, "alphas[%d], n=%d" % (i, n), 1e-12)
    note("n=%d" % n)


@R.law(fixed({"n": st.integers(1, 7)}), 20, 40,
       rule="n >= 2", nontrivial=lambda c: c["n"] >= 2)
def majorana_operators(c, note):
    n = c["n"]
    g = ff.jordan_wigner_majoranas(n)
    need(len(g) == 2 * n, "wrong number of Majoranas")
    want = ref.majoranas(n)
    for i in range(2 * n):
        close(g[i], want[i], "majorana %d of %d" % (i, 2 * n), 1e-12)
    if n <= 5:
        Om = ff.build_Omega(n)
        al = ff.jordan_wigner_alphas(n)
        for i in range(2 * n):
            close(sum(Om[i, j] * al[j] for j in range(2 * n)), g[i],
                  "majorana %d is not the basis change of the ladder" % i,
                  1e-12)


@R.law(st.integers(1, 7).flatmap(lambda n: fixed({
    "n": st.just(n), "i": st.integers(0, 2 * n - 1),
    "j": st.integers(0, 2 * n - 1)})), 150, 1000,
    rule="two different operators on two or more sites",
    nontrivial=lambda c: c["n"] > 1 and c["i"] != c["j"])
def anticommutators(c, note):
    n, i, j = c["n"], c["i"], c["j"]
    al = ff.jordan_wigner_alphas(n)
    g = ff.jordan_wigner_majoranas(n)
    I = np.eye(2 ** n)
    s = 1.0 if abs(i - j) == n else 0.0
    close(al[i] @ al[j] + al[j] @ al[i], s * I, "{alpha_%d, alpha_%d}" % (i, j),
          1e-12)
    close(al[i] @ al[j].conj().T + al[j].conj().T @ al[i],
          (1.0 if i == j else 0.0) * I, "{alpha_%d, alpha_%d^dag}" % (i, j),
          1e-12)
    close(g[i] @ g[j] + g[j] @ g[i], (1.0 if i == j else 0.0) * I,
          "{gamma_%d, gamma_%d}" % (i, j), 1e-12)
    close(g[i], g[i].conj().T, "gamma not Hermitian", 1e-12)


@R.law(fixed({"n": st.integers(8, 9), "k": seeds}), 4, 8, rule="all")
def many_sites(c, note):
    n, k = c["n"], c["k"]
    lo, g = ff.jordan_wigner_lowering(n), ff.jordan_wigner_majoranas(n)
    al = ff.jordan_wigner_alphas(n)
    need(len(lo) == n and len(al) == len(g) == 2 * n, "number of operators")
    for i in {0, n - 1, k % n, (k // 7) % n}:
        a = ref.one_lowering(n, i)
        close(lo[i], a, "lowering %d of %d" % (i, n), 1e-12)
        close(al[n + i], a, "alphas[%d], n=%d" % (n + i, n), 1e-12)
        close(al[i], a.T, "alphas[%d], n=%d" % (i, n), 1e-12)
        close(g[i], (a + a.T) / math.sqrt(2), "majorana %d of %d" % (i, n),
              1e-12)
        close(g[n + i], 1j * (a.T - a) / math.sqrt(2), "majorana %d of %d" % (
            n + i, n), 1e-12)


@R.law(st.one_of(*[st.integers(1, 4)] * 5, st.integers(5, 6)).flatmap(
    lambda n: fixed({
    "n": st.just(n), "fam": pick(["ladder", "majorana"]),
    "as": pick(("same", "native", "F", "strided")),
    "C": structured((2 * n, 2 * n)), "rot": st.booleans(),
    "sc": pick((1, 1, 1, .1, 1e-2, 1e-3, 100))})), 120, 2000,
    rule="a non-zero linear recombination on two or more sites",
    nontrivial=lambda c: c["n"] > 1 and c["rot"] and nonzero(c["C"]))
def algebra_matrix(c, note):
    n = c["n"]
    ops = ref.ladder(n) if c["fam"] == "ladder" else ref.majoranas(n)
    S = ref.swap(n) if c["fam"] == "ladder" else np.eye(2 * n)
    if c["rot"]:
        C = arr(c["C"]) * c["sc"]
        ops = [sum(C[i, j] * ops[j] for j in range(2 * n))
               for i in range(2 * n)]
        S = C @ S @ C.T
    ops = [dressed(o, c["as"]) for o in ops]
    got = ff.compute_algebra_S(ops)
    if c["n"] < 3:
        aloud(got, ff.compute_algebra_S, ops)
    # anticommutators below 1e-8 count as zero
    close(got, S, "anticommutator matrix", 2e-8, rel=1e-9)
