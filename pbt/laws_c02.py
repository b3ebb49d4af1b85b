import contextlib
import io

from common import *

R = Registry("C02")
LET = "IXYZ"


@R.law(st.integers(1, 5).flatmap(lambda n: fixed({
    "n": st.just(n), "k": st.integers(0, 4 ** n - 1)})), 60, 400,
    rule="two or more qubits", nontrivial=lambda c: c["n"] > 1)
def enumeration(c, note):
    n = c["n"]
    g = ff.generate_pauli_group(n)
    need(len(g) == 4 ** n, "%d operators for n=%d", len(g), n)
    ks = range(4 ** n) if n <= 3 else sorted(
        {c["k"], 0, 4 ** n - 1, *((c["k"] * 7919 + 31 * t) % 4 ** n
                                  for t in range(40))})
    for k in ks:
        close(g[k], ref.pauli_matrix(n, k), "operator %d of n=%d" % (k, n),
              1e-14)
    note("n=%d" % n)


@R.law(fixed({"k": st.integers(0, 4 ** 6 - 1)}), 1, 4, rule="all")
def six_qubits(c, note):
    g = ff.generate_pauli_group(6)
    need(len(g) == 4 ** 6, "%d operators", len(g))
    for t in range(60):
        k = (c["k"] + 7919 * t) % 4 ** 6
        close(g[k], ref.pauli_matrix(6, k), "operator %d" % k, 1e-14)


@R.law(st.integers(1, 3).flatmap(lambda n: fixed({
    "n": st.just(n), "M": structured((2 ** n, 2 ** n))})), 80, 1500,
    rule="non-zero operator", nontrivial=lambda c: nonzero(c["M"]))
def completeness(c, note):
    """M = sum_P Tr[P M] P / 2^n, and the Paulis are orthogonal"""
    n, M = c["n"], arr(c["M"])
    g = ff.generate_pauli_group(n)
    co = [np.trace(P @ M) for P in g]
    close(sum(x * P for x, P in zip(co, g)) / 2 ** n, M, "expansion", 1e-10)
    close(np.array(co), ref.pauli_expect(M), "coefficients", 1e-10)


@R.law(fixed({"n": st.integers(1, 5)}), 8, 12, rule="all")
def printed_names(c, note):
    n = c["n"]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g = ff.generate_pauli_group(n, verbose=True)
    names = out.getvalue().split()
    want = ["".join(LET[p] for p in s) for s in ref.pauli_strings(n)]
    need(names == want, "printed %s...", names[:6])
    for k in range(0, 4 ** n, 1 if n < 4 else 37):
        close(g[k], ref.pauli_matrix(n, k), "operator %d" % k, 1e-14)


@R.law(fixed({"x": st.just(0)}), 1, 1, rule="all")
def single_qubit(c, note):
    for got, want in zip(ff.pauli_matrices(), range(1, 4)):
        close(got, ref.pauli_matrix(1, want), "pauli", 1e-14)
    need(len(ff.pauli_matrices()) == 3, "three Pauli matrices")
