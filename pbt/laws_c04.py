from common import *

R = Registry("C04")


def limited(A, B, cap=6.0):
    """at most this norm; from 1000 on exactly this norm (low temperature)"""
    w = np.abs(np.linalg.eigvalsh(ref.H_of(A, B)))
    s = w.sum() / 2
    f = 1.0 if s == 0 else cap / s if cap >= 1000 else min(1.0, cap / s)
    return A * f, B * f


def spread(c):
    """a Hamiltonian with single-particle energies of any size"""
    n, rng = c["n"], np.random.default_rng(c["seed"])
    e = 10.0 ** rng.uniform(c["lo"], c["hi"], n) * rng.choice([-1, 1], n)
    Om = ref.omega(n)
    O = ortho(rng, 2 * n, 1) if c["rot"] else np.eye(2 * n)
    C = Om.conj().T @ O @ Om
    H = C @ np.diag(np.concatenate([-e, e])) @ C.conj().T
    return herm(H[n:, n:]), skew(H[:n, n:])


hamiltonian = st.one_of(
    fixed({"q": quad(1, 5), "cap": pick((6, 6, 6, 30, 150, 1000, 1e4, 1e6))}),
    fixed({"q": fixed({"n": st.integers(1, 4), "seed": seeds,
                       "lo": st.integers(-3, 0), "hi": pick((0, 1, 2)),
                       "rot": st.booleans(), "kind": st.just("spread")}),
           "cap": pick((400, 400, 1000, 1e5))}))


def of(c):
    q = c["q"]
    return limited(*(spread(q) if q["kind"] == "spread" else AB(q)), c["cap"])


def interesting(c):
    q = c["q"]
    return q["n"] > 1 if q["kind"] == "spread" else quad_nontrivial(q)


@R.law(fixed({"h": hamiltonian, "form": st.integers(0, 2), "lay": layouts,
              "nat": st.integers(0, 2)}),
       220, 4000, rule="non-zero Hamiltonian on two or more sites",
       nontrivial=lambda c: interesting(c["h"]))
def gibbs_state(c, note):
    n = c["h"]["q"]["n"]
    A, B = of(c["h"])
    H = ref.H_of(A, B)
    if c["nat"] == 2 and c["h"]["cap"] < 100:  # whole numbers
        H = np.round(H.real * 3)
        H = np.block([[H[:n, :n], H[:n, n:]], [-H[:n, n:], -H[:n, :n]]])
    op = ref.lift(H, ref.ladder(n))
    want = ref.gibbs(op)
    if c["nat"]:  # real or integer where all entries are
        H, op = dressed(H, "native"), dressed(op, "native")
    if c["form"] == 2 and n == 2:
        # both forms have the same size; an operator that itself has the
        # coefficient block structure cannot be told apart
        S = ref.swap(2)
        if maxabs(op + S @ op.T @ S) < 1e-3:
            note("ambiguous two-site operator")
            return
    if c["form"] == 0:
        got = ff.generate_gaussian_state(n, vary(H, c["lay"]))
    elif c["form"] == 1:
        got = ff.generate_gaussian_state(n, vary(H, c["lay"]),
                                         ff.jordan_wigner_alphas(n))
    else:
        got = ff.generate_gaussian_state(n, vary(op, c["lay"]))
    close(got, want, "state (form %d)" % c["form"],
          1e-9 + 1e-13 * c["h"]["cap"])
    close(np.trace(got), 1.0, "trace", 1e-10)
    close(got, got.conj().T, "Hermitian", 1e-10)
    w = np.linalg.eigvalsh((got + got.conj().T) / 2)
    need(w.min() > -1e-10, "negative eigenvalue %g", w.min())
    note("n=%d form=%d" % (n, c["form"]))


@R.law(fixed({"h": fixed({"q": fixed({"n": st.integers(5, 7), "seed": seeds,
                                      "lo": st.integers(-2, 0),
                                      "hi": pick((0, 1)), "rot": st.booleans(),
                                      "kind": st.just("spread")}),
                          "cap": pick((6, 100))}),
              "form": st.integers(0, 2), "lay": layouts,
              "nat": st.integers(0, 1)}), 8, 120, rule="all")
def many_sites(c, note):
    gibbs_state(c, note)
    if c["h"]["cap"] == 6:
        fermi_function(c["h"], note)


@R.law(fixed({"n": st.integers(1, 4), "M": seeds, "sc": pick([.1, .5, 1.0])}),
       60, 1200, rule="two or more sites", nontrivial=lambda c: c["n"] > 1)
def operator_and_coefficients_agree(c, note):
    """custom operator lists: Majoranas with a Majorana coefficient matrix,
    and ladder operators of rotated modes"""
    n = c["n"]
    rng = np.random.default_rng(c["M"])
    M = skew(rng.standard_normal((2 * n, 2 * n))) * c["sc"]
    h = 1j * M  # Hermitian, skew
    op = ref.lift(h, ref.majoranas(n), direct=True)
    got = ff.generate_gaussian_state(n, h, ref.majoranas(n))
    close(got, ref.gibbs(op), "Majorana form", 1e-9)
    O = ortho(rng, 2 * n)
    Om = ref.omega(n)
    C = Om.conj().T @ O @ Om
    al = ref.ladder(n)
    rot = [sum(C[i, j] * al[j] for j in range(2 * n)) for i in range(2 * n)]
    H = ref.H_of(herm(rng.standard_normal((n, n))) * c["sc"],
                 skew(rng.standard_normal((n, n))) * c["sc"])
    got = ff.generate_gaussian_state(n, H, rot)
    close(got, ref.gibbs(ref.lift(H, rot)), "rotated modes", 1e-8)


@R.law(hamiltonian, 160, 2500, rule="non-zero Hamiltonian on 2+ sites",
       nontrivial=interesting)
def fermi_function(c, note):
    n = c["q"]["n"]
    A, B = of(c)
    H = ff.build_H(n, A, B)
    rho = ff.generate_gaussian_state(n, H)
    w, U = np.linalg.eigh(H)
    P = (U * ((1 + np.tanh(w)) / 2)) @ U.conj().T
    S = ref.swap(n)
    tol = 1e-8 + 1e-13 * c["cap"]
    close(ff.compute_2corr_matrix(rho, n, conjugation=1), P,
          "<a a^dag> is the Fermi function", tol)
    close(ff.correlation_matrix(rho), P @ S, "<a a>", tol)
    close(ff.compute_cov_matrix(rho, n), P @ S - (P @ S).T, "covariance", tol)


@R.law(fixed({"q": quad(1, 4, scales=(1, .25)), "form": st.booleans(),
              "idx": st.lists(st.integers(0, 7), min_size=1, max_size=6)}),
       150, 3000, rule="four or more operators on two or more sites",
       nontrivial=lambda c: len(c["idx"]) >= 4 and quad_nontrivial(c["q"]))
def wick(c, note):
    n = c["q"]["n"]
    A, B = limited(*AB(c["q"]))
    idx = [i % (2 * n) for i in c["idx"]]
    rho = ff.generate_gaussian_state(n, ff.build_H(n, A, B))
    G = ff.correlation_matrix(rho)
    al = ref.ladder(n)
    prod = np.eye(2 ** n)
    for i in idx:
        prod = prod @ al[i]
    got = np.trace(rho @ prod)
    m = len(idx)
    M = [[G[idx[a], idx[b]] for b in range(m)] for a in range(m)]
    want = ref.pf(M) if m % 2 == 0 else 0
    close(got, want, "correlator of %s" % idx, 1e-8)
    note("length %d" % m)
