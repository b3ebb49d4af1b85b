from common import *

R = Registry("C07")
KINDS = AB_KINDS + ("twin",)


def check_pair(H, L, U, tag=""):
    N = len(H)
    n = N // 2
    s = 1 + maxabs(H)
    L, U = np.asarray(L), np.asarray(U)
    need(L.shape == (N, N) and U.shape == (N, N), "%sshapes %s %s", tag,
         L.shape, U.shape)
    close(U @ U.conj().T, np.eye(N), tag + "U unitary", 1e-8)
    close(U[n:, n:], U[:n, :n].conj(), tag + "block s", 1e-8)
    close(U[n:, :n], U[:n, n:].conj(), tag + "block t", 1e-8)
    S = ref.swap(n)
    close(U @ S @ U.T, S, tag + "U preserves the algebra", 1e-8)
    need(maxabs(L - U.conj().T @ H @ U) < 1e-8 * s, tag + "L is not U^dag H U")
    d = np.diag(L)
    need(maxabs(L - np.diag(d)) < 1e-7 * s, tag + "L is not diagonal: %.3g",
         maxabs(L - np.diag(d)))
    need(maxabs(d.imag) < 1e-7 * s, tag + "L is not real")
    need(maxabs(d[:n] + d[n:]) < 1e-7 * s, tag + "L is not diag(-S, S)")
    u = np.diag(U)
    need(maxabs((u - np.abs(u))[np.abs(u) > 1e-7]) < 1e-8,
         tag + "the diagonal of U is not real and positive")
    w = np.sort(np.linalg.eigvalsh(H))
    need(maxabs(np.sort(d.real) - w) < 1e-7 * s, tag + "wrong spectrum")


@R.law(quad(1, 6), 300, 6000, rule="non-zero Hamiltonian on 2+ sites",
       nontrivial=quad_nontrivial)
def diagonalises(c, note):
    H = ref.H_of(*AB(c))
    if c["n"] % 2 and c["kind"] in ("realfull", "A", "B", "block"):
        H = np.round(H * 4)  # whole numbers
    L, U = ff.eigh_sp(dressed(H, ("same", "native", "native strided",
                                  "readonly")[c["n"] % 4]))
    check_pair(H, L, U)
    close(U @ L @ U.conj().T, H, "reconstruction", 1e-7)
    note(c["kind"])


@R.law(fixed({"n": st.integers(1, 7), "e": ints(7), "seed": seeds,
              "cplx": st.booleans(), "lay": layouts}), 200, 4000,
       rule="three or more modes with a repeated or zero energy",
       nontrivial=lambda c: c["n"] >= 3 and (
           len(set(map(abs, c["e"][:c["n"]]))) < c["n"] or
           0 in c["e"][:c["n"]]))
def prescribed_spectrum(c, note):
    """Hamiltonians with chosen (repeated, zero) energies in a random basis"""
    n = c["n"]
    e = np.array(c["e"][:n]) / 2.0
    Om = ref.omega(n)
    rng = np.random.default_rng(c["seed"])
    W = Om.conj().T @ ortho(rng, 2 * n) @ Om
    if not c["cplx"]:
        V = ortho(rng, n)
        W = np.block([[V, 0 * V], [0 * V, V]])
    H = W @ np.diag(np.concatenate([-e, e])) @ W.conj().T
    H = herm(H)
    S = ref.swap(n)
    H = (H - S @ H.T @ S) / 2
    L, U = ff.eigh_sp(vary(H, c["lay"]))
    check_pair(H, L, U)


def prescribed(n, e, seed, cplx):
    Om = ref.omega(n)
    rng = np.random.default_rng(seed)
    W = Om.conj().T @ ortho(rng, 2 * n) @ Om
    if not cplx:
        V = ortho(rng, n)
        W = np.block([[V, 0 * V], [0 * V, V]])
    H = herm(W @ np.diag(np.concatenate([-e, e])) @ W.conj().T)
    S = ref.swap(n)
    return (H - S @ H.T @ S) / 2


@R.law(energies(8), 150, 4000, rule="three or more modes",
       nontrivial=lambda c: c["n"] >= 3)
def any_magnitude(c, note):
    """tiny and huge Hamiltonians, nearly degenerate and nearly zero modes"""
    e, f = energies_of(c)
    H = prescribed(c["n"], e, c["seed"], c["cplx"])
    L, U = ff.eigh_sp(H * f)
    check_pair(H, np.asarray(L) / f, U)
    close(U @ (np.asarray(L) / f) @ U.conj().T, H, "reconstruction", 1e-7)
    note("%s 1e%d" % (c["kind"], c["k"]))


@R.law(fixed({"n": st.integers(9, 24), "kind": pick(("gauss", "chain", "degen",
                                                     "zero modes")),
              "seed": seeds}), 12, 300, rule="all")
def many_modes(c, note):
    n, rng = c["n"], np.random.default_rng(c["seed"])
    if c["kind"] == "chain":
        H = ff.kitaev_chain(n, *rng.standard_normal(3))
    else:
        e = rng.standard_normal(n)
        if c["kind"] == "degen":
            e = np.round(e)
        elif c["kind"] == "zero modes":
            e[rng.random(n) < .4] = 0
        H = prescribed(n, e, c["seed"], c["seed"] % 2)
    L, U = ff.eigh_sp(H)
    check_pair(H, L, U)
    note(c["kind"])


@R.law(fixed({"n": st.integers(2, 8), "p": ints(3), "d": pick([1, 2, 3])}),
       60, 800, rule="not all parameters zero",
       nontrivial=lambda c: any(c["p"]))
def chains(c, note):
    mu, t, d = (x / c["d"] for x in c["p"])
    H = ff.kitaev_chain(c["n"], mu, t, d)
    L, U = ff.eigh_sp(H)
    check_pair(H, L, U)


@R.law(fixed({"q": quad(2, 3), "bad": pick(["A", "B", "sign", "conj"]),
              "i": st.integers(0, 2), "j": st.integers(0, 2),
              "eps": pick([1, 1, .1, .01, 1e-3, 3e-4]),
              "k": st.one_of(st.just(0), st.integers(-9, 9))}), 60, 1200,
       rule="all", )
def malformed_refused(c, note):
    n = c["q"]["n"]
    H = ref.H_of(*AB(c["q"])).copy()
    i, j = c["i"] % n, c["j"] % n
    e = c["eps"] * max(1, maxabs(H))
    if c["bad"] == "A":
        H[i, j] += 1.5 * e
    elif c["bad"] == "B":
        H[i, n + j] += 1.5 * e
    elif c["bad"] == "sign":
        H[n:, n:] += e * np.eye(n)
    else:
        H[n + i, j] += 2j * e
    try:
        out = ff.eigh_sp(H * 10.0 ** c["k"])
    except Exception:
        note("refused " + c["bad"])
        return
    raise Violation("a matrix without the block form was decomposed: %r"
                    % (out,))
