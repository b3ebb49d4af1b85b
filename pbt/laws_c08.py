from common import *

R = Registry("C08")


def degenerate(n, e, seed, cplx):
    Om = ref.omega(n)
    rng = np.random.default_rng(seed)
    W = Om.conj().T @ ortho(rng, 2 * n) @ Om
    if not cplx:
        V = ortho(rng, n)
        W = np.block([[V, 0 * V], [0 * V, V]])
    H = herm(W @ np.diag(np.concatenate([-e, e])) @ W.conj().T)
    S = ref.swap(n)
    return (H - S @ H.T @ S) / 2


def ham(c):
    """(H with entries of order one, factor)"""
    if "q" in c:
        return ref.H_of(*AB(c["q"])), 1.0
    if "kind" in c:
        e, f = energies_of(c)
        return degenerate(c["n"], e, c["seed"], c["cplx"]), f
    e = np.array(c["e"][:c["n"]]) / 2.0
    return degenerate(c["n"], e, c["seed"], c["cplx"]), 1.0


ANY = st.one_of(
    fixed({"q": quad(1, 5)}),
    fixed({"n": st.integers(1, 6), "e": ints(6), "seed": seeds,
           "cplx": st.booleans()}),
    energies(6), energies(15, 7))


def lay(c):
    k = c.get("seed", 0) if "q" not in c else c["q"]["n"]
    return ("same", "F", "readonly", "strided", "native")[k % 5]


def nt(c):
    return quad_nontrivial(c["q"]) if "q" in c else (
        c["n"] > 1 and any(c.get("e", [1])[:c["n"]]))


@R.law(ANY, 250, 5000, rule="non-zero Hamiltonian on 2+ sites", nontrivial=nt)
def v_form(c, note):
    H, f = ham(c)
    n = len(H) // 2
    S = ref.swap(n)
    V = S @ H
    Y, U = (np.asarray(x) for x in ff.eigv_sp(dressed(V * f, lay(c))))
    Y = Y / f
    s = 1 + maxabs(H)
    close(U @ U.conj().T, np.eye(2 * n), "U unitary", 1e-8)
    close(U[n:, n:], U[:n, :n].conj(), "block s", 1e-8)
    close(U[n:, :n], U[:n, n:].conj(), "block t", 1e-8)
    close(U @ S @ U.T, S, "algebra", 1e-8)
    need(maxabs(U.T @ V @ U - Y) < 1e-7 * s, "U^T V U is not the result")
    off = Y[:n, n:]
    need(maxabs(Y[:n, :n]) < 1e-7 * s and maxabs(Y[n:, n:]) < 1e-7 * s,
         "diagonal blocks do not vanish")
    need(maxabs(off - np.diag(np.diag(off))) < 1e-7 * s, "block not diagonal")
    need(maxabs(off + Y[n:, :n]) < 1e-7 * s, "blocks are not S and -S")
    need(maxabs(off.imag) < 1e-7 * s, "not real")
    e = np.sort(np.abs(np.diag(off)))
    w = np.sort(np.abs(np.linalg.eigvalsh(H)))[::2]
    need(maxabs(e - w) < 1e-7 * s, "wrong energies")


def majorana(c):
    H, f = ham(c)
    Om = ref.omega(len(H) // 2)
    G = Om @ H @ Om.conj().T
    G = 1j * skew(G.imag)
    return H, G, f


def check_real_orthogonal(O, G, L, s):
    N = len(G)
    need(O.shape == (N, N) and L.shape == (N, N), "shapes")
    need(maxabs(np.imag(O)) < 1e-8, "O is not real")
    close(O.T @ O, np.eye(N), "O orthogonal", 1e-8)
    need(maxabs(O.T @ G @ O - L) < 1e-7 * s, "O^T G O is not the result")
    need(maxabs(L.real) < 1e-7 * s, "result is not imaginary")
    need(maxabs(L + L.T) < 1e-7 * s, "result is not skew")


@R.law(ANY, 250, 5000, rule="non-zero Hamiltonian on 2+ sites", nontrivial=nt)
def majorana_y_form(c, note):
    H, G, f = majorana(c)
    n = len(H) // 2
    L, O = (np.asarray(x) for x in ff.eigm_sp(dressed(G * f, lay(c))))
    L = L / f
    s = 1 + maxabs(H)
    check_real_orthogonal(O, G, L, s)
    off = L[:n, n:]
    need(maxabs(L[:n, :n]) < 1e-7 * s and maxabs(L[n:, n:]) < 1e-7 * s,
         "diagonal blocks do not vanish")
    need(maxabs(off - np.diag(np.diag(off))) < 1e-7 * s, "block not diagonal")
    e = np.sort(np.abs(np.diag(off)))
    w = np.sort(np.abs(np.linalg.eigvalsh(H)))[::2]
    need(maxabs(e - w) < 1e-7 * s, "wrong energies")


@R.law(ANY, 250, 5000, rule="non-zero Hamiltonian on 2+ sites", nontrivial=nt)
def majorana_canonical_form(c, note):
    H, G, f = majorana(c)
    n = len(H) // 2
    L, O = (np.asarray(x) for x in ff.eigm_sp_can(dressed(G * f, lay(c))))
    L = L / f
    s = 1 + maxabs(H)
    check_real_orthogonal(O, G, L, s)
    M = L.copy()
    e = []
    for k in range(n):
        e.append(abs(L[2 * k, 2 * k + 1]))
        M[2 * k:2 * k + 2, 2 * k:2 * k + 2] = 0
    need(maxabs(M) < 1e-7 * s, "entries outside the 2x2 blocks: %.3g",
         maxabs(M))
    w = np.sort(np.abs(np.linalg.eigvalsh(H)))[::2]
    need(maxabs(np.sort(e) - w) < 1e-7 * s, "wrong energies")
