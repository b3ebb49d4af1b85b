from common import *

R = Registry("C25")
any_seed = st.one_of(st.integers(0, 50), st.integers(0, 2 ** 32 - 1))
# None: an unseeded call, after seeding the global generator
maybe_seed = st.one_of(any_seed, any_seed, st.none())


def sites(hi):
    return st.integers(1, hi)


def unit(x, n, what):
    x = np.asarray(x)
    need(x.shape == (2 ** n, 1), "%s: shape %s", what, x.shape)
    need(bool(np.all(np.isfinite(x))), "%s: not finite", what)
    need(abs(np.linalg.norm(x) - 1) < 1e-9, "%s: not normalised", what)
    return x[:, 0].astype(complex)


def dens(r, n, what):
    r = np.asarray(r)
    need(r.shape == (2 ** n, 2 ** n), "%s: shape %s", what, r.shape)
    need(bool(np.all(np.isfinite(r))), "%s: not finite", what)
    need(abs(np.trace(r) - 1) < 1e-9, "%s: trace %s", what, np.trace(r))
    close(r, r.conj().T, what + " Hermitian", 1e-9)
    need(np.linalg.eigvalsh(herm(r)).min() > -1e-9, "%s: negative", what)
    P = parity_signs(n)
    close(P[:, None] * r * P, r, what + " conserves parity", 1e-9)
    return herm(r.astype(complex))


def proj(v):
    return np.outer(v, v.conj())


def parity_of(v, what):
    p = np.sum(parity_signs(int(round(math.log2(len(v))))) * np.abs(v) ** 2)
    need(abs(abs(p) - 1) < 1e-9, "%s: no definite parity (%s)", what, p)
    return int(round(p))


def gaussian(r, what, tol=1e-8):
    d = ref.wick_defect(r)
    need(d < tol, "%s: Wick's theorem fails by %.3g", what, d)


@R.law(st.tuples(sites(4), any_seed), 150, 4000, rule="two or more sites",
       nontrivial=lambda c: c[0] > 1, shards=2)
def rotation(c, note):
    n, seed = c
    C = np.asarray(ff.random_FF_rotation(n, seed, returnOrb=True))
    need(C.shape == (2 * n, 2 * n), "shape of the orbital rotation")
    close(C @ C.conj().T, np.eye(2 * n), "orbital rotation unitary")
    T = ref.swap(n)
    close(T @ C.conj() @ T, C, "orbital rotation preserves the ladder algebra")
    Om = ref.omega(n)
    O = Om @ C @ Om.conj().T
    close(O.imag, np.zeros_like(O.real), "real on the Majorana modes")
    need(abs(np.linalg.det(O.real) - 1) < 1e-8, "not a special rotation")
    W = np.asarray(ff.random_FF_rotation(n, seed))
    need(W.shape == (2 ** n, 2 ** n), "shape of the rotation operator")
    close(W @ W.conj().T, np.eye(2 ** n), "rotation operator unitary")
    al = ref.ladder(n)
    for i in range(2 * n):
        close(W.conj().T @ al[i] @ W, sum(C[i, j] * al[j]
                                          for j in range(2 * n)),
              "rotation of ladder operator %d" % i, 1e-8)
    G = np.asarray(ff.random_FF_rotation(n, seed, returnH=True))
    need(G.shape == (2 ** n, 2 ** n), "shape of the generator")
    close(G, G.conj().T, "generator Hermitian", 1e-8)
    close(ref.expm_herm(G, -1j), W, "exp(-iH) is the rotation", 1e-8)
    # quadratic: its commutators with the ladder operators stay linear
    for a in al[:n]:
        K = G @ a - a @ G
        co = [np.trace(b.conj().T @ K) / 2 ** (n - 1) for b in al]
        close(sum(x * b for x, b in zip(co, al)), K, "generator quadratic",
              1e-8)
    need(abs(np.trace(G)) < 1e-8, "generator has a constant part")


@R.law(st.tuples(st.integers(5, 6), any_seed), 4, 60, rule="all", shards=2)
def many_sites(c, note):
    n, seed = c
    rotation(c, note)
    pure_families((n, seed, seed % (n + 1), True), note)
    pure_state(c, note)
    thermal_state((n, seed, bool(seed % 2), True), note)
    rotated_pdf(c, note)


@R.law(st.tuples(st.one_of(sites(5), sites(24)), maybe_seed, st.booleans()), 150, 4000,
       rule="two or more sites", nontrivial=lambda c: c[0] > 1)
def generator_form(c, note):
    n, seed, fixedN = c
    H = np.asarray(ff.random_H_generator(n, fixedN=fixedN, seed=seed))
    need(H.shape == (2 * n, 2 * n), "shape %s", H.shape)
    A, B = H[n:, n:], H[:n, n:]
    close(A, A.conj().T, "A Hermitian", 0)
    close(B, -B.T, "B skew", 0)
    close(H, ref.H_of(A, B), "block form", 0)
    if fixedN:
        need(not np.any(B), "pairing terms although N is fixed")
    elif n > 1:
        need(np.all(B[~np.eye(n, dtype=bool)] != 0), "no pairing terms")
    need(np.all(A != 0), "missing hopping terms")
    note("N fixed" if fixedN else "with pairing")


def gibbs_of(r, Hop, what):
    """r is exp(-beta Hop) normalised, for some beta > 0"""
    close(Hop, Hop.conj().T, what + ": generator Hermitian", 1e-8)
    E, U = np.linalg.eigh(herm(Hop))
    p = U.conj().T @ r @ U
    close(p, np.diag(np.diag(p)), what + ": commutes with its generator", 1e-9)
    p = np.diag(p).real
    d = E - E[0]
    k = int(np.argmax(d * (p > 1e-10)))
    need(d[-1] > 1e-9, "%s: zero generator", what)
    if d[k] < 1e-9:  # so cold that only the ground state is populated
        close(p, np.eye(len(p))[0], what + ": cold state of its generator",
              1e-8)
        return
    beta = -math.log(p[k] / p[0]) / d[k]
    need(beta > 0, "%s: inverse temperature %s", what, beta)
    w = np.exp(-beta * d)
    close(p, w / w.sum(), what + ": Gibbs state of its generator", 1e-8)


@R.law(st.tuples(sites(4), any_seed, st.booleans(), st.booleans()), 150, 4000,
       rule="two or more sites", nontrivial=lambda c: c[0] > 1, shards=2)
def thermal_state(c, note):
    n, seed, fixedN, kw = c
    r = ff.random_FF_state(n, fixedN=fixedN, seed=seed)
    r2, Hop = ff.random_FF_state(n, fixedN=fixedN, seed=seed, returnH=True)
    r = dens(r, n, "thermal state")
    close(r2, r, "asking for the generator changes the state", 1e-10)
    gibbs_of(r, np.asarray(Hop), "thermal state")
    if n <= 3:
        gaussian(r, "thermal state")
    if fixedN:
        N = np.diag([bin(b).count("1") for b in range(2 ** n)])
        close(N @ Hop, Hop @ N, "generator conserves N", 1e-9)
        close(N @ r, r @ N, "state conserves N", 1e-9)
    note("N fixed" if fixedN else "any N")


@R.law(st.tuples(sites(4), any_seed), 120, 3000, rule="two or more sites",
       nontrivial=lambda c: c[0] > 1)
def pure_state(c, note):
    n, seed = c
    v = unit(ff.random_FF_state(n, seed=seed, pure=True), n, "pure state")
    w, Hop = ff.random_FF_state(n, seed=seed, pure=True, returnH=True)
    close(unit(w, n, "pure state"), v, "asking for the generator changes the "
          "state", 1e-10)
    Hop = np.asarray(Hop)
    close(Hop, Hop.conj().T, "generator Hermitian", 1e-8)
    close(ref.expm_herm(Hop, -1j)[:, 0], v, "exp(-iH)|0>", 1e-8)
    need(parity_of(v, "pure state") == 1, "odd parity")
    if n <= 3:
        gaussian(proj(v), "pure state")
    need(abs(float(ff.FAF(v))) < 1e-7, "anti-flatness of a Gaussian state")


@R.law(st.tuples(st.integers(2, 3), any_seed), 30, 300,
       rule="always (two or more sites)", known=True)
def pure_fixed_number_generator(c, note):
    n, seed = c
    _, Hop = ff.random_FF_state(n, fixedN=True, seed=seed, pure=True,
                                returnH=True)
    N = np.diag([bin(b).count("1") for b in range(2 ** n)])
    close(N @ Hop, Hop @ N, "pure fixedN generator conserves N", 1e-8)


@R.law(st.tuples(sites(4), maybe_seed), 120, 3000, rule="two or more sites",
       nontrivial=lambda c: c[0] > 1, shards=2)
def thermal_randH(c, note):
    n, seed = c
    r = dens(ff.random_FF_state_randH(n, seed=seed), n, "randH state")
    if n <= 3:
        gaussian(r, "randH state")
    w = np.linalg.eigvalsh(r)
    need(w[-1] - w[0] > 1e-6, "the maximally mixed state")


@R.law(st.tuples(sites(4), any_seed), 150, 4000, rule="two or more sites",
       nontrivial=lambda c: c[0] > 1, shards=2)
def rotated_pdf(c, note):
    n, seed = c
    r0 = ff.random_FF_state_rotPDF(n, seed=seed)
    r, s = ff.random_FF_state_rotPDF(n, returnS=True, seed=seed)
    r = dens(r, n, "rotated pdf")
    close(r0, r, "asking for the pdf changes the state", 1e-10)
    s = np.asarray(s, dtype=float)
    need(s.shape == (2 ** n,), "pdf shape %s", s.shape)
    need(s.min() >= 0 and abs(s.sum() - 1) < 1e-9, "not a pdf")
    close(np.linalg.eigvalsh(r), np.sort(s), "spectrum is the pdf", 1e-9)
    # a free-fermion rotation of diag(s): the mode invariants agree
    G0 = ref.covariance(np.diag(s).astype(complex))
    G = ref.covariance(r)
    close(np.linalg.svd(G, compute_uv=False),
          np.linalg.svd(G0, compute_uv=False), "covariance spectrum", 1e-8)
    P = parity_signs(n)
    need(abs(np.sum(P * np.diag(r).real) - np.sum(P * s)) < 1e-9,
         "weight of the parity sectors")


@R.law(st.tuples(sites(4), maybe_seed, st.integers(0, 4), st.booleans()),
       200, 5000, rule="two or more sites", nontrivial=lambda c: c[0] > 1,
       shards=2)
def pure_families(c, note):
    n, seed, N, given = c
    N = N % (n + 1)
    v = unit(ff.random_FF_pure_state_W0(n, seed=seed), n, "W0")
    need(parity_of(v, "W0") == 1, "W0: odd parity")
    w = unit(ff.random_FF_pure_state_WN(n, N, seed=seed) if given else
             ff.random_FF_pure_state_WN(n, N=N, seed=seed), n, "WN")
    need(parity_of(w, "WN") == (-1) ** N, "WN: parity of %d particles", N)
    u = unit(ff.random_FF_pure_state_WN(n, seed=seed), n, "WN")
    x = unit(ff.random_FF_pure_state_CN(n, seed=seed), n, "CN")
    for y, name in ((v, "W0"), (w, "WN"), (u, "WN random"), (x, "CN")):
        parity_of(y, name)
        if n <= 3:
            gaussian(proj(y), name)
        else:
            G = ref.covariance(proj(y))
            close(G @ G.T, np.eye(2 * n), name + " Gaussian", 1e-8)
        need(abs(float(ff.FAF(y))) < 1e-7, "%s: anti-flatness", name)


# ----- distributions -------------------------------------------------------
# each case fixes the global seed (and whether the draws are seeded one by one)

def draws(c, f, k):
    np.random.seed(c["seed"])
    if c["each"]:
        s0 = c["seed"]
        return [f((s0 + i) % 2 ** 32) for i in range(k)]
    return [f(None) for _ in range(k)]


dist_case = fixed({"n": st.integers(1, 3), "seed": any_seed,
                   "each": st.booleans()})


@R.law(dist_case, 8, 60, rule="two or more sites",
       nontrivial=lambda c: c["n"] > 1, shards=4)
def rotation_uniform(c, note):
    n = c["n"]
    d = 2 * n
    Om = ref.omega(n)
    K = 2500
    C = np.array(draws(c, lambda s: ff.random_FF_rotation(
        n, seed=s, returnOrb=True), K))
    O = (Om @ C @ Om.conj().T).real
    ref.moment(O, 0, "mode rotation")
    ref.moment(O ** 2, 1 / d, "squared entries")
    ref.moment(O ** 4, 3 / (d * (d + 2)), "fourth powers")
    if d > 2:
        x = O[:, :, None, :, None] * O[:, None, :, None, :]
        for i in range(d):
            for j in range(d):
                x[:, i, i, j, j] -= 1 / d
        ref.moment(x, 0, "products of entries")
        t = np.trace(O, axis1=1, axis2=2)
        ref.moment(t ** 2, 1, "squared trace")
    note("seeded one by one" if c["each"] else "unseeded")


@R.law(st.tuples(dist_case, st.booleans()), 8, 50, rule="two or more sites",
       nontrivial=lambda c: c[0]["n"] > 1, shards=4)
def generator_moments(c, note):
    c, fixedN = c
    n = c["n"]
    H = np.array(draws(c, lambda s: ff.random_H_generator(n, fixedN, seed=s),
                       3000))
    A, B = H[:, n:, n:], H[:, :n, n:]
    ref.moment(H, 0, "generator entries")
    iu = np.triu_indices(n, 1)
    parts = [A[:, iu[0], iu[1]].real, A[:, iu[0], iu[1]].imag,
             B[:, iu[0], iu[1]].real, B[:, iu[0], iu[1]].imag]
    if fixedN:  # no pairing part
        parts = parts[:2]
    x = np.concatenate([np.diagonal(A, axis1=1, axis2=2).real / math.sqrt(2)]
                       + parts, axis=1)
    # isotropic Gaussian: all these independent coordinates are alike
    v = np.mean(x ** 2)
    ref.moment(x ** 2 / v, 1, "variance of the entries", 7)
    ref.moment(x ** 4 / v ** 2, 3, "kurtosis of the entries", 8)
    c2 = np.einsum("ka,kb->kab", x, x)
    m = x.shape[1]
    c2[:, range(m), range(m)] = 0
    ref.moment(c2, 0, "correlation of the entries")


@R.law(fixed({"n": st.integers(1, 3), "seed": any_seed, "each": st.booleans(),
              "f": pick(("W0", "pure", "WN", "WN*", "CN", "rotPDF")),
              "N": st.integers(0, 3)}), 24, 160, rule="two or more sites",
       nontrivial=lambda c: c["n"] > 1, shards=8)
def state_uniform(c, note):
    n, f = c["n"], c["f"]
    d, K = 2 ** n, 400 if f != "WN*" else 1000
    N = c["N"] % (n + 1)
    P = parity_signs(n)
    if f == "rotPDF":
        r = np.array(draws(c, lambda s: ff.random_FF_state_rotPDF(n, seed=s),
                           K))
        ref.moment(r, np.eye(d) / d, "average rotated state")
        return note(f)
    fn = {"W0": lambda s: ff.random_FF_pure_state_W0(n, seed=s),
          "pure": lambda s: ff.random_FF_state(n, seed=s, pure=True),
          "WN": lambda s: ff.random_FF_pure_state_WN(n, N, seed=s),
          "WN*": lambda s: ff.random_FF_pure_state_WN(n, seed=s),
          "CN": lambda s: ff.random_FF_pure_state_CN(n, seed=s)}[f]
    v = np.array(draws(c, fn, K)).reshape(K, d).astype(complex)
    p = np.sum(P * np.abs(v) ** 2, axis=1)
    r = np.einsum("ki,kj->kij", v, v.conj())
    if f in ("CN", "WN*"):  # the number of particles is drawn from 0..n
        even = sum(1 for k in range(n + 1) if k % 2 == 0) / (n + 1)
        ref.moment((p > 0).astype(float), even, "fraction of even states")
    if n > 1:  # rotations mix each parity sector uniformly
        for s in (1, -1):
            sel = r[np.sign(p) == s]
            if len(sel) > 60:
                ref.moment(sel, np.diag((P == s) / (d / 2)),
                           "average state of parity %d" % s)
        # The mode rotation is a Haar one, so the covariance is isotropic
        G = np.array([ref.covariance(x) for x in r[:250]])
        want = (1 - np.eye(2 * n)) / (2 * n - 1)
        ref.moment(G, 0, "average covariance")
        ref.moment(G ** 2, want, "average squared covariance")
    note(f)


# ----- many sites: the draws spread over all the modes ---------------------

@R.law(st.tuples(st.integers(4, 9), any_seed, st.booleans()), 6, 40,
       rule="all", shards=3)
def rotation_spread(c, note):
    n, seed, each = c
    d = 2 * n
    Om = ref.omega(n)
    C = np.array(draws({"seed": seed, "each": each}, lambda s:
                       ff.random_FF_rotation(n, seed=s, returnOrb=True),
                       400))
    O = (Om @ C @ Om.conj().T).real
    ref.moment(O, 0, "mode rotation", 7)
    ref.moment(O ** 2, 1 / d, "squared entries", 7)
    ref.moment(np.mean(O ** 4, axis=(1, 2)), 3 / (d * (d + 2)),
               "fourth powers")
    ref.moment(np.trace(O, axis1=1, axis2=2) ** 2, 1, "squared trace", 7)
    # correlation of neighbouring rows: E x_i^2 y_j^2 over a Haar rotation
    x = np.mean(O[:, 0] ** 2 * O[:, 1] ** 2, axis=1)
    ref.moment(x, 1 / (d * (d + 2)), "products of squares in two rows", 7)


@R.law(fixed({"n": st.integers(4, 5), "seed": any_seed, "each": st.booleans(),
              "f": pick(("W0", "pure", "WN", "CN")), "N": st.integers(0, 5)}),
       8, 60, rule="all", shards=4)
def state_spread(c, note):
    n, f = c["n"], c["f"]
    N = c["N"] % (n + 1)
    fn = {"W0": lambda s: ff.random_FF_pure_state_W0(n, seed=s),
          "pure": lambda s: ff.random_FF_state(n, seed=s, pure=True),
          "WN": lambda s: ff.random_FF_pure_state_WN(n, N, seed=s),
          "CN": lambda s: ff.random_FF_pure_state_CN(n, seed=s)}[f]
    v = np.array(draws(c, fn, 120)).reshape(120, -1).astype(complex)
    G = np.array([ref.covariance(proj(x)) for x in v])
    ref.moment(G, 0, "average covariance", 7)
    ref.moment(G ** 2, (1 - np.eye(2 * n)) / (2 * n - 1),
               "average squared covariance", 7)
    note(f)


@R.law(fixed({"n": st.integers(2, 5), "seed": any_seed, "each": st.booleans(),
              "f": pick(("thermal", "thermal N", "randH", "rotPDF"))}), 8, 60,
       rule="all", shards=4)
def mixed_spread(c, note):
    """no two modes are told apart by the laws of the rotations and of the
    generators, no two sites when the number of particles is conserved"""
    n, f = c["n"], c["f"]
    fn = {"thermal": lambda s: ff.random_FF_state(n, seed=s),
          "thermal N": lambda s: ff.random_FF_state(n, fixedN=True, seed=s),
          "randH": lambda s: ff.random_FF_state_randH(n, seed=s),
          "rotPDF": lambda s: ff.random_FF_state_rotPDF(n, seed=s)}[f]
    r = np.array(draws(c, fn, 200 if n > 3 else 600))
    G = np.array([ref.covariance(x) for x in r])
    ref.moment(G, 0, "average covariance", 7)
    # G = [[xx, xp], [px, pp]]: compare like entries with each other
    s = np.arange(2 * n) % n
    k = np.arange(2 * n) // n
    same_site = s[:, None] == s[None, :]
    diff = k[:, None] != k[None, :]
    if f != "thermal N":  # isotropic over all Majorana modes
        groups = [~np.eye(2 * n, dtype=bool)]
    else:
        groups = [same_site & diff, ~same_site & diff, ~same_site & ~diff]
    for g in groups:
        x = G[:, g] ** 2
        if x.shape[1] > 1:
            y = x - x.mean(axis=1, keepdims=True)
            ref.moment(y, 0, "squared covariance of like pairs of modes", 7)
            need(np.all(x.mean(axis=0) > 0) or not np.any(x),
                 "some pairs of modes are never correlated")
    note(f)
