from common import *

R = Registry("C09")

SYMP = ("canonical", "reflection", "diag", "corthogonal", "general", "scaled",
        "dense", "unitary", "real_nonorth", "bump", "swap", "signs", "realdiag",
        "realmix", "orthogonal", "shear", "triangular")


@st.composite
def symp_case(draw):
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 9)))
    c = {"n": n, "kind": draw(pick(SYMP)), "seed": draw(seeds),
         "lay": draw(layouts)}
    if c["kind"] == "scaled":
        c["f"] = draw(pick((1.02, .98, 1.0001, .9999, 1.001,
                            1.00003, .99998)))
    if c["kind"] == "bump":
        c["i"], c["j"] = draw(st.integers(0, 2 * n - 1)), draw(
            st.integers(0, 2 * n - 1))
        c["eps"] = draw(pick((5e-5, -5e-5, 1e-4, -2e-4, .001, .01, .1, .5, -.5, 1)))
        c["im"] = draw(st.booleans())
        c["base"] = draw(pick(("canonical", "diag", "corthogonal", "swap",
                               "realdiag", "realmix", "triangular")))
    return c


def symp_of(c, kind=None):
    n, kind = c["n"], kind or c["kind"]
    rng = np.random.default_rng(c["seed"])
    Om, S = ref.omega(n), ref.swap(n)
    if kind in ("canonical", "scaled"):
        U = Om.conj().T @ ortho(rng, 2 * n, 1) @ Om
        return U * (c["f"] if kind == "scaled" else 1)
    if kind == "reflection":
        return Om.conj().T @ ortho(rng, 2 * n, -1) @ Om
    if kind == "diag":  # preserves S but is neither unitary nor canonical
        D = np.eye(n) + 0.3 * (rng.standard_normal((n, n))
                               + 1j * rng.standard_normal((n, n)))
        Z = np.zeros((n, n))
        return np.block([[D, Z], [Z, np.linalg.inv(D).T]])
    if kind in ("realdiag", "realmix", "shear", "triangular"):
        D = np.eye(n) + 0.3 * rng.standard_normal((n, n))
        Z, X = np.zeros((n, n)), rng.standard_normal((n, n))
        U = np.block([[D, Z], [Z, np.linalg.inv(D).T]])
        K = np.block([[np.eye(n), X - X.T], [Z, np.eye(n)]])
        if kind == "realdiag":
            return U
        if kind == "realmix":
            return K.T @ U @ symp_of(c, "swap") @ K
        if kind == "shear":  # symmetric, not skew: not symplectic
            return np.block([[np.eye(n), X + X.T], [Z, np.eye(n)]])
        return K @ U
    if kind == "orthogonal":
        return ortho(rng, 2 * n)
    if kind == "corthogonal":  # complex orthogonal in the Majorana basis
        K = skew(rng.standard_normal((2 * n, 2 * n))) * 0.3
        E = ref.expm_herm(1j * K, 1.0)  # exp(iK), iK Hermitian
        return Om.conj().T @ E @ Om
    if kind == "general":
        return symp_of(c, "canonical") @ symp_of(c, "diag")
    if kind == "real_nonorth":  # conjugation structure, not symplectic
        X = rng.standard_normal((2 * n, 2 * n))
        return Om.conj().T @ X @ Om
    if kind == "unitary":
        return unitary(rng, 2 * n)
    if kind == "dense":
        return (rng.standard_normal((2 * n, 2 * n))
                + 1j * rng.standard_normal((2 * n, 2 * n)))
    if kind == "swap":  # exchanges some creators with annihilators
        p = np.arange(2 * n)
        for k in range(n):
            if rng.random() < .5:
                p[k], p[n + k] = n + k, k
        return np.eye(2 * n)[p]
    if kind == "signs":
        return np.diag(rng.choice([1.0, -1.0, 1j, -1j], 2 * n))
    if kind == "bump":
        U = symp_of(c, c["base"])
        U = U.astype(complex) if c["im"] else U.copy()
        U[c["i"], c["j"]] += c["eps"] * (1j if c["im"] else 1)
        return U
    raise HarnessError(kind)


@R.law(symp_case(), 300, 8000, rule="two or more sites",
       nontrivial=lambda c: c["n"] > 1)
def symplectic_predicate(c, note):
    U = symp_of(c)
    S = ref.swap(c["n"])
    dev = maxabs(U @ S @ U.T - S)
    if 1e-9 < dev < 3e-5:
        note("too close to call")
        return
    want = dev <= 1e-9
    if c["seed"] % 2:
        U = dressed(U, "native")
    got = ff.is_symp(vary(U, c["lay"]))
    need(bool(got) == want, "is_symp says %s, |U S U^T - S| = %.3g", got, dev)
    note("%s: %s" % (c["kind"], want))


@st.composite
def canon_case(draw):
    rows = draw(st.one_of(st.integers(1, 8), st.integers(1, 20)))
    c = {"rows": rows, "cols": draw(pick((rows, rows, rows, rows, rows + 1,
                                          max(1, rows - 1), rows + 2))),
         "v": draw(ints(11)), "edits": draw(st.lists(st.tuples(
             st.integers(0, 19), st.integers(0, 19),
             pick((.25, -1, 3, 1e-3, -1e-4)), pick((
                 "one", "skew", "sym", "imag", "iskew", "flip", "copy",
                 "iflip"))), max_size=2)),
         "cplx": draw(st.booleans()), "int": draw(st.booleans()),
         "k": draw(pick((1, 1, 1, 10**4, 10**8)))}
    return c


@R.law(canon_case(), 400, 10000, rule="even square matrix with 4+ rows",
       nontrivial=lambda c: c["rows"] > 2 and c["rows"] == c["cols"])
def canonical_form_predicate(c, note):
    r, k = c["rows"], c["cols"]
    L = np.zeros((r, k), dtype=complex)
    for b in range(min(r, k) // 2):
        v = c["v"][b] / 2.0
        L[2 * b, 2 * b + 1], L[2 * b + 1, 2 * b] = v, -v
    for i, j, x, how in c["edits"]:
        i, j = i % r, j % k
        if how in ("flip", "copy", "iflip"):  # a whole block changes kind
            i -= i % 2
            if i + 1 < min(r, k):
                L[i, i + 1], L[i + 1, i] = {"flip": (3 * x, 3 * x), "copy": (
                    x, 0), "iflip": (3j * x, -3j * x)}[how]
            continue
        y = x * 1j if how in ("imag", "iskew") else x
        L[i, j] += y
        if how in ("skew", "iskew", "sym") and j < r and i < k and i != j:
            L[j, i] += y if how == "sym" else -y
    want = r == k and r % 2 == 0
    if want:
        for i in range(r):
            for j in range(r):
                if L[i, j].imag != 0 or L[i, j] != -L[j, i]:
                    want = False
                if L[i, j] != 0 and i // 2 != j // 2:
                    want = False
    if not c["cplx"] and maxabs(L.imag) == 0:
        L = L.real
        if c["int"] and maxabs(L - np.round(L)) == 0:
            L = L.astype(int)
    L = L * c["k"]
    got = ff.check_canonical_form(L)
    need(bool(got) == want, "check_canonical_form says %s", got)
    note("%s" % want)


@st.composite
def gate_case(draw):
    kind = draw(pick(("random", "tuned", "tuned", "gaussian", "odd", "library",
                      "product", "named", "size", "near")))
    c = {"kind": kind, "seed": draw(seeds)}
    if kind in ("random", "tuned", "near"):
        c["M"] = draw(structured((4, 4), scales=(1,)))
        c["sw"] = draw(st.booleans())
    if kind == "near":
        c["f"] = draw(pick((
            [1.00005, 0], [1.0001, 0], [1.001, 0], [.9999, 0], [1, 1e-4], [1.01, 0], [1.1, 0],
            [-1, 0], [0, 1], [.9, 0])))
    if kind == "named":
        c["k"] = draw(st.integers(0, 7))
    if kind == "size":
        c["sh"] = [draw(st.integers(1, 6)), draw(st.integers(1, 6))]
    return c


def det2(a, b, c, d):
    return a * d - b * c


I4 = np.eye(4)
NAMED = [I4, I4[[0, 2, 1, 3]], np.diag([1, 1, 1, -1]), I4[[0, 1, 3, 2]],
         I4[[0, 2, 1, 3]] @ np.diag([1, 1, 1, -1]), np.diag([1, -1, -1, 1]),
         I4[[3, 2, 1, 0]], np.diag([1, 1j, 1j, 1])]


@R.law(gate_case(), 400, 10000, rule="a 4x4 matrix",
       nontrivial=lambda c: c["kind"] != "size")
def matchgate_predicate(c, note):
    kind = c["kind"]
    rng = np.random.default_rng(c["seed"])
    if kind == "size":
        if c["sh"] == [4, 4]:
            return
        need(not ff.is_matchgate(np.eye(*c["sh"])), "not a 4x4 matrix")
        return
    if kind == "named":
        M = NAMED[c["k"]]
    elif kind == "gaussian":
        M = gaussian_unitary(rng, 2)[0]
    elif kind == "product":
        M = gaussian_unitary(rng, 2)[0] @ gaussian_unitary(rng, 2)[0]
        M = M * rng.uniform(.5, 2)
    elif kind == "odd":
        M = gaussian_unitary(rng, 2)[0] @ ref.majoranas(2)[c["seed"] % 4]
    elif kind == "library":
        M = ff.random_FF_rotation(2, seed=c["seed"])
    else:
        M = arr(c["M"]).astype(complex)
        if kind in ("tuned", "near"):
            din = det2(M[1, 1], M[1, 2], M[2, 1], M[2, 2])
            if abs(M[0, 0]) < .2:
                M[0, 0] = 1
            M[3, 3] = (din + M[0, 3] * M[3, 0]) / M[0, 0]
            if kind == "near":
                M[1] = M[1] * complex(*c["f"])
        if c["sw"]:
            M = M.T.copy()
    d1 = det2(M[1, 1], M[1, 2], M[2, 1], M[2, 2])
    d2 = det2(M[0, 0], M[0, 3], M[3, 0], M[3, 3])
    gap = abs(d1 - d2)
    if kind in ("gaussian", "product", "library"):
        need(gap < 1e-9, "a Gaussian two-site unitary is a matchgate")
    if 1e-9 < gap < 3e-5 * (1 + abs(d1)) or maxabs(M) > 50:
        note("too close to call")
        return
    want = gap <= 1e-9
    got = ff.is_matchgate(M)
    need(bool(got) == want, "is_matchgate says %s, gap %.3g", got, gap)
    aloud(got, ff.is_matchgate, M)
    note("%s: %s" % (kind, want))


@st.composite
def perm_case(draw):
    n = draw(st.one_of(st.integers(0, 7), st.integers(0, 30)))
    kind = draw(pick(("perm", "perm", "two", "edit", "edit", "free")))
    c = {"kind": kind, "as": draw(pick(("list", "tuple", "array")))}
    if kind == "free":
        c["p"] = draw(st.lists(st.integers(-3, 7), min_size=n, max_size=n))
    else:
        c["p"] = draw(st.permutations(list(range(n))))
    if kind == "two":
        c["q"] = draw(st.permutations(list(range(n))))
    if kind == "edit" and n:
        c["p"][draw(st.integers(0, n - 1))] = draw(st.integers(-n, n + 1))
    return c


@R.law(perm_case(), 300, 8000, rule="three or more entries",
       nontrivial=lambda c: len(c["p"]) > 2)
def permutation_matrix(c, note):
    p = c["p"]
    n = len(p)
    a = {"list": list, "tuple": tuple, "array": np.array}[c["as"]](p)
    if n == 0 and c["as"] == "array":
        a = []
    M = ff.permutation_to_matrix(a)
    if sorted(p) != list(range(n)):
        need(M is None, "%s is not a permutation", p)
        note("invalid")
        return
    note("valid")
    want = np.zeros((n, n))
    for i, k in enumerate(p):
        want[k, i] = 1
    close(M, want, "permutation matrix", 0)
    if c["kind"] == "two":
        q = c["q"]
        N = ff.permutation_to_matrix(q)
        close(M @ N, ff.permutation_to_matrix([p[k] for k in q]),
              "composition", 0)
