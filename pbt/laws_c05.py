from common import *

R = Registry("C05")
FLAGS = [None, 0, False, True, 1, 2, 0.5, -1, -3, -0.25, "default"]


@st.composite
def corr(draw, n_max=3, n_min=1, **kw):
    n = draw(st.integers(n_min, n_max))
    d = 2 ** n
    fam = draw(pick(["none", "ladder", "majorana", "rotated", "any"]))
    c = {"n": n, "fam": fam,
         "rho": draw(st.one_of(structured((d, d), scales=(1,), **kw), wide((d, d)))
                     if fam in ("none", "ladder", "majorana")
                     else structured((d, d), scales=(1,), **kw)),
         "flag": draw(pick(FLAGS)), "herm": draw(st.booleans()),
         "lay": draw(layouts), "native": draw(st.booleans()),
         "k": draw(pick((0, 0, 0, 0, -7, 7))), "omit": draw(st.booleans())}
    if fam == "rotated":
        c["C"] = draw(structured((2 * n, 2 * n), scales=(1,)))
    if fam == "any":
        c["ops"] = draw(structured((2 * n, d, d), scales=(1,), **kw))
    return c


def setup(c):
    n = c["n"]
    rho = arr(c["rho"]).astype(complex)
    if c["herm"]:
        rho = herm(rho)
    rho = rho * 10.0 ** c["k"]
    if c["native"]:  # real or integer where all entries are
        rho = dressed(rho, "native")
    ops = ref.ladder(n)
    if c["fam"] == "majorana":
        ops = ref.majoranas(n)
    elif c["fam"] == "rotated":
        C = arr(c["C"])
        ops = [sum(C[i, j] * ops[j] for j in range(2 * n))
               for i in range(2 * n)]
    elif c["fam"] == "any":
        x = arr(c["ops"])
        ops = [x[i] for i in range(2 * n)]
    return n, rho, ops


@R.law(corr(), 220, 4000, rule="non-zero rho on two or more sites",
       nontrivial=lambda c: c["n"] > 1 and nonzero(c["rho"]))
def correlations(c, note):
    n, rho, ops = setup(c)
    flag = c["flag"]
    left, right = ops, ops
    if flag not in (None, "default"):
        if flag > 0:
            right = [o.conj().T for o in ops]
        elif flag < 0:
            left = [o.conj().T for o in ops]
    want = np.array([[np.sum(rho * (left[i] @ right[j]).T)
                      for j in range(2 * n)] for i in range(2 * n)])
    args = () if c["fam"] == "none" else (ops,)
    kw = {} if flag == "default" else {"conjugation": flag}
    r = vary(rho, c["lay"])
    size = np.array([[np.sum(np.abs(rho) * np.abs(left[i] @ right[j]).T)
                      for j in range(2 * n)] for i in range(2 * n)])
    near(ff.compute_2corr_matrix(r, n, *args, **kw), want,
         1e-9 * 10.0 ** min(0, c["k"]) + 1e-12 * size, "correlation, flag %r" % (flag,))
    if c["fam"] == "none" and flag in (None, "default", 0):
        near(ff.correlation_matrix(r), want, 1e-9 * 10.0 ** min(0, c["k"]) + 1e-12 * size,
             "default correlation")
    note("flag %r" % (flag,))


@R.law(corr(), 160, 3000, rule="non-zero rho on two or more sites",
       nontrivial=lambda c: c["n"] > 1 and nonzero(c["rho"]))
def covariances(c, note):
    n, rho, ops = setup(c)
    G = np.array([[np.sum(rho * (ops[i] @ ops[j]).T)
                   for j in range(2 * n)] for i in range(2 * n)])
    r = vary(rho, c["lay"])
    kw = {} if c["fam"] == "none" else {"alphas": ops}
    if not c["omit"]:
        kw["n_sites"] = n
    K = ff.compute_cov_matrix(r, **kw)
    size = np.array([[np.sum(np.abs(rho) * np.abs(ops[i] @ ops[j]).T)
                      for j in range(2 * n)] for i in range(2 * n)])
    size = size + size.T
    near(K, G - G.T, 1e-9 * 10.0 ** min(0, c["k"]) + 1e-12 * size, "covariance (%s)" % sorted(kw))
    near(K, -K.T, 1e-9 * 10.0 ** min(0, c["k"]) + 1e-12 * size, "skew")
    if c["fam"] in ("none", "ladder"):
        close(G + G.T, np.trace(rho) * ref.swap(n), "oracle", 1e-9)
        G2 = ff.compute_2corr_matrix(r, n)
        close(G2 + G2.T, np.trace(rho) * ref.swap(n),
              "correlation + transpose", 1e-9)


@R.law(corr(6, 4, styles=("gauss",)), 8, 150, rule="all")
def many_sites(c, note):
    correlations(c, note)
    covariances(c, note)


@R.law(st.integers(1, 7).flatmap(lambda n: fixed({
    "n": st.just(n), "seed": seeds, "p": ints(2 ** n)})), 40, 500,
    rule="two or more sites", nontrivial=lambda c: c["n"] > 1)
def occupation_numbers(c, note):
    """diagonal states: <a_i^dag a_i> are the weighted bit counts"""
    n = c["n"]
    p = np.abs(np.array(c["p"], dtype=float)) + 1e-3
    p /= p.sum()
    occ = [sum(p[b] for b in range(2 ** n) if b >> (n - 1 - i) & 1)
           for i in range(n)]
    G = ff.correlation_matrix(np.diag(p))
    want = np.zeros((2 * n, 2 * n))
    for i in range(n):
        want[i, n + i] = occ[i]
        want[n + i, i] = 1 - occ[i]
    close(G, want, "occupations", 1e-10)
