from common import *

R = Registry("C11")

FORMS = ("float", "complex", "int", "int8", "uint8", "int16", "bigint", "bool",
         "list", "listfloat", "intgrid", "int64", "uint64", "uint16", "biglist")
WHOLE = ("int", "int8", "uint8", "int16", "uint16", "int64", "uint64", "bigint",
         "list", "biglist")  # evaluated in exact integers


@st.composite
def mat(draw, sizes, forms=FORMS):
    n = draw(pick(sizes))
    f = draw(pick(forms))
    c = {"n": n, "f": f, "lay": draw(layouts), "st": draw(pick(
        ("any", "any", "sym", "skew", "tri", "rank1", "sparse")))}
    if "x" in c and draw(pick((False, False, False, True))):
        c["rows"] = draw(st.lists(st.integers(-11, 6), min_size=n, max_size=n))
    if c["st"] == "sparse":
        c["sp"] = draw(seeds)
    if f in ("float", "complex", "listfloat"):
        c["x"] = draw(st.one_of(
            array((n, n), cplx=f == "complex", scales=(1, 10)),
            array((n, n), cplx=f == "complex", styles=("gauss",),
                  scales=(1e-5, 1e4)),
            wide((n, n), f == "complex"), tilted(n, f == "complex")))
    else:
        c["v"] = draw(ints(n * n, draw(st.booleans())))
    return c


def values(c):
    """(what to pass to the library, exact Python values)"""
    n, f = c["n"], c["f"]
    if "x" in c:
        M = arr(c["x"])
    else:
        M = np.array(c["v"], dtype=object).reshape(n, n)
        if f == "bigint":
            M = M * 10**8 + np.array(c["v"], dtype=object).reshape(n, n) ** 3
        elif f == "int8":
            M = M * 14
        elif f == "uint8":
            M = np.vectorize(abs, otypes=[object])(M) * 28
        elif f == "uint16":
            M = np.vectorize(abs, otypes=[object])(M) * 7000
        elif f == "int64":
            M = M * 2**59 + M**3
        elif f == "uint64":
            M = np.vectorize(abs, otypes=[object])(M) * 2**60 + M**2
        elif f == "biglist":
            M = M * 3**40 + M**2
        elif f == "int16":
            M = M * 3000
        elif f == "bool":
            M = np.array(c["v"]).reshape(n, n) != 0
    if c["st"] == "sym":
        M = np.tril(M) | np.tril(M).T if f == "bool" else (
            M + M.T if f not in ("int8", "uint8", "int16", "uint16", "int64", "uint64") else
            np.tril(M) + np.tril(M, -1).T)
    elif c["st"] == "skew" and f not in ("bool", "uint8", "uint16", "uint64"):
        M = np.tril(M, -1) - np.tril(M, -1).T
    elif c["st"] == "tri":
        M = np.triu(M)
    elif c["st"] == "sparse":  # at least one non-zero term
        rng = np.random.default_rng(c["sp"])
        M = M * ((rng.random((n, n)) < .2) | (np.eye(n)[rng.permutation(n)] > 0))
    elif c["st"] == "rank1" and n:
        M = np.array([M[0]] * n)
    if "rows" in c:
        M = M * 10.0 ** np.array(c["rows"], dtype=float)[:, None]
    if f in ("int8", "uint8", "int16", "uint16", "int64", "uint64", "bool"):
        A = M.astype({"bool": bool}.get(f, f))
    elif f in ("int", "bigint", "intgrid"):
        A = M.astype(np.int64) if f != "intgrid" else M.astype(float)
    elif f in ("list", "biglist"):
        A = [[int(x) for x in r] for r in M]
    elif f == "listfloat":
        A = [[float(x) for x in r] for r in M]
    else:
        A = M
    if isinstance(A, np.ndarray):
        A = vary(A, c["lay"])
    ex = [[(int(x) if f not in ("float", "complex", "listfloat") else
            complex(x)) for x in r] for r in M]
    return A, ex


def same(got, want, scale, msg, exact=False):
    """exact for integers that fit a double, relative to `scale` otherwise"""
    if exact:
        need(got == want, "%s: %s instead of %s", msg, got, want)
        return
    if isinstance(want, int) and abs(want) < 2**53 and scale < 2**53:
        need(complex(got) == want, "%s: %s instead of %s", msg, got, want)
        return
    tol = 1e-11 * float(scale)
    need(abs(complex(got) - complex(want)) <= tol, "%s: %s instead of %s",
         msg, got, want)


def absmat(M):
    return [[abs(x) for x in r] for r in M]


def nt(c):
    return c["n"] > 2 and (nonzero(c["x"]) if "x" in c else any(c["v"]))


@st.composite
def perm_case(draw):
    n = draw(st.integers(0, 40))
    p = draw(st.permutations(list(range(n))))
    return {"p": p, "as": draw(pick(("list", "tuple", "array", "shift",
                                     "float", "gap"))),
            "i": draw(st.integers(0, 60)), "j": draw(st.integers(0, 60))}


@R.law(perm_case(), 250, 5000, rule="three or more elements",
       nontrivial=lambda c: len(c["p"]) > 2)
def permutation_sign(c, note):
    p = c["p"]
    want = ref.parity(p)
    q = list(p)
    if c["as"] == "shift":
        q = [x - 7 for x in p]
    elif c["as"] == "gap":
        q = [x * x * 10**6 for x in p]
    elif c["as"] == "float":
        q = [x / 3 for x in p]
    elif c["as"] == "array":
        q = np.array(q, dtype=np.uint8)
    elif c["as"] == "tuple":
        q = tuple(q)
    need(ff.sgn(q) == want, "sign of %s", p)
    if len(p) > 1 and c["i"] % len(p) != c["j"] % len(p):
        i, j = c["i"] % len(p), c["j"] % len(p)
        t = list(p)
        t[i], t[j] = t[j], t[i]
        need(ff.sgn(t) == -want, "a transposition flips the sign")


@R.law(mat((0, 1, 2, 3, 3, 4, 4, 5, 5, 6)), 250, 4000,
       rule="non-zero matrix of size 3+", nontrivial=nt)
def determinant(c, note):
    A, ex = values(c)
    integer = not ex or isinstance(ex[0][0], int) if c["n"] else True
    want = int(ref.det_frac(ex)) if integer else ref.det_laplace(ex)
    got = ff.dt(A)
    same(got, want, ref.perm_laplace(absmat(ex)) if c["n"] else 1, "dt",
         c["f"] in WHOLE)
    note(c["f"])
    if c["n"] and isinstance(A, np.ndarray) and c["f"] not in ("bool",):
        s = float(np.linalg.norm(np.array(ex, dtype=complex))) ** c["n"]
        same(ff.dt_eigen(A), want + 0.0, 10 * s, "dt_eigen")


@R.law(mat((0, 1, 2, 3, 4, 4, 4, 5, 6, 6)), 180, 2500,
       rule="non-zero matrix of size 3+", nontrivial=nt)
def pfaffian(c, note):
    A, ex = values(c)
    n = c["n"]
    # pf of M = matchings sum of its skew part (M - M^T)/2
    if n and isinstance(ex[0][0], int):
        tw = [[ex[i][j] - ex[j][i] for j in range(n)] for i in range(n)]
        num, den = ref.pf(tw), 2 ** (n // 2)
        want = num // den if num % den == 0 else num / den
    else:
        want = ref.pf([[(ex[i][j] - ex[j][i]) / 2 for j in range(n)]
                       for i in range(n)])
    ab = [[(abs(ex[i][j]) + abs(ex[j][i])) / 2 for j in range(n)]
          for i in range(n)]
    same(ff.pf(A), want, math.factorial(n) * (ref.hf(ab) if n % 2 == 0 else 1),
         "pf") if n % 2 == 0 else need(ff.pf(A) == 0, "odd pfaffian")
    note(c["f"])


@R.law(mat((8, 8, 7, 9), ("float", "complex", "int", "list")), 4, 60,
       rule="non-zero matrix", nontrivial=nt, shards=3)
def larger_sizes(c, note):
    A, ex = values(c)
    n = c["n"]
    if n > 6:
        want = (int(ref.det_frac(ex)) if isinstance(ex[0][0], int)
                else ref.det_laplace(ex))
        same(ff.dt(A), want, ref.perm_laplace(absmat(ex)), "dt",
             c["f"] in WHOLE)
    if n == 8:
        sk = [[(ex[i][j] - ex[j][i]) / 2 for j in range(n)] for i in range(n)]
        ab = [[abs(x) for x in r] for r in sk]
        got = ff.pf(A)
        need(abs(got - ref.pf(sk)) <= 1e-7 * ref.hf(ab), "pf")


@st.composite
def pair_case(draw):
    n = draw(pick((2, 4, 4, 6)))
    return {"n": n, "A": draw(structured((n, n), scales=(1,))),
            "B": draw(structured((n, n), scales=(1,)))}


@R.law(pair_case(), 80, 1500, rule="non-zero matrices of size 4+",
       nontrivial=lambda c: c["n"] > 2 and nonzero(c["A"]) and nonzero(c["B"]))
def pfaffian_identities(c, note):
    A, B = skew(arr(c["A"])), arr(c["B"])
    p = ff.pf(A)
    sc = 1 + np.linalg.norm(A) ** (c["n"] // 2)
    need(abs(p * p - np.linalg.det(A)) < 1e-9 * sc * sc, "pf^2 = det")
    q = ff.pf(B @ A @ B.T)
    sb = 1 + np.linalg.norm(B) ** c["n"]
    need(abs(q - ff.dt(B) * p) < 1e-8 * sc * sb, "pf(BAB^T) = det(B) pf(A)")
    need(abs(ff.pf(A.T) - (-1) ** (c["n"] // 2) * p) < 1e-9 * sc, "transpose")


@R.law(fixed({"sh": st.tuples(st.integers(0, 5), st.integers(0, 5)),
              "seed": seeds}), 60, 500, rule="non-square",
       nontrivial=lambda c: c["sh"][0] != c["sh"][1])
def eigen_shapes(c, note):
    r, k = c["sh"]
    M = np.random.default_rng(c["seed"]).standard_normal((r, k))
    got = ff.dt_eigen(M)
    if r != k:
        need(got is None, "non-square input gives None")
    elif r:
        need(abs(got - np.linalg.det(M)) < 1e-9 * (1 + np.linalg.norm(M) ** r),
             "determinant")
