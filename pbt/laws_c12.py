from common import *
from laws_c11 import WHOLE, absmat, mat, nt, same, values

R = Registry("C12")


@R.law(mat((0, 1, 2, 3, 3, 4, 4, 5, 5, 6)), 250, 4000,
       rule="non-zero matrix of size 3+", nontrivial=nt)
def permanent(c, note):
    A, ex = values(c)
    n = c["n"]
    want = ref.perm_laplace(ex) if n else 1
    scale = ref.perm_laplace(absmat(ex)) if n else 1
    same(ff.pt(A), want, scale, "pt", c["f"] in WHOLE)
    note(c["f"])


@R.law(mat((0, 1, 2, 3, 4, 4, 4, 5, 6, 6)), 180, 2500,
       rule="non-zero matrix of size 3+", nontrivial=nt)
def hafnian(c, note):
    A, ex = values(c)
    n = c["n"]
    if n % 2:
        need(ff.hf(A) == 0, "odd hafnian")
        return
    if n and isinstance(ex[0][0], int):
        num = ref.hf([[ex[i][j] + ex[j][i] for j in range(n)]
                      for i in range(n)])
        den = 2 ** (n // 2)
        want = num // den if num % den == 0 else num / den
    else:
        want = ref.hf([[(ex[i][j] + ex[j][i]) / 2 for j in range(n)]
                       for i in range(n)])
    ab = [[(abs(ex[i][j]) + abs(ex[j][i])) / 2 for j in range(n)]
          for i in range(n)]
    same(ff.hf(A), want, math.factorial(n) * ref.hf(ab), "hf")
    note(c["f"])


@R.law(mat((8, 8, 7, 9), ("float", "complex", "int", "list")), 4, 60,
       rule="non-zero matrix", nontrivial=nt, shards=3)
def larger_sizes(c, note):
    A, ex = values(c)
    n = c["n"]
    if n > 6:
        same(ff.pt(A), ref.perm_laplace(ex), ref.perm_laplace(absmat(ex)),
             "pt", c["f"] in WHOLE)
    if n == 8:
        sy = [[(ex[i][j] + ex[j][i]) / 2 for j in range(n)] for i in range(n)]
        ab = [[abs(x) for x in r] for r in sy]
        need(abs(ff.hf(A) - ref.hf(sy)) <= 1e-7 * ref.hf(ab), "hf")


@st.composite
def identity_case(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "A": draw(structured((n, n), scales=(1,))),
            "r": draw(st.integers(0, n - 1)), "x": draw(array((n,))),
            "p": draw(st.permutations(list(range(n)))),
            "q": draw(st.permutations(list(range(n))))}


@R.law(identity_case(), 80, 1500, rule="non-zero matrix of size 3+",
       nontrivial=lambda c: c["n"] > 2 and nonzero(c["A"]))
def permanent_identities(c, note):
    A, x, n = arr(c["A"]).astype(complex), arr(c["x"]), c["n"]
    ab = np.abs(A)
    ab[c["r"]] += np.abs(x)
    tol = 1e-9 * (1 + ref.perm_ryser(ab.tolist()))
    p = ff.pt(A)
    need(abs(p - ref.perm_ryser(A.tolist())) < tol * 100, "Ryser")
    need(abs(ff.pt(A[c["p"]][:, c["q"]]) - p) < tol, "permutation invariance")
    need(abs(ff.pt(A.T) - p) < tol, "transpose")
    B, C = A.copy(), A.copy()
    B[c["r"]] = x
    C[c["r"]] = A[c["r"]] + x
    need(abs(ff.pt(C) - p - ff.pt(B)) < tol * 4, "linear in each row")


@st.composite
def haf_case(draw):
    n = draw(pick((1, 2, 2, 3)))
    return {"n": n, "B": draw(structured((n, n), scales=(1,))),
            "d": draw(array((2 * n,))),
            "e": draw(st.lists(st.booleans(), min_size=15, max_size=15)),
            "p": draw(st.permutations(list(range(2 * n))))}


@R.law(haf_case(), 80, 1200, rule="non-zero block of size 2+",
       nontrivial=lambda c: c["n"] > 1 and nonzero(c["B"]))
def hafnian_identities(c, note):
    n, B = c["n"], arr(c["B"])
    Z = np.zeros((n, n))
    M = np.block([[Z, B], [B.T, Z]])
    tol = 1e-9 * (1 + ref.perm_ryser(np.abs(B).tolist()))
    h = ff.hf(M)
    need(abs(h - ff.pt(B)) < tol, "hf of a bipartite matrix is a permanent")
    p = c["p"]
    need(abs(ff.hf(M[p][:, p]) - h) < tol, "relabelling")
    need(abs(ff.hf(M + np.diag(arr(c["d"]))) - h) < tol * 1e3, "diagonal")
    m = 2 * n
    pairs = list(itertools.combinations(range(m), 2))
    edges = [e for e, on in zip(pairs, c["e"]) if on]
    adj = np.zeros((m, m), dtype=int)
    for i, j in edges:
        adj[i, j] = adj[j, i] = 1
    need(ff.hf(adj) == ref.count_matchings(m, [(i, j, 1) for i, j in edges]),
         "matchings of an adjacency matrix")
