from common import *
from graphs import *

R = Registry("C14")


def check_ordering(c, P, G):
    n = c["n"]
    P = np.asarray(P)
    need(P.shape == (n, n), "shape %s for %d nodes", P.shape, n)
    need(maxabs(np.imag(P)) == 0, "not real")
    A = nx.to_numpy_array(G, weight=None)
    close(np.abs(P), A, "support", 0)
    close(P.T, -P, "skew-symmetric", 0)


@R.law(planar(10), 250, 6000, rule="4+ nodes and 3+ edges",
       nontrivial=interesting, shards=3)
def ordering_is_pfaffian(c, note):
    G = build(c)
    P = ff.pfo_algorithm(G)
    check_ordering(c, P, G)
    W = np.asarray(P) * nx.to_numpy_array(G)
    want = n_match(c)
    need(abs(abs(ref.pf(W.tolist())) - want) <= 1e-9 * want + 1e-13,
         "pfaffian %s instead of %s", ref.pf(W.tolist()), want)
    # all matchings carry the same sign
    note("labels " + c["lab"])
    if want:
        note("has matchings")


@R.law(planar(24, weights=False), 60, 2000, rule="4+ nodes and 3+ edges",
       nontrivial=interesting, shards=2)
def larger_ordering(c, note):
    G = build(c)
    P = np.asarray(ff.pfo_algorithm(G))
    check_ordering(c, P, G)
    want = n_match(c)
    d = np.linalg.det(P * nx.to_numpy_array(G))
    need(abs(d - want**2) <= 1e-6 * (1 + want**2), "determinant %s for %s", d,
         want)


@R.law(big_planar(weights=False), 40, 1500, rule="20 to 60 nodes",
       nontrivial=interesting, shards=2)
def large_ordering(c, note):
    G = build(c)
    P = np.asarray(ff.pfo_algorithm(G))
    check_ordering(c, P, G)
    want = float(n_match(c))
    s, l = np.linalg.slogdet(P * nx.to_numpy_array(G))
    got = math.exp(l / 2) if s > 0 and np.isfinite(l) else 0.0
    need(abs(got - want) <= 1e-6 * want + tolerance(c, want),
         "square root of the determinant is %s instead of %s", got, want)
    note(c["big"])


@R.law(planar(8, connected=True, weights=False), 10, 200,
       rule="4+ nodes and 3+ edges", nontrivial=interesting, shards=2)
def verbose_gives_the_same(c, note):
    G = build(c)
    P = ff.pfo_algorithm(G, verbose=True)
    check_ordering(c, P, G)
    close(np.abs(ref.pf(np.asarray(P).tolist())), float(n_match(c)),
          "pfaffian", 1e-9)


@st.composite
def face_case(draw):
    k = draw(st.integers(3, draw(pick((8, 8, 13, 40)))))
    n = k + draw(st.integers(0, 3))
    verts = draw(st.permutations(list(range(n))))[:k]
    tails = draw(st.lists(st.integers(0, k - 1), max_size=n - k,
                          unique=True))
    return {"n": n, "verts": verts, "tails": tails,
            "signs": draw(st.integers(0, 10**6)),
            "gap": draw(st.integers(-1, k - 1)),
            "mark": draw(pick(("99j", "0", "weighted", "real", "int"))),
            "lay": draw(pick((0, 0, 1, 3))),
            "verbose": draw(st.booleans()), "rot": draw(st.integers(0, 20))}


@R.law(face_case(), 300, 8000, rule="a face with a missing edge",
       nontrivial=lambda c: c["gap"] >= 0)
def face_completion(c, note):
    n, verts, k = c["n"], c["verts"], len(c["verts"])
    signs = np.random.default_rng(c["signs"]).random(n * n) < .5
    free = [v for v in range(n) if v not in verts]
    walk = []
    for i in range(k):
        walk.append((verts[i], verts[(i + 1) % k]))
        for t, at in enumerate(c["tails"]):  # pendant edges inside the face
            if at == (i + 1) % k and t < len(free):
                walk += [(verts[at], free[t]), (free[t], verts[at])]
    miss = (verts[c["gap"]], verts[(c["gap"] + 1) % k]) if c["gap"] >= 0 else None
    r = c["rot"] % len(walk)
    walk = walk[r:] + walk[:r]
    P = np.zeros((n, n), dtype={"real": float, "int": int}.get(c["mark"], complex))
    for i in range(n):
        for j in range(i):
            on = (i, j) in walk or (j, i) in walk
            s = 1 if signs[i * n + j] else -1
            if on:
                P[i, j], P[j, i] = s, -s
            elif signs[j * n + i] and c["mark"] in ("99j", "weighted"):
                P[i, j] = P[j, i] = 99j  # an edge of another face
    if miss:
        m = {"99j": 99j, "0": 0, "weighted": 49.5j, "real": 0, "int": 0}[c["mark"]]
        P[miss] = P[miss[::-1]] = m
    P = vary(P, c["lay"])
    before = P.copy()
    edges = [tuple(e) for e in walk]
    out = ff.complete_face(P, edges, verbose=c["verbose"])
    if miss is None:
        close(P, before, "nothing to assign", 0)
        return
    need(out is not None, "no ordering returned")
    Q = np.asarray(out)
    prod = 1
    for u, v in walk:
        prod = prod * Q[u, v]
    need(prod == -1, "the face is not oddly oriented: product %s", prod)
    need(abs(Q[miss]) == 1 and Q[miss] == -Q[miss[::-1]], "not skew")
    rest = Q.copy()
    rest[miss] = before[miss]
    rest[miss[::-1]] = before[miss[::-1]]
    close(rest, before, "other entries", 0)
