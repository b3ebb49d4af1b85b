"""Graph cases: explicit edge lists on ids 0..n-1 plus a labelling recipe."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

import ref
from gen import fixed, ints, pick

LABELS = ("same", "perm", "perm", "gap", "neg", "str", "tuple", "mixed",
          "float")


def apollonian(choices):
    """maximal planar graph: each new vertex goes into a chosen triangle"""
    edges = [(0, 1), (0, 2), (1, 2)]
    fs = [(0, 1, 2), (0, 2, 1)]
    n = 3
    for ch in choices:
        a, b, c = fs.pop(ch % len(fs))
        edges += [(a, n), (b, n), (c, n)]
        fs += [(a, b, n), (b, c, n), (c, a, n)]
        n += 1
    return n, edges


def lattice(kind, a, b):
    if kind == "grid":
        G = nx.grid_2d_graph(a, b)
    elif kind == "hex":
        G = nx.hexagonal_lattice_graph(a, b)
    elif kind == "tri":
        G = nx.triangular_lattice_graph(a, b)
    elif kind == "prism":
        G = nx.circular_ladder_graph(a + 1)
    elif kind == "wheel":
        G = nx.wheel_graph(a + b + 1)
    else:
        G = nx.ladder_graph(a + b)
    idx = {v: i for i, v in enumerate(sorted(G))}
    return len(G), sorted(tuple(sorted((idx[u], idx[v]))) for u, v in G.edges)


@st.composite
def piece(draw, n_max, connected=False):
    """one planar piece (n, edges), not necessarily connected"""
    kind = draw(pick(("apol", "apol", "apol", "cycle", "tree", "lattice",
                      "theta", "outer", "complete")))
    n_max = max(n_max, 1)
    if kind == "complete" or n_max < 3:
        n = min(n_max, draw(st.integers(1, 4)))
        return n, [(i, j) for i in range(n) for j in range(i)]
    if kind == "apol":
        n, e = apollonian(draw(st.lists(st.integers(0, 60),
                                        max_size=n_max - 3)))
        drop = draw(st.lists(st.integers(0, 100), max_size=len(e)))
        thr = draw(pick((0, 20, 40, 60)))
        keep = [x for k, x in enumerate(e)
                if k >= len(drop) or drop[k] >= thr]
        return n, keep
    if kind == "tree":
        par = draw(st.lists(st.integers(0, 40), max_size=n_max - 1))
        return len(par) + 1, [(p % (i + 1), i + 1) for i, p in enumerate(par)]
    if kind == "cycle":
        n = draw(st.integers(3, n_max))
        return n, [(i, (i + 1) % n) for i in range(n)]
    if kind == "lattice":
        lk = draw(pick(("grid", "grid", "hex", "tri", "prism", "wheel",
                        "ladder")))
        a, b = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        if lk in ("prism",):
            a += 1
        n, e = lattice(lk, a, b)
        while n > n_max and (a > 1 or b > 1):
            a, b = max(1, a - 1), max(1, b - 1)
            if lk == "prism":
                a = max(2, a)
                if b == 1 and a == 2:
                    break
            n, e = lattice(lk, a, b)
        if n <= n_max:
            return n, e
        return 3, [(0, 1), (1, 2), (0, 2)]
    if kind == "theta":  # two hubs joined by paths
        lens = draw(st.lists(st.integers(0, 3), min_size=2, max_size=4))
        n, e, direct = 2, [], False
        for L in lens:
            if n + L > n_max:
                break
            if L == 0:
                if not direct:
                    e.append((0, 1))
                direct = True
                continue
            p = [0] + list(range(n, n + L)) + [1]
            e += list(zip(p, p[1:]))
            n += L
        return n, e
    n = draw(st.integers(3, n_max))  # outerplanar: cycle plus a fan
    e = [(i, (i + 1) % n) for i in range(n)]
    chords = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    e += [(0, i) for i in range(2, n - 1) if chords[i]]
    return n, e


@st.composite
def planar(draw, n_max=12, connected=None, weights=True, labels=LABELS,
           n_min=1):
    """a planar graph case; pieces glued at a vertex, by a bridge, or apart"""
    n, e = draw(piece(n_max))
    e = list(e)
    for _ in range(draw(pick((0, 0, 1, 1, 2)))):
        if n >= n_max:
            break
        m, f = draw(piece(n_max - n))
        how = draw(pick(("apart", "bridge", "glue")))
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, m - 1))
        if how == "glue":
            names = {b: a}
            for k in range(m):
                if k != b:
                    names[k] = n
                    n += 1
            e += [(names[x], names[y]) for x, y in f]
        else:
            e += [(x + n, y + n) for x, y in f]
            if how == "bridge":
                e.append((a, b + n))
            n += m
    if connected:
        G = nx.Graph()
        G.add_nodes_from(range(n))
        G.add_edges_from(e)
        comps = [sorted(c) for c in nx.connected_components(G)]
        for c, d in zip(comps, comps[1:]):
            e.append((c[draw(st.integers(0, len(c) - 1))],
                      d[draw(st.integers(0, len(d) - 1))]))
    if n < n_min:
        n, e = 2, [(0, 1)]
    c = {"n": n, "e": sorted({tuple(sorted(x)) for x in e}), "w": None}
    if weights and draw(st.booleans()):
        c["w"] = draw(st.lists(st.integers(2, 12), min_size=len(c["e"]),
                               max_size=len(c["e"])))
        c["wd"] = draw(pick((4, 4, 3, 70, .004, .0071, 9000)))
    return relabelled(draw, c, labels)


DRESS = ("plain", "plain", "plain", "attrs", "frozen", "view", "subclass",
         "partial", "partial", "int", "numpy")


class OtherGraph(nx.Graph):
    pass


def relabelled(draw, c, labels=LABELS):
    n = c["n"]
    c["dress"] = draw(pick(DRESS))
    c["lab"] = draw(pick(labels))
    c["p"] = (list(range(n)) if c["lab"] == "same" or n < 2
              else draw(st.permutations(list(range(n)))))
    c["order"] = draw(pick(("nodes", "nodes", "reversed", "edges")))
    c["eo"] = draw(st.integers(0, 10**4))
    return c


def label(c, i):
    k = c["p"][i]
    lab = c["lab"]
    if lab == "gap":
        return 7 * k + 3
    if lab == "neg":
        return k - c["n"] // 2
    if lab == "str":
        return "v%d" % k
    if lab == "tuple":
        return (k // 3, k % 3)
    if lab == "mixed":
        return k if k % 2 else "n%d" % k
    if lab == "float":
        return k + 0.5
    return k


def weight(c, k):
    if c["w"] is None or (c.get("dress") == "partial" and k % 3 == 0):
        return 1
    if c.get("dress") == "int":
        return c["w"][k]
    if c.get("dress") == "numpy" and k % 2:
        return np.int64(c["w"][k])
    w = c["w"][k] / float(c.get("wd", 4))
    return np.float64(w) if c.get("dress") == "numpy" else w


def wedges(c):
    """[(i, j, w)] on the ids"""
    w = [weight(c, k) for k in range(len(c["e"]))]
    return [(i, j, x.item() if isinstance(x, np.generic) else x)
            for (i, j), x in zip(c["e"], w)]


def build(c):
    dress = c.get("dress")
    G = OtherGraph() if dress == "subclass" else nx.Graph()
    ids = list(range(c["n"]))
    rng = np.random.default_rng(c["eo"])
    es = list(enumerate(c["e"]))
    if c["eo"]:
        es = [es[k] for k in rng.permutation(len(es))]
        if c["lab"] != "same":
            ids = [ids[k] for k in rng.permutation(len(ids))]
    flip = rng.random(len(es)) < .5
    if c["order"] == "nodes":
        G.add_nodes_from(label(c, i) for i in ids)
    elif c["order"] == "reversed":
        G.add_nodes_from(label(c, i) for i in reversed(ids))
    for (k, (i, j)), f in zip(es, flip):
        if f:
            i, j = j, i
        if c["w"] is None or (dress == "partial" and k % 3 == 0):
            G.add_edge(label(c, i), label(c, j))
        else:
            G.add_edge(label(c, i), label(c, j), weight=weight(c, k))
    G.add_nodes_from(label(c, i) for i in ids)
    if dress == "attrs":  # attributes that mean nothing
        G.graph["name"], G.graph["weight"] = "G", 3
        for k, v in enumerate(G):
            G.nodes[v].update(weight=k, pos=(k, -k), sign=-1)
        for k, (u, v) in enumerate(G.edges):
            G.edges[u, v].update(label="e%d" % k, capacity=k, sign=-1,
                                 orientation=k)
    elif dress == "frozen":
        nx.freeze(G)
    elif dress == "view":  # of a graph with one more node
        nodes = list(G)
        H = nx.Graph()
        H.add_nodes_from(nodes)
        H.add_edges_from(G.edges(data=True))
        more = object()
        H.add_edges_from((more, v) for v in nodes[::2])
        G = H.subgraph(nodes)
    return G


def n_match(c):
    """in an order that keeps the frontier of the recursion small"""
    G = nx.Graph(c["e"])
    pos = {v: k for k, v in enumerate(nx.utils.reverse_cuthill_mckee_ordering(G))}
    for v in range(c["n"]):
        pos.setdefault(v, len(pos))
    return ref.count_matchings(c["n"], [(pos[i], pos[j], w)
                                        for i, j, w in wedges(c)])


@st.composite
def big_planar(draw, n_max=60, n_min=20, weights=True):
    """random triangulations and triangulated grids with some edges removed"""
    kind = draw(pick(("apol", "grid", "grid", "tree-like", "rings")))
    seed = draw(st.integers(0, 10**6))
    drop = draw(pick((0, 0, .02, .1, .25)))
    n = draw(st.integers(n_min, n_max))
    rng = np.random.default_rng(seed)
    if kind == "apol":
        n, e = apollonian(rng.integers(0, 10**6, n - 3).tolist())
    elif kind == "grid":
        a = max(2, int(rng.integers(2, 8)))
        b = max(2, n // a)
        n = a * b
        e = [(i * b + j, i * b + j + 1) for i in range(a) for j in range(b - 1)]
        e += [(i * b + j, i * b + j + b) for i in range(a - 1) for j in range(b)]
        for i in range(a - 1):
            for j in range(b - 1):
                r = rng.random()
                if r < .3:
                    e.append((i * b + j, i * b + j + b + 1))
                elif r < .6:
                    e.append((i * b + j + 1, i * b + j + b))
    elif kind == "rings":  # long cycles sharing a node, an edge or a path
        k = int(rng.integers(max(3, n // 3), n + 1))
        e, n0 = [(i, (i + 1) % k) for i in range(k)], k
        while n0 < n:
            k = int(rng.integers(1, n - n0 + 1))
            i, j = e[int(rng.integers(len(e)))]
            if rng.random() < .2:
                j = i if k > 1 else j
            p = [i] + list(range(n0, n0 + k)) + [j]
            e += list(zip(p, p[1:]))
            n0 += k
        n = n0
    else:  # small pieces hanging together at cut vertices
        e, n0 = [], 1
        while n0 < n:
            k = int(rng.integers(1, 5))
            at = int(rng.integers(0, n0))
            p = [at] + list(range(n0, n0 + k))
            e += list(zip(p, p[1:]))
            if k > 1:
                e.append((at, p[-1]))
            n0 += k
        n = n0
    e = sorted({tuple(sorted((int(i), int(j)))) for i, j in e})
    e = [x for x in e if rng.random() >= drop]
    c = {"n": n, "e": e, "w": None, "big": kind}
    if weights and draw(st.booleans()):
        c["w"] = rng.integers(2, 13, len(e)).tolist()
        c["wd"] = draw(pick((4, 4, 3, 70)))
    return relabelled(draw, c)


def tolerance(c, want):
    """rounding of sqrt(det) of the oriented adjacency matrix A: eigenvalues
    are exact to eps |A|, the determinant to eps times its Hadamard bound, and
    the result is rounded to ten decimals"""
    n = c["n"]
    A = np.zeros((n, n))
    for i, j, w in wedges(c):
        A[i, j] = A[j, i] = w
    norms = np.linalg.norm(A, axis=1)
    det = 1e-13 * n * np.prod(norms[norms > 0]) ** 1.0
    err = np.sqrt(det)
    if want > 0:
        err = min(err, det / want)
    return float(err + 1e-12 * n * np.linalg.norm(A, 2) ** (n / 2) + 1e-10)


def interesting(c):
    return c["n"] >= 4 and len(c["e"]) >= 3
