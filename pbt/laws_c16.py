from common import *
from graphs import *

R = Registry("C16")
SORTABLE = ("same", "perm", "perm", "gap", "neg", "str", "tuple", "float")


def embedding(G, c):
    """None, or another planar embedding of G: mirrored / re-rooted"""
    k = c["emb"]
    if k == 0:
        return None
    ok, emb = nx.check_planarity(G)
    if k == 1:
        return emb
    new = nx.PlanarEmbedding()
    data = emb.get_data()
    if k == 2:
        new.set_data({v: list(reversed(ns)) for v, ns in data.items()})
    else:
        order = sorted(data, key=repr, reverse=True)
        H = nx.Graph()
        H.add_nodes_from(order)
        H.add_edges_from(sorted(G.edges, key=repr))
        return nx.check_planarity(H)[1]
    return new


@st.composite
def embedded(draw, n_max=12):
    c = draw(planar(n_max, connected=True, labels=SORTABLE, n_min=2))
    c["emb"] = draw(st.integers(0, 3))
    return c


def undirected(face):
    return sorted(sorted(e, key=repr) for e in face)


@R.law(embedded(), 250, 6000, rule="4+ nodes and 3+ edges",
       nontrivial=interesting, shards=2)
def faces_of_an_embedding(c, note):
    if not c["e"]:
        return
    G = build(c)
    emb = embedding(G, c)
    F = ff.faces(G) if emb is None else ff.faces(G, emb)
    used = [tuple(e) for f in F for e in f]
    need(len(used) == len(set(used)), "a directed edge is used twice")
    need(set(used) == {(u, v) for u, v in G.edges} | {
        (v, u) for u, v in G.edges}, "directed edges")
    for f in F:
        for e, g in zip(f, list(f[1:]) + [f[0]]):
            need(e[1] == g[0], "a face is not a closed walk")
    need(len(G) - G.number_of_edges() + len(F) == 2, "Euler's formula")
    if emb is not None:  # exactly the faces of the given embedding
        seen, want = set(), []
        for u, v in emb.edges():
            if (u, v) not in seen:
                ns = emb.traverse_face(u, v, seen)
                want.append(undirected(zip(ns, ns[1:] + [ns[0]])))
        need(sorted(want, key=repr) == sorted(map(undirected, F), key=repr),
             "not the faces of the embedding")
    note("%d faces" % min(len(F), 6))


@R.law(fixed({"k": st.integers(0, 3), "p": st.permutations(list(range(10)))}),
       20, 200, rule="any non-planar graph")
def nonplanar_has_no_faces(c, note):
    G = [nx.complete_graph(5), nx.complete_bipartite_graph(3, 3),
         nx.petersen_graph(), nx.complete_graph(6)][c["k"]]
    H = nx.relabel_nodes(G, dict(enumerate(c["p"])))
    got = ff.faces(H)
    need(isinstance(got, int) and got == 0, "a non-planar graph gave %r",
         type(got))


@st.composite
def dual_case(draw):
    c = draw(embedded(12))
    c["tree"] = draw(st.lists(st.integers(0, 10**4), min_size=len(c["e"]),
                              max_size=len(c["e"])))
    return c


@R.law(dual_case(), 200, 5000, rule="at least two independent cycles",
       nontrivial=lambda c: len(c["e"]) > c["n"], shards=2)
def dual_is_a_tree(c, note):
    if not c["e"]:
        return
    G = build(c)
    emb = embedding(G, c) or nx.check_planarity(G)[1]
    seen, F = set(), []
    for u, v in emb.edges():
        if (u, v) not in seen:
            ns = emb.traverse_face(u, v, seen)
            F.append([tuple(e) for e in zip(ns, ns[1:] + [ns[0]])])
    W = nx.Graph()
    W.add_nodes_from(G)
    for (i, j), w in zip(c["e"], c["tree"]):
        W.add_edge(label(c, i), label(c, j), weight=w)
    T = nx.minimum_spanning_tree(W)
    if c["tree"] and c["tree"][0] % 2:
        T = nx.Graph([(v, u) for u, v in T.edges])
    H = ff.dual_graph_H(G, F, T)
    need(set(H.nodes) == set(range(len(F))), "nodes of the dual")
    want = set()
    for e in G.edges:
        if T.has_edge(*e):
            continue
        at = [k for k, f in enumerate(F)
              if tuple(e) in f or tuple(e)[::-1] in f]
        want.add(frozenset(at))
    need({frozenset(e) for e in H.edges} == want, "edges of the dual")
    need(nx.is_tree(H), "the dual is not a tree")
    note("%d faces" % min(len(F), 6))


@st.composite
def big_embedded(draw):
    c = draw(big_planar(draw(pick((50, 50, 120)))))
    G = nx.Graph(c["e"])
    G.add_nodes_from(range(c["n"]))
    comps = [sorted(x) for x in nx.connected_components(G)]
    c["e"] = c["e"] + [(x[0], y[-1]) for x, y in zip(comps, comps[1:])]
    if c["w"]:
        c["w"] = c["w"] + [3] * (len(comps) - 1)
    if c["lab"] not in SORTABLE:
        c["lab"] = "perm"
    c["emb"] = draw(st.integers(0, 3))
    c["tree"] = np.random.default_rng(c["eo"]).integers(
        0, 10**4, len(c["e"])).tolist()
    return c


@R.law(big_embedded(), 15, 300, rule="20 to 50 nodes")
def large_graphs(c, note):
    faces_of_an_embedding(c, note)
    dual_is_a_tree(c, note)


@R.law(fixed({"n": st.one_of(st.integers(1, 12), st.integers(1, 12),
                                st.integers(13, 30)),
              "seed": st.one_of(st.none(), st.integers(0, 2**32 - 1)),
              "pre": seeds}), 120, 3000, rule="four or more nodes",
       nontrivial=lambda c: c["n"] > 3, shards=2)
def random_planar(c, note):
    import random
    random.seed(c["pre"])
    G = ff.generate_random_planar_graph(c["n"], seed=c["seed"])
    if G is None:   # documented: may give up, which it must not do early on
        need(c["n"] > 12, "no graph for %d nodes", c["n"])
        return note("gave up")
    need(isinstance(G, nx.Graph) and not G.is_directed()
         and not G.is_multigraph(), "not a simple graph")
    need(set(G.nodes) == set(range(c["n"])), "nodes")
    need(nx.is_connected(G) and nx.check_planarity(G)[0], "connected, planar")
    need(nx.number_of_selfloops(G) == 0, "self-loop")


@st.composite
def tree_case(draw):
    par = draw(st.one_of(st.lists(st.integers(0, 40), max_size=14),
                         st.lists(st.integers(0, 99), max_size=90)))
    n = len(par) + 1
    chain = draw(st.booleans())
    e = [((i if chain and p % 3 else p % (i + 1)), i + 1)
         for i, p in enumerate(par)]
    c = {"n": n, "e": e, "w": None, "bad": draw(pick((0, 0, 0, 1, 2))),
         "i": draw(st.integers(0, 20)), "j": draw(st.integers(0, 20))}
    if draw(st.booleans()):  # lengths that do not count
        c["w"] = np.random.default_rng(len(e) + c["i"]).integers(
            1, 9, len(e)).tolist()
    return relabelled(draw, c)


@R.law(tree_case(), 200, 5000, rule="four or more nodes",
       nontrivial=lambda c: c["n"] > 3)
def tree_depth(c, note):
    G = build(c)
    n = c["n"]
    if c["bad"]:
        G = nx.Graph(G)
        a, b = label(c, c["i"] % n), label(c, c["j"] % n)
        if c["bad"] == 1 and a != b and not G.has_edge(a, b):
            G.add_edge(a, b)
        elif c["bad"] == 2 and c["e"]:
            i, j = c["e"][c["i"] % len(c["e"])]
            G.remove_edge(label(c, i), label(c, j))
            if c["j"] % 2:
                G.add_edge(label(c, i), label(c, i))
        else:
            return
        try:
            ff.compute_tree_depth(G)
        except ValueError:
            note("refused")
            return
        raise Violation("a graph that is not a tree was accepted")
    root = list(G.nodes)[0]
    depth, level, seen = 0, {root}, {root}
    while True:
        level = {y for x in level for y in G[x]} - seen
        if not level:
            break
        seen |= level
        depth += 1
    need(ff.compute_tree_depth(G) == depth, "depth is not %d", depth)


@R.law(fixed({"n": st.integers(30, 400), "s": seeds, "w": pick((1, 1, 2, 5)),
              "turn": st.booleans()}), 30, 600, rule="deeper than thirty",
       nontrivial=lambda c: c["n"] > 60 and c["w"] < 3)
def deep_trees(c, note):
    n, rng = c["n"], np.random.default_rng(c["s"])
    par = [max(0, i - int(rng.integers(1, c["w"] + 1))) for i in range(1, n)]
    d = [0] * n
    for i, p in enumerate(par):
        d[i + 1] = d[p] + 1
    name = rng.permutation(3 * n)[:n].tolist()
    G = nx.Graph()
    G.add_node(name[0])
    es = [(name[p], name[i + 1]) for i, p in enumerate(par)]
    if c["turn"]:
        es = [es[k][::-1] for k in rng.permutation(n - 1)]
    G.add_edges_from(es)
    need(ff.compute_tree_depth(G) == max(d), "depth is not %d", max(d))
