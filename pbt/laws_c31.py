import networkx as nx

import graphs
from common import *
from forms import any_state, dm, given, is_nontrivial
from matplotlib import colors
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.patches import FancyArrowPatch

R = Registry("C31")


class Shown:
    """stands in for plt.show and looks at the figure being shown"""

    def __init__(self):
        self.axes = []

    def __call__(self, *a, **k):
        self.axes.append(plt.gca())

    def __enter__(self):
        plt.close("all")
        self.old = plt.show
        plt.show = self
        return self

    def __exit__(self, *a):
        plt.show = self.old


# ----- what is drawn -------------------------------------------------------

def is_red(c):
    r, g, b = colors.to_rgb(c)
    return r > .5 and g < .3 and b < .3


def node_points(ax, n):
    pcs = [c for c in ax.collections if isinstance(c, PathCollection)]
    need(len(pcs) == 1, "%d sets of nodes drawn", len(pcs))
    P = np.asarray(pcs[0].get_offsets())
    need(P.shape == (n, 2), "%s node positions for %d nodes", P.shape, n)
    return P


def index(P, xy):
    d = np.abs(P - np.asarray(xy)).max(axis=1)
    k = int(np.argmin(d))
    need(d[k] < 1e-9, "a line ends away from every node")
    return k


def lines(ax, P):
    """[(i, j, red?, arrow?)] of everything drawn between nodes"""
    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            cs = c.get_colors()
            for k, s in enumerate(c.get_segments()):
                out.append((index(P, s[0]), index(P, s[-1]),
                            is_red(cs[k % len(cs)]), False))
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            a, b = p._posA_posB
            out.append((index(P, a), index(P, b), is_red(p.get_edgecolor()),
                        True))
    return out


def labels_at(ax, P):
    """the text written at each node"""
    got = {}
    for t in ax.texts:
        xy = getattr(t, "xy", None) or t.get_position()
        d = np.abs(P - np.asarray(t.get_position())).max(axis=1)
        if d.min() < 1e-12:
            got[int(np.argmin(d))] = t.get_text()
    return got


# ----- weighted graph of a matrix ------------------------------------------

@st.composite
def weighted(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 12)))
    return {"n": n, "v": draw(ints(n * n, draw(st.booleans()))),
            "d": draw(pick((1, 4, 3, 7, 1000, 1e5, 3e4, .003, 1e-6))),
            "sym": draw(st.booleans()), "diag": draw(st.booleans()),
            "int": draw(st.booleans()), "lay": draw(layouts),
            "title": draw(pick((None, "T", "a title"))),
            "match": draw(st.integers(0, 3)), "turn": draw(st.integers(0, 2)),
            "tiny": draw(st.lists(st.tuples(
                st.integers(0, 5), st.integers(0, 5),
                pick((1e-6, 3e-9, 1e-12, -1e-10, -1e-7))), max_size=3)),
            "as": draw(pick(("array", "array", "array", "graph", "digraph",
                             "multi", "multidi", "numbers")))}


def matrix(c):
    n = c["n"]
    M = np.array(c["v"], dtype=float).reshape(n, n) / c["d"]
    if c["sym"]:
        M = np.triu(M) + np.triu(M, 1).T
    if not c["diag"]:
        np.fill_diagonal(M, 0)
    for i, j, x in c["tiny"]:
        if i != j and max(i, j) < n:
            M[i, j] = x
            if c["sym"]:
                M[j, i] = x
    if c["int"] and c["d"] == 1 and not c["tiny"]:
        M = M.astype(int)
    return M


@R.law(weighted(), 250, 6000, rule="three or more nodes, some edge",
       nontrivial=lambda c: c["n"] > 2 and any(c["v"]), shards=3)
def graph_of_matrix(c, note):
    M = matrix(c)
    n = c["n"]
    A = vary(M, c["lay"])
    if c["as"] != "array":
        T = {"digraph": nx.DiGraph, "multidi": nx.MultiDiGraph,
             "multi": nx.MultiGraph}.get(c["as"], nx.Graph)
        both = T in (nx.DiGraph, nx.MultiDiGraph)
        if not both:
            M = np.triu(M) + np.triu(M, 1).T
        A = T()
        names = ["n%d" % i if c["as"] != "numbers" else 3 * n - 2 * i
                 for i in range(n)]
        A.add_nodes_from(names)
        for i in range(n):
            for j in range(n):
                if M[i, j] and (both or i <= j):
                    if c["as"] in ("multi", "multidi"):
                        e = [names[i], names[j]]
                        A.add_edge(*e, weight=M[i, j] / 2)
                        A.add_edge(*(e if both else e[::-1]),
                                   weight=M[i, j] / 2)
                    else:
                        A.add_edge(names[i], names[j], weight=M[i, j])
    D = maxabs(M - M.T)
    if 0 < D < .01:
        return  # symmetric or not is a matter of tolerance
    kw = {} if c["title"] is None else {"title": c["title"]}
    directed = D > 0
    off = [(i, j) for i in range(n) for j in range(n) if i != j and M[i, j]]
    match = off[:c["match"]]
    if not directed and c["turn"]:
        match = [(j, i) for i, j in match]
    if c["turn"] == 2:
        match = [list(e) for e in match]
    if match:
        kw["matching"] = match
    with Shown() as shown:
        G = ff.plot_graph_with_edge_weights(A, **kw)
    need(isinstance(G, nx.Graph) and not G.is_multigraph(), "no graph returned")
    need(G.is_directed() == directed, "directed" if G.is_directed()
         else "undirected")
    need(sorted(G.nodes) == list(range(n)), "nodes %s", list(G.nodes))
    want = {}
    for i in range(n):
        for j in range(n):
            if M[i, j] and (directed or i < j):
                want[i, j] = M[i, j]
    got = {}
    for i, j, w in G.edges(data="weight"):
        got[(i, j) if directed or i < j else (j, i)] = w
    need(set(got) == set(want), "edges %s", sorted(set(got) ^ set(want)))
    for e in want:
        need(abs(got[e] - want[e]) <= 5.001e-5 + 1e-15 * abs(want[e]), "edge %s weighs %s, not %s", e,
             got[e], want[e])
        x = got[e] * 1e4
        need(abs(x - round(x)) < 1e-6 + 1e-15 * abs(x), "%s is not rounded to four decimals",
             got[e])
    need(len(shown.axes) == 1, "shown %d times", len(shown.axes))
    ax = shown.axes[0]
    need(ax.get_title() == (c["title"] or "Graph A with Edge Weights"),
         "title %r", ax.get_title())
    P = node_points(ax, n)
    if n > 1:
        L = lines(ax, P)
        grey = {(i, j) if directed else (min(i, j), max(i, j))
                for i, j, red, _ in L if not red and i != j}
        # loops may be drawn as closed curves; look at proper edges
        need(grey == {e for e in want if e[0] != e[1]}, "edges drawn: %s",
             sorted(grey))
        reds = {frozenset((i, j)) for i, j, red, _ in L if red}
        need(reds == {frozenset(e) for e in match}, "highlighted: %s", reds)
        texts = [t.get_text() for t in ax.texts]
        for e, w in got.items():
            if e[0] != e[1]:
                need(str(w) in texts, "weight %s is not written", w)
        need({str(i) for i in range(n)} <= set(texts), "node labels missing")
    note("%s, %s" % (c["as"], "directed" if directed else "undirected"))


# ----- planar embedding ----------------------------------------------------

def crossing(p, q, r, s):
    def side(a, b, c):
        return float((b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0])
    d1, d2 = side(p, q, r), side(p, q, s)
    d3, d4 = side(r, s, p), side(r, s, q)
    return d1 * d2 < -1e-12 and d3 * d4 < -1e-12


@R.law(st.tuples(st.one_of(graphs.planar(9), graphs.planar(24)), st.booleans(), pick((None, "Title")),
                 st.integers(0, 10 ** 6)), 150, 3000,
       rule="an oriented graph with four or more nodes",
       nontrivial=lambda c: c[1] and c[0]["n"] > 3, shards=4)
def planar_embedding(c, note):
    g, oriented, title, seed = c
    G = graphs.build(g)
    n = len(G)
    if not G.edges:
        return
    nodes = list(G)
    pos = {v: i for i, v in enumerate(nodes)}
    A = np.zeros((n, n))
    rng = np.random.default_rng(seed)
    for u, v in G.edges:
        i, j = pos[u], pos[v]
        A[i, j] = rng.choice([-1, -1, 1, 1, 0]) * (1 + rng.integers(3))
        A[j, i] = -A[i, j]
    if seed % 3 == 0:
        A = np.asarray(ff.pfo_algorithm(G))
    with Shown() as shown:
        if oriented:
            ff.plot_planar_embedding(G, pfo=A, title=title)
        else:
            ff.plot_planar_embedding(G, title=title)
    need(len(shown.axes) == 1, "shown %d times", len(shown.axes))
    ax = shown.axes[0]
    if title:
        need(ax.get_title() == title, "title %r", ax.get_title())
    elif oriented:
        need(ax.get_title() == "Planar Embedding with Oriented Faces",
             "title %r", ax.get_title())
    P = node_points(ax, n)
    d = np.abs(P[:, None] - P[None]).max(axis=2)
    need(np.all(d[~np.eye(n, dtype=bool)] > 1e-9), "two nodes coincide")
    at = labels_at(ax, P)
    need(at == {i: str(v) for i, v in enumerate(nodes)}, "labels %s", at)
    L = lines(ax, P)
    E = {frozenset((pos[u], pos[v])) for u, v in G.edges}
    grey = {frozenset((i, j)) for i, j, red, _ in L if not red}
    need(grey == E, "edges drawn: %s", sorted(map(sorted, grey ^ E)))
    es = [sorted(e) for e in E]
    for a in range(len(es)):
        for b in range(a):
            if not set(es[a]) & set(es[b]):
                need(not crossing(P[es[a][0]], P[es[a][1]], P[es[b][0]],
                                  P[es[b][1]]), "edges cross")
    red = sorted((i, j) for i, j, r, _ in L if r)
    want = []
    if oriented:
        for i, j in es:
            if A[i, j] < 0:
                want.append((i, j))
            elif A[i, j] > 0:
                want.append((j, i))
    need(red == sorted(want), "orientation drawn %s instead of %s", red,
         sorted(want))
    need(all(ar for _, _, r, ar in L if r), "an oriented edge has no arrow")
    note(g["lab"] + (", oriented" if oriented else ""))


# ----- populations ---------------------------------------------------------

@R.law(st.tuples(st.one_of(any_state(1, 4), any_state(
    5, 6, kinds=("few", "pure", "rank2", "pdf"), styles=("gauss",))), st.booleans(), pick((None, "x", "my state",
                                                       ""))), 200, 5000,
       rule="two or more qubits, not a basis state",
       nontrivial=lambda c: is_nontrivial(c[0]), shards=3)
def populations(c, note):
    s, stem, name = c
    drawn_populations(dm(s), given(s), stem, name, s["n"] % 2)
    note("stem" if stem else "lines")


@R.law(fixed({"d": st.integers(1, 14), "seed": seeds, "kind": pick((
    "pure", "mixed", "pdf", "diag")), "stem": st.booleans(),
    "as": pick(DRESS)}), 40, 1000, rule="dimension is not a power of two",
    nontrivial=lambda c: c["d"] & (c["d"] - 1), shards=2)
def populations_of_any_dimension(c, note):
    d, rng = c["d"], np.random.default_rng(c["seed"])
    X = rng.standard_normal((d, d)) + 1j * rng.standard_normal((d, d))
    X = X / np.linalg.norm(X)
    rho = herm(X @ X.conj().T)
    x = rho
    if c["kind"] == "pure":
        x = X[:, 0] / np.linalg.norm(X[:, 0])
        rho = np.outer(x, x.conj())
    elif c["kind"] != "mixed":
        rho = np.diag(np.diag(rho))
        x = np.diag(rho).real if c["kind"] == "pdf" else rho
    drawn_populations(rho, dressed(x, c["as"]), c["stem"], "d")


def drawn_populations(rho, x, stem, name, default=False):
    plt.close("all")
    kw = {} if name is None else {"name": name}
    if stem and default:
        out = ff.analyze_pdf(x, **kw)
    else:
        out = ff.analyze_pdf(x, stem=stem, **kw)
    need(out is None, "returned %r", out)
    need(len(plt.get_fignums()) == 1, "%d figures", len(plt.get_fignums()))
    ax = plt.gca()
    if stem:
        from matplotlib.container import StemContainer
        cs = [k for k in ax.containers if isinstance(k, StemContainer)]
        need(len(cs) == 2, "%d stem plots", len(cs))
        ls = [k.markerline for k in cs]
        names = [k.get_label() for k in cs]
    else:
        ls = [l for l in ax.lines]
        need(len(ls) == 2, "%d lines", len(ls))
        names = [l.get_label() for l in ls]
    d = len(rho)
    for l in ls:
        close(np.asarray(l.get_xdata(), dtype=float), np.arange(d), "index", 0)
    y = [np.asarray(l.get_ydata()) for l in ls]
    need(all(maxabs(np.imag(v)) < 1e-6 for v in y), "complex populations")
    close(y[0].real.astype(float), np.diag(rho).real, "diagonal", 1.1e-6)
    w = np.linalg.eigvalsh(rho)[::-1]
    close(y[1].real.astype(float), w, "eigenvalues, descending", 1.1e-6)
    for v, t in ((y[0], np.diag(rho).real), (y[1], w)):
        gone = np.abs(v[np.abs(t) < 1e-12])
        need(not np.any(gone > 0), "%s drawn for a vanishing population", gone)
    need(ax.get_yscale() == "log", "axis not logarithmic")
    need(ax.get_xscale() == "linear", "index axis not linear")
    title = "Population analysis"
    if name is not None:
        title += " of " + name
    need(ax.get_title() == title, "title %r", ax.get_title())
    leg = ax.get_legend()
    need(leg is not None and len(leg.get_texts()) == 2, "legend")
    need([t.get_text() for t in leg.get_texts()] == names, "legend texts")
    need("eig" in names[1] and "diag" in names[0], "legend names %s", names)
