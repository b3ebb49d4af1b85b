from common import *
from graphs import *

R = Registry("C13")


def check_count(f, c, note, what):
    want = n_match(c)
    got = f(build(c))
    tol = tolerance(c, want) + 1e-9 * want if c["n"] % 2 == 0 else 1e-9
    need(np.ndim(got) == 0, "%s is not a number", what)
    need(abs(complex(got) - want) <= tol, "%s: %s instead of %s", what, got,
         want)
    if c["w"] is None and want:
        need(abs(complex(got).imag) <= 1e-6 * want, "%s is not real", what)
    note("zero" if want == 0 else "weighted" if c["w"] else "unweighted")


def nt(c):
    return c["n"] >= 4 and n_match(c) > 0


@R.law(planar(12), 300, 8000, rule="4+ nodes with a perfect matching",
       nontrivial=nt, shards=3)
def small_graphs(c, note):
    check_count(ff.count_perfect_matchings_planar, c, note, "planar count")
    check_count(ff.count_perfect_matchings, c, note, "count")
    note("labels " + c["lab"])
    G = nx.Graph(c["e"])
    G.add_nodes_from(range(c["n"]))
    note("components %d" % min(3, nx.number_connected_components(G)))


@R.law(planar(20, weights=False), 60, 2000,
       rule="4+ nodes with a perfect matching", nontrivial=nt, shards=2)
def medium_graphs(c, note):
    check_count(ff.count_perfect_matchings, c, note, "count")


@R.law(big_planar(), 40, 1500, rule="has a perfect matching",
       nontrivial=lambda c: n_match(c) > 0, shards=2)
def large_graphs(c, note):
    """triangulations, grids with diagonals and cut vertices, up to 60 nodes"""
    check_count(ff.count_perfect_matchings, c, note, "count")
    note("%s, %d+ nodes" % (c["big"], c["n"] // 10 * 10))


@st.composite
def lattices(draw):
    kind = draw(pick(("grid", "grid", "hex", "tri", "prism", "ladder",
                      "wheel")))
    if kind == "grid":
        a, b = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    elif kind in ("hex", "tri"):
        a, b = draw(st.integers(1, 3)), draw(st.integers(1, 5))
    else:
        a, b = draw(st.integers(2, 9)), draw(st.integers(2, 9))
    n, e = lattice(kind, a, b)
    drop = draw(st.lists(st.integers(0, 10**3), max_size=4))
    for k in drop:
        if e:
            e.pop(k % len(e))
    return relabelled(draw, {"n": n, "e": e, "w": None, "lat": kind})


@R.law(lattices(), 60, 1500, rule="has a perfect matching",
       nontrivial=lambda c: n_match(c) > 0, shards=2)
def lattice_graphs(c, note):
    check_count(ff.count_perfect_matchings_planar, c, note, "planar count")
    note(c["lat"])
