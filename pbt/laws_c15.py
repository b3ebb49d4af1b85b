from common import *
from graphs import *

R = Registry("C15")


@st.composite
def simple_graph(draw, n_max=10, e_max=16, nonplanar=False):
    if nonplanar:
        base = draw(pick(("k5", "k33", "petersen", "k6", "k5sub")))
        G = {"k5": nx.complete_graph(5), "k33": nx.complete_bipartite_graph(3, 3),
             "petersen": nx.petersen_graph(), "k6": nx.complete_graph(6),
             "k5sub": nx.Graph([(i, j) for i in range(5) for j in range(i)
                                if (i, j) != (1, 0)] + [(0, 5), (5, 1)])}[base]
        n, e = len(G), list(G.edges)
        for _ in range(draw(st.integers(0, 4))):
            if n >= n_max:
                break
            a = draw(st.integers(0, n - 1))
            e.append((a, n))
            if draw(st.booleans()):
                e.append((draw(st.integers(0, n - 1)), n))
            n += 1
    else:
        n = draw(st.integers(0, n_max))
        pairs = list(itertools.combinations(range(n), 2))
        e = draw(st.lists(pick(pairs), max_size=e_max, unique=True)) if pairs else []
        if n % 2 == 0 and n and draw(st.booleans()):
            p = draw(st.permutations(list(range(n))))
            e = [(p[k], p[k + 1]) for k in range(0, n, 2)] + e[:e_max - n // 2]
    c = {"n": n, "e": sorted({tuple(sorted(x)) for x in e}), "w": None}
    if draw(st.booleans()):
        c["w"] = draw(st.lists(st.integers(1, 12), min_size=len(c["e"]),
                               max_size=len(c["e"])))
    return relabelled(draw, c)


def ids(c):
    return {label(c, i): i for i in range(c["n"])}


def nt(c):
    return c["n"] >= 4 and n_match(c) > 0


@R.law(simple_graph(), 250, 6000, rule="4+ nodes with a perfect matching",
       nontrivial=nt, shards=2)
def enumeration(c, note):
    G = build(c)
    got = ff.find_perfect_matchings_brute(G)
    if c["n"] == 0:
        need(len(got) <= 1, "empty graph")
        return
    name = ids(c)
    found = [frozenset(frozenset(name[x] for x in e) for e in m) for m in got]
    need(len(found) == len(set(found)), "a matching is listed twice")
    for m in got:
        need(all(G.has_edge(*e) for e in m), "not an edge of the graph")
    want = ref.all_matchings(c["n"], c["e"])
    need(set(found) == want, "%d matchings instead of %d", len(found),
         len(want))
    note("%d matchings" % min(len(want), 5))


@st.composite
def big(draw):
    n = draw(pick((12, 13, 14, 14, 15)))
    e = [(i, i + 1) for i in range(n - 1)]
    ex = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)),
                       max_size=5))
    c = {"n": n, "e": sorted({tuple(sorted(x)) for x in e + [
        x for x in ex if x[0] != x[1]]}), "w": None}
    return relabelled(draw, c)


@R.law(big(), 10, 200, rule="even number of nodes",
       nontrivial=lambda c: c["n"] % 2 == 0, shards=2)
def enumeration_up_to_fifteen(c, note):
    got = ff.find_perfect_matchings_brute(build(c))
    name = ids(c)
    found = [frozenset(frozenset(name[x] for x in e) for e in m) for m in got]
    need(len(found) == len(set(found)), "a matching is listed twice")
    need(set(found) == ref.all_matchings(c["n"], c["e"]), "matchings")


@st.composite
def dense(draw, n=None):
    """few pairs of nodes are not joined"""
    n = draw(st.integers(4, 8) if n is None else n)
    pairs = list(itertools.combinations(range(n), 2))
    out = draw(st.lists(pick(pairs), max_size=n, unique=True))
    c = {"n": n, "e": [e for e in pairs if e not in out], "w": None}
    if draw(st.booleans()):
        c["w"] = draw(st.lists(st.integers(1, 12), min_size=len(c["e"]),
                               max_size=len(c["e"])))
    return relabelled(draw, c)


@R.law(dense(), 60, 1500, rule="4+ nodes with a perfect matching",
       nontrivial=nt, shards=2)
def dense_enumeration(c, note):
    enumeration(c, note)
    nonplanar_count(c, note)


@R.law(dense(pick((9, 10, 10))), 2, 12, rule="4+ nodes with a perfect matching",
       nontrivial=nt, shards=2)
def densest_enumeration(c, note):
    dense_enumeration(c, note)


@R.law(simple_graph(10, nonplanar=True), 120, 2500,
       rule="4+ nodes with a perfect matching", nontrivial=nt, shards=3)
def nonplanar_count(c, note):
    got = ff.count_perfect_matchings(build(c))
    want = n_match(c)
    need(abs(got - want) <= 1e-9 * want + 1e-13, "%s instead of %s", got, want)
    note("weighted" if c["w"] else "unweighted")


@R.law(planar(8, weights=False), 150, 3000,
       rule="4+ nodes with a perfect matching", nontrivial=nt, shards=2)
def orientation_agrees_with_enumeration(c, note):
    G = build(c)
    if len(c["e"]) > 18:
        return
    k = len(ff.find_perfect_matchings_brute(G))
    got = ff.count_perfect_matchings_planar(G)
    need(abs(complex(got) - k) <= tolerance(c, k) + 1e-9 * k, "%s but %d listed",
         got, k)
