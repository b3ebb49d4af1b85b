import random

import networkx as nx

from common import *

R = Registry("C27")
RS = ff.ff_random_states

# name -> f(n, seed keyword arguments)
GEN = {
    "rotation": lambda n, **k: ff.random_FF_rotation(n, **k),
    "rotation H": lambda n, **k: ff.random_FF_rotation(n, returnH=True, **k),
    "rotation orb": lambda n, **k: ff.random_FF_rotation(n, returnOrb=True,
                                                         **k),
    "thermal": lambda n, **k: ff.random_FF_state(n, **k),
    "thermal H": lambda n, **k: ff.random_FF_state(n, returnH=True, **k),
    "thermal N": lambda n, **k: ff.random_FF_state(n, fixedN=True, **k),
    "thermal N H": lambda n, **k: ff.random_FF_state(n, fixedN=True,
                                                     returnH=True, **k),
    "pure": lambda n, **k: ff.random_FF_state(n, pure=True, **k),
    "pure H": lambda n, **k: ff.random_FF_state(n, pure=True, returnH=True,
                                                **k),
    "generator": lambda n, **k: ff.random_H_generator(n, **k),
    "generator N": lambda n, **k: ff.random_H_generator(n, fixedN=True, **k),
    "qubit": lambda n, **k: RS.random_qubit_state(n, **k),
    "qubit pure": lambda n, **k: ff.random_qubit_pure_state(n, **k),
    "randH": lambda n, **k: ff.random_FF_state_randH(n, **k),
    "rotPDF": lambda n, **k: ff.random_FF_state_rotPDF(n, **k),
    "rotPDF S": lambda n, **k: ff.random_FF_state_rotPDF(n, returnS=True, **k),
    "W0": lambda n, **k: ff.random_FF_pure_state_W0(n, **k),
    "WN": lambda n, **k: ff.random_FF_pure_state_WN(n, **k),
    "WN 1": lambda n, **k: ff.random_FF_pure_state_WN(n, N=1, **k),
    "WN all": lambda n, **k: ff.random_FF_pure_state_WN(n, N=n, **k),
    "CN": lambda n, **k: ff.random_FF_pure_state_CN(n, **k),
    "planar": lambda n, **k: ff.generate_random_planar_graph(n + 7, **k),
    "planar large": lambda n, **k: ff.generate_random_planar_graph(4 * n + 8,
                                                                   **k),
    "planar small": lambda n, **k: ff.generate_random_planar_graph(n, **k),
}
UNSEEDED = {
    "bits": lambda n: ff.generate_random_bitstring(12 * n, 6 * n),
}
PLANAR = ("planar", "planar large", "planar small")
NAMES = sorted(GEN)
EDGE = (0, 1, 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1)
any_seed = st.one_of(st.integers(0, 50), pick(EDGE),
                     st.integers(0, 2 ** 32 - 1))
names = pick(NAMES)


def value(x):
    """a comparable form of what a generator returned: list of arrays"""
    if x is None:
        return None
    if isinstance(x, nx.Graph):
        e = sorted(tuple(sorted(map(int, e))) for e in x.edges)
        return [np.array(sorted(map(int, x.nodes))), np.array(e, dtype=float)]
    if isinstance(x, tuple):
        return [np.asarray(y) for y in x]
    return [np.asarray(x)]


def same(a, b):
    return a is b or (a is not None and b is not None and len(a) == len(b)
                      and all(x.shape == y.shape and maxabs(x - y) <= 1e-9
                              for x, y in zip(a, b)))


sizes = pick([1, 2, 2, 3, 3, 4, 5])
step = st.one_of(
    st.tuples(names, sizes, st.integers(0, 3)),  # which seed
    st.tuples(names, sizes, st.integers(0, 3)),
    st.tuples(names, sizes, st.just(-1)),  # unseeded
    st.tuples(st.just("global"), st.integers(0, 100), st.just(0)))


@R.law(st.tuples(st.lists(any_seed, min_size=4, max_size=4),
                 st.lists(step, min_size=2, max_size=12),
                 st.lists(st.integers(0, 11), max_size=6)), 250, 6000,
       rule="a seeded call is repeated after other calls",
       nontrivial=lambda c: any(c[1][i % len(c[1])][2] >= 0 and
                                c[1][i % len(c[1])][0] != "global"
                                for i in c[2]), shards=4)
def reproducible_in_any_history(c, note):
    seeds4, steps, again = c
    first = {}
    for f, n, k in steps + [steps[i % len(steps)] for i in again]:
        if f == "global":
            np.random.seed(n)
            random.seed(n)
        elif k < 0:
            GEN[f](n)
        else:
            v = value(GEN[f](n, seed=seeds4[k]))
            key = (f, n, seeds4[k])
            if key in first:
                need(same(first[key], v), "%s(%d, seed=%d) gives another "
                     "object the second time", *key)
                note("repeated")
            else:
                first[key] = v


@R.law(st.tuples(names, sizes, any_seed, st.integers(0, 5)), 250,
       6000, rule="always (a seeded call in two states of the generators)")
def reproducible(c, note):
    f, n, seed, mess = c
    a = value(GEN[f](n, seed=seed))
    np.random.seed(mess)
    random.seed(mess)
    for _ in range(mess):
        np.random.standard_normal(3)
        random.random()
    b = value(GEN[f](n, seed=seed))
    need(same(a, b), "%s(%d, seed=%d) is not reproducible", f, n, seed)
    # the same call several times in a row
    for _ in range(2):
        need(same(a, value(GEN[f](n, seed=seed))), "%s(%d, seed=%d) is not "
             "reproducible in a row", f, n, seed)
    if f not in PLANAR:
        c_ = value(GEN[f](n, seed=np.int64(seed)))
        need(same(a, c_), "%s: the seed as a numpy integer", f)
    note(f)


@R.law(st.tuples(pick([f for f in NAMES if f != "planar small"]), any_seed,
                 pick([2, 2, 3, 4])), 150, 1500, rule="always (33 or more seeds per case)", shards=4)
def seed_sensitive(c, note):
    f, s, n = c
    ss = [s] + [s ^ (1 << b) for b in range(32)]
    ss += [x for x in (s + 1000, s - 1000, s + 1, s + 100) if 0 <= x < 2 ** 32]
    ss = sorted(set(ss))
    vals = [value(GEN[f](n, seed=x)) for x in ss]
    clash = 0
    for i in range(len(ss)):
        for j in range(i):
            if same(vals[i], vals[j]):
                need(f in PLANAR, "%s gives the same object for seeds %d "
                     "and %d", f, ss[j], ss[i])
                clash += 1
    # graphs are discrete: two seeds may agree by chance, many may not
    need(clash <= 8, "random planar graphs: %d coincidences among %d seeds",
         clash, len(ss))
    note(f)


@R.law(st.tuples(pick(NAMES + sorted(UNSEEDED)), st.integers(2, 4),
                 st.integers(0, 2 ** 32 - 1), names, st.booleans()), 200, 5000,
       rule="always (a series of unseeded calls)", shards=2)
def unseeded(c, note):
    f, n, seed, g, warm = c
    if f == "planar small":
        f = "planar"
    fn = GEN.get(f) or UNSEEDED[f]

    def series():
        np.random.seed(seed)
        random.seed(seed)
        if warm:
            GEN[g](n)
        return [value(fn(n)) for _ in range(6)]
    a, b = series(), series()
    for x, y in zip(a, b):
        need(same(x, y), "%s: unseeded calls do not follow the global "
             "generators", f)
    eq = sum(same(a[i], a[j]) for i in range(6) for j in range(i))
    need(eq <= (2 if f in PLANAR + ("bits",) else 0),
         "%s: unseeded calls repeat themselves", f)
    # a seeded call in between may reset the generators, but only to
    # something that depends on its own seed
    np.random.seed(1)
    random.seed(1)
    GEN[g](n, seed=seed)
    u = value(fn(n))
    GEN[g](n, seed=(seed + 1) % 2 ** 32)
    v = value(fn(n))
    if f not in PLANAR + ("bits",):
        need(not same(u, v), "%s after differently seeded %s", f, g)
    note(f)
