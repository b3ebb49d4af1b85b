import networkx as nx

from common import *
from forms import any_state, given

R = Registry("C30")
RS = ff.ff_random_states
GENS = {
    "qubit": lambda n, **k: RS.random_qubit_state(n, **k),
    "qubit pure": lambda n, **k: ff.random_qubit_pure_state(n, **k),
    "CHP": lambda n, **k: ff.random_CHP_state(n),
    "randH": lambda n, **k: ff.random_FF_state_randH(n, **k),
    "rotPDF": lambda n, **k: ff.random_FF_state_rotPDF(n, **k),
    "rotPDF S": lambda n, **k: ff.random_FF_state_rotPDF(n, returnS=True, **k),
    "W0": lambda n, **k: ff.random_FF_pure_state_W0(n, **k),
    "WN": lambda n, **k: ff.random_FF_pure_state_WN(n, **k),
    "WN 0": lambda n, **k: ff.random_FF_pure_state_WN(n, N=0, **k),
    "CN": lambda n, **k: ff.random_FF_pure_state_CN(n, **k),
    "pauli": lambda n, **k: ff.generate_pauli_group(n),
    "pauli verbose": lambda n, **k: ff.generate_pauli_group(n, verbose=True),
}
name = pick(sorted(GENS))
# not integers, as [kind, value]
NONINT = st.one_of(
    st.tuples(st.just("float"), st.integers(-4, 12)),
    st.tuples(st.just("str"), st.integers(-2, 5)),
    st.tuples(st.just("complex"), st.integers(-2, 5)),
    st.tuples(st.just("list"), st.integers(-2, 5)),
    st.tuples(st.just("tuple"), st.integers(-2, 5)),
    st.tuples(st.just("array"), st.integers(-2, 5)),
    st.tuples(st.just("float array"), st.integers(-2, 5)),
    st.tuples(st.just("npfloat"), st.integers(-2, 5)),
    st.tuples(st.just("none"), st.just(0)),
    st.tuples(st.just("dict"), st.just(0)),
    st.tuples(st.just("nan"), st.just(0)),
    st.tuples(st.just("inf"), st.just(0)))


def nonint(c):
    k, v = c
    return {"float": v / 2, "str": str(v), "complex": complex(v),
            "list": [v], "tuple": (v,), "array": np.array([v]),
            "float array": np.array(v / 2), "npfloat": np.float64(v / 2),
            "none": None, "dict": {v: v}, "nan": math.nan,
            "inf": math.inf}[k]


def raises(kinds, f, what):
    try:
        f()
    except kinds:
        return
    except Exception as e:
        raise Violation("%s: %s instead of %s" % (
            what, type(e).__name__, "/".join(k.__name__ for k in kinds)))
    raise Violation(what + ": accepted")


@R.law(st.tuples(name, NONINT, st.sampled_from((None, 0, 7))), 400, 6000,
       rule="a whole number of the wrong type, or a number",
       nontrivial=lambda c: c[1][0] not in ("none", "dict"))
def non_integer_refused(c, note):
    f, bad, seed = c
    raises((TypeError,), lambda: GENS[f](nonint(bad), seed=seed),
           "%s(%r)" % (f, nonint(bad)))
    note(f)


@R.law(st.tuples(name, st.one_of(st.integers(-5, 0), st.integers(-10 ** 20, 0)),
                 st.sampled_from((None, 0, 7))), 300, 4000,
       rule="zero or a small negative number",
       nontrivial=lambda c: c[1] > -10)
def non_positive_refused(c, note):
    f, n, seed = c
    raises((ValueError,), lambda: GENS[f](n, seed=seed), "%s(%d)" % (f, n))
    note(f)


@R.law(st.tuples(st.integers(1, 4), st.integers(-6, 12),
                 st.sampled_from((None, 0, 7)), st.booleans()), 250, 4000,
       rule="next to the allowed range",
       nontrivial=lambda c: c[1] in (-1, c[0] + 1))
def particle_number(c, note):
    n, N, seed, kw = c

    def f():
        if kw:
            return ff.random_FF_pure_state_WN(n_sites=n, N=N, seed=seed)
        return ff.random_FF_pure_state_WN(n, N, seed)
    if 0 <= N <= n:
        x = np.asarray(f())
        need(x.shape == (2 ** n, 1), "valid particle number %d", N)
        return note("valid")
    raises((ValueError,), f, "%d particles on %d sites" % (N, n))
    note("invalid")


@R.law(st.tuples(st.integers(1, 4), st.one_of(
    st.integers(-2, 12).map(lambda k: k / 2), pick(("1", "", "0")),
    st.lists(st.integers(0, 2), max_size=2)), st.sampled_from((None, 0, 7))),
    60, 1000, rule="a whole number as a float",
    nontrivial=lambda c: isinstance(c[1], float) and c[1] == int(c[1]))
def particle_number_not_an_integer(c, note):
    n, N, seed = c
    raises((ValueError, TypeError),
           lambda: ff.random_FF_pure_state_WN(n, N, seed), "%r particles" % (N,))


@R.law(st.tuples(name, st.integers(1, 4), st.one_of(
    st.none(), st.integers(0, 2 ** 32 - 1))), 200, 3000,
    rule="two or more sites", nontrivial=lambda c: c[1] > 1)
def valid_accepted(c, note):
    f, n, seed = c
    x = GENS[f](n, seed=seed)
    need(x is not None, "%s(%d) returned nothing", f, n)
    note(f)


BADPLOT = st.one_of(
    st.tuples(st.just("type"), pick(("None", "int", "float", "str", "dict",
                                     "set", "object"))),
    st.tuples(st.just("empty"), pick(("array", "list", "2d", "nested"))),
    st.tuples(st.just("vector"), array((4,))),
    st.tuples(st.just("column"), array((4, 1))),
    st.tuples(st.just("listvec"), array((2,))),
    st.tuples(st.just("notsquare"), array((2, 4))),
    st.tuples(st.just("trace"), array((4, 4))),
    st.tuples(st.just("nonherm"), array((4, 4))),
    st.tuples(st.just("negative"), array((4, 4))))


@R.law(st.tuples(BADPLOT, st.booleans()), 300, 4000,
       rule="an array that is not a state", nontrivial=lambda c: c[0][0] not in
       ("type", "empty"))
def population_plot_refuses(c, note):
    (k, v), stem = c

    def f(x):
        return lambda: ff.analyze_pdf(x, stem=stem)
    if k == "type":
        x = {"None": None, "int": 1, "float": 1.0, "str": "10", "dict": {0: 1},
             "set": {1}, "object": object()}[v]
        raises((TypeError,), f(x), "plot of %r" % (x,))
    elif k == "empty":
        x = {"array": np.array([]), "list": [], "2d": np.zeros((0, 0)),
             "nested": [[]]}[v]
        raises((ValueError,), f(x), "plot of an empty array")
    elif k in ("vector", "column", "listvec"):
        x = arr(v)
        if min(abs(np.linalg.norm(x) - 1), abs(np.abs(x).sum() - 1)) < 1e-2:
            return
        raises((ValueError,), f(x.tolist() if k == "listvec" else x),
               "plot of an unnormalised vector")
    elif k == "notsquare":
        raises((ValueError,), f(arr(v)), "plot of a 2x4 array")
    else:
        X = arr(v)
        r = X @ X.conj().T + np.eye(4)
        r = r / np.trace(r)
        if k == "trace":
            r = r * (1.5, .5, 2, -1)[X.size % 4]
        elif k == "nonherm":
            r[0, 3] += .3
            r[1, 2] += .2j
        else:
            r = r - np.eye(4) / 4
            r = 3 * r + np.eye(4) / 4
            if np.linalg.eigvalsh(herm(r)).min() > -1e-3:
                return
        raises((ValueError, AssertionError), f(r), "plot of a non-state")
    note(k)


@R.law(st.tuples(any_state(1, 3), st.booleans(), st.booleans()), 60, 600,
       rule="two or more qubits", nontrivial=lambda c: c[0]["n"] > 1)
def population_plot_accepts(c, note):
    s, stem, named = c
    need(ff.analyze_pdf(given(s), *(("a state",) if named else ()),
                        stem=stem) is None, "returned something")
    note(s["kind"])


@R.law(st.tuples(st.integers(1, 4), st.integers(1, 20), st.booleans(), seeds),
       300, 4000, rule="a size other than the two valid ones",
       nontrivial=lambda c: c[1] not in (2 * c[0], 2 ** c[0]))
def gaussian_state_size(c, note):
    n, d, own, seed = c
    X = unitary(np.random.default_rng(seed), d)
    H = X + X.conj().T
    if d in (2 * n, 2 ** n):
        rng = np.random.default_rng(seed)
        A, B = herm(rng.standard_normal((n, n))), skew(
            rng.standard_normal((n, n)))
        H = ref.H_of(A, B)
        if d == 2 ** n and d != 2 * n:
            H = ref.lift(H, ref.ladder(n))
    a = (ref.ladder(n),) if own else ()
    got = ff.generate_gaussian_state(n, H, *a)
    if d in (2 * n, 2 ** n):
        need(np.shape(got) == (2 ** n, 2 ** n), "valid size refused")
        return note("valid")
    need(np.ndim(got) == 0 and got == 0, "size %d for %d sites accepted", d, n)
    note("invalid")


@R.law(st.tuples(st.integers(1, 3), st.integers(0, 9), st.booleans(), seeds,
                 st.booleans()), 250, 3000,
       rule="smaller than the operator list",
       nontrivial=lambda c: 0 < c[1] < 2 * c[0])
def rotation_size(c, note):
    n, d, left, seed, verbose = c
    C = unitary(np.random.default_rng(seed), d) if d else np.zeros((0, 0))
    ops = ref.ladder(n)
    if d > len(ops):
        return
    got = ff.rotate_operators(C, ops, Left=left, verbose=verbose)
    if d < len(ops):
        need(np.ndim(got) == 0 and not isinstance(got, (list, tuple))
             and got == 0, "a %dx%d matrix for %d operators", d, d, len(ops))
        return note("too small")
    need(len(got) == len(ops), "valid rotation refused")
    note("valid")


@R.law(st.tuples(pick(("tree", "clean", "linear", "trace1", "trace2",
                       "planar")), st.integers(2, 9), st.integers(2, 9)),
       250, 3000, rule="always")
def other_refusals(c, note):
    k, a, b = c
    if k == "tree":
        G = (nx.cycle_graph(a + 1) if b % 2 else
             nx.disjoint_union(nx.path_graph(a), nx.path_graph(b)))
        raises((ValueError,), lambda: ff.compute_tree_depth(G),
               "depth of a graph that is no tree")
    elif k == "clean":
        x = [None, {1: 2}, (1.0, 2.0), {1.0}, object()][b % 5]
        raises((TypeError,), lambda: ff.clean(x), "cleaning %r" % (x,))
    elif k == "linear":
        d = a * b if b % 3 else (3 * a + b) ** 2 + (0, 1, -1)[a % 3]
        p = np.ones(d) / d
        if math.isqrt(d) ** 2 == d:
            need(math.isfinite(ff.linear_entropy(p)), "a valid length refused")
        else:
            raises((AssertionError,), lambda: ff.linear_entropy(p),
                   "linear entropy of length %d" % d)
    elif k in ("trace1", "trace2"):
        f = ff.partial_trace_over_1 if k == "trace1" else (
            ff.partial_trace_over_2)
        D = a * (1 if b % 2 else b)
        if D % b == 0:
            need(np.shape(f(np.eye(D) / D, b)) == (b, b), "partial trace")
        else:
            raises((AssertionError, ValueError), lambda: f(np.eye(D) / D, b),
                   "partial trace of dimension %d to %d" % (D, b))
    else:
        G = nx.complete_graph(max(a, 5)) if b % 2 else (
            nx.complete_bipartite_graph(3, max(3, a)))
        raises((AssertionError, ValueError, nx.NetworkXException),
               lambda: ff.count_perfect_matchings_planar(G),
               "planar count of a non-planar graph")
    note(k)
