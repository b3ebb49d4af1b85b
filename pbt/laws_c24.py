from common import *
from forms import any_state, close_to, dm, given, is_nontrivial

R = Registry("C24")


def td(r, s):
    return 0.5 * math.fsum(abs(np.linalg.eigvalsh(herm(r - s))))


@st.composite
def states(draw, k=2, n_min=1, n_max=3, **kw):
    n = draw(st.integers(n_min, n_max))
    out = [draw(any_state(n, n, **kw)) for _ in range(k)]
    if draw(st.integers(0, 3)) == 0:
        out[1] = close_to(draw, *out[:2]) or out[1]
    if draw(st.integers(0, 7)) == 0:
        out[1] = dict(out[0])
    return {"n": n, "s": out, "seed": draw(seeds)}


def nt(c):
    return any(is_nontrivial(s) for s in c["s"])


@R.law(states(), 400, 10000, rule="two or more qubits, not basis states",
       nontrivial=nt, shards=2)
def definition(c, note):
    (r, x), (s, y) = ((dm(t), given(t)) for t in c["s"])
    got = ff.trace_distance(x, y)
    need(np.ndim(got) == 0 and not np.iscomplexobj(got), "not a real number")
    got = float(got)
    need(abs(got - td(r, s)) < 1e-7, "%.9g instead of %.9g", got, td(r, s))
    need(-1e-9 <= got <= 1 + 1e-7, "bounds")
    need(abs(float(ff.trace_distance(y, x)) - got) < 1e-7, "symmetric")
    need(float(ff.trace_distance(x, x)) < 1e-9, "distance to itself")
    tv = float(ff.total_variation_distance(x, y))
    need(tv <= got + 1e-7, "below the total variation of the diagonals")
    kinds = [t["kind"] for t in c["s"]]
    if all(k in ("pdf", "diag", "basis", "maxmix") for k in kinds):
        need(abs(tv - got) < 1e-7, "diagonal states: not the total variation")
        note("diagonal")
    if kinds == ["pure", "pure"]:
        f = abs(np.vdot(psi_of(c["s"][0]), psi_of(c["s"][1]))) ** 2
        need(abs(got - math.sqrt(max(0, 1 - f))) < 1e-6, "pure states")
        note("pure")


@R.law(st.one_of(states(3, 4, 6, styles=("gauss",)), states(
    3, 5, 6, kinds=("few",))), 25, 400, nontrivial=nt,
       rule="not basis states")
def larger_states(c, note):
    definition(dict(c, s=c["s"][:2]), note)
    metric(c, note)


@R.law(states(3), 250, 6000, rule="two or more qubits, not basis states",
       nontrivial=nt)
def metric(c, note):
    x, y, z = (given(t) for t in c["s"])
    a, b, d = (float(ff.trace_distance(*p)) for p in ((x, y), (y, z), (x, z)))
    need(d <= a + b + 1e-9, "triangle inequality: %.9g > %.9g + %.9g", d, a, b)
    r, s = dm(c["s"][0]), dm(c["s"][1])
    U = unitary(np.random.default_rng(c["seed"]), 2 ** c["n"])
    got = float(ff.trace_distance(U @ r @ U.conj().T, U @ s @ U.conj().T))
    need(abs(got - a) < 1e-7, "not unitarily invariant")
    if c["n"] > 1:
        d1 = 2 ** (1 + c["seed"] % (c["n"] - 1))
        d2 = 2 ** c["n"] // d1
        p, q = (np.einsum("ajbj->ab", m.reshape(d1, d2, d1, d2))
                for m in (r, s))
        need(float(ff.trace_distance(p, q)) <= a + 1e-7,
             "increases under partial trace")
        p, q = (np.einsum("iaib->ab", m.reshape(d1, d2, d1, d2))
                for m in (r, s))
        need(float(ff.trace_distance(p, q)) <= a + 1e-7,
             "increases under partial trace")


@st.composite
def odd_case(draw):
    d = draw(pick((2, 3, 3, 5, 6, 7, 9, 10, 12)))
    return {"d": d, "seed": draw(seeds), "kind": [draw(pick((
        "pure", "mixed", "rank2", "diag"))) for _ in range(2)],
        "close": draw(pick((0, 0, 0, 1, 3, 6))), "as": draw(pick(DRESS)),
        "single": draw(pick((False, False, True)))}


@R.law(odd_case(), 150, 4000, rule="dimension is not a power of two",
       nontrivial=lambda c: c["d"] & (c["d"] - 1))
def any_dimension(c, note):
    """states of any dimension, of either precision"""
    d, rng = c["d"], np.random.default_rng(c["seed"])
    xs, rs = [], []
    for kind in c["kind"]:
        k = {"pure": 1, "rank2": min(2, d)}.get(kind, d)
        X = rng.standard_normal((d, k)) + 1j * rng.standard_normal((d, k))
        if kind == "diag":
            X = np.diag(abs(X[:, 0]))
        X = X / np.linalg.norm(X)
        rs.append(herm(X @ X.conj().T))
        xs.append(X[:, 0] if kind == "pure" else rs[-1])
    if c["close"]:
        e = 10.0 ** -c["close"]
        rs[1] = xs[1] = (1 - e) * rs[0] + e * rs[1]
    want, tol = td(*rs), 1e-9
    if c["single"]:
        xs = [x.astype(np.complex64) if x.ndim == 1 else x for x in xs]
        tol = 1e-5
    got = float(ff.trace_distance(*(dressed(x, c["as"]) for x in xs)))
    need(abs(got - want) < tol * (1 + d), "%.9g instead of %.9g", got, want)


@R.law(fixed({"d": st.integers(2, 8), "seed": seeds, "bits": st.integers(0, 255),
              "k": st.floats(2, 7), "pairs": st.integers(1, 4),
              "im": st.booleans()}), 60, 1500, rule="three or more dimensions",
       nontrivial=lambda c: c["d"] > 2)
def small_coherences(c, note):
    """populations differ in some places, coherences a little in any place"""
    d, rng = c["d"], np.random.default_rng(c["seed"])
    p = .05 + rng.dirichlet(np.ones(d))
    q = np.array([.05 + rng.random() if c["bits"] >> i & 1 else p[i]
                  for i in range(d)])
    r, s = (np.diag(x).astype(complex) for x in (p, q))
    for _ in range(c["pairs"]):
        i, j = rng.choice(d, 2, replace=False)
        z = 10.0 ** -c["k"] * rng.standard_normal()
        z = z * (np.exp(2j * np.pi * rng.random()) if c["im"] else 1)
        s[i, j] += z
        s[j, i] += np.conj(z)
    if c["bits"] % 2:  # as far as the populations are concerned, no difference
        s = s * (np.trace(r) / np.trace(s)).real
    r, s = r / np.trace(r).real, s / np.trace(s).real
    got = float(ff.trace_distance(r, s))
    need(abs(got - td(r, s)) < 1e-12, "%.12g instead of %.12g", got, td(r, s))
