from common import *
from laws_c20 import MORE, SIZES, forms, one

R = Registry("C21")
ORDERS = (0, 0.5, 1, 2, 3, 1.0, 0.1, 0.9, 1.1, 1.5, 7, 25.5, 1e-3, 1e-8, 1e-300,
          100, 1e3, 1e6, 1e12, 1e300, "inf", "+1e-4", "-1e-4", "+1e-7",
          "-1e-7", "+1e-10", "-1e-12", "+1e-15", "-1e-15", "+.00999",
          "+.01001", "-.00999", 2.0, .95, .99, .999, 1.01, 1.02, 1.75, 2.5, 4.5, 5,
          8, 12, 60, 300.0, "n2", "n3", "n.5", "n.7")


def order(a):
    if a == "inf":
        return math.inf
    if isinstance(a, str) and a[0] == "n":  # a numpy number
        return np.float64(a[1:]) if "." in a else np.int64(a[1:])
    return 1 + float(a) if isinstance(a, str) else a


def near_one(p, a):
    """Renyi entropy from its Taylor series around order 1"""
    p = np.array([x for x in p if x > 0])
    L = np.log(p)
    e = a - 1
    mean = math.fsum(p * L)
    # log sum p^a = log1p(sum p expm1(e log p))
    return -math.log1p(math.fsum(p * np.expm1(e * L))) / e if e else -mean


def exact(p, a):
    if a != math.inf and 0 < abs(a - 1) < 0.05:
        return near_one(p, a)
    return ref.renyi(p, a)


@st.composite
def entropy_case(draw):
    d = draw(pick(SIZES + (9, 25, 1)))
    c = draw(one(d))
    return {"d": d, "p": c, "a": draw(pick(ORDERS))}


def nt(c):
    return c["p"]["pdf"]["kind"] not in ("delta", "uniform") and c["d"] > 2


@R.law(entropy_case(), 800, 20000, rule="three or more outcomes, not a delta "
       "or uniform", nontrivial=nt, shards=2)
def renyi_definition(c, note):
    p, x = forms(c["p"])
    a = order(c["a"])
    noisy = c["p"]["form"] == "evolved"
    if noisy and a < 0.9:
        note("noisy support")
        return
    got = float(ff.renyi_entropy(x, a))
    want = exact(p, a)
    tol = 1e-6 if noisy else 1e-9
    if c["p"]["form"] in ("psi", "psirow", "rho") and a < .9:
        tol = 1e-6
    need(math.isfinite(got), "order %r: %s", a, got)
    need(abs(got - want) <= tol * (1 + abs(want)), "order %r: %.12g instead "
         "of %.12g", a, got, want)
    note("order %r" % (c["a"],))


@st.composite
def large_case(draw):
    d = draw(pick(MORE))
    return {"d": d, "p": draw(one(d)), "a": draw(pick(ORDERS))}


@R.law(large_case(), 40, 1000, rule="not a delta or uniform distribution",
       nontrivial=nt)
def many_outcomes(c, note):
    renyi_definition(c, note)
    linear(c, note)


@R.law(fixed({"d": st.integers(2, 12), "seed": seeds, "k": st.integers(1, 11),
              "lo": pick((-13.9, -13.5, -12, -9)),
              "a": pick((0,) * 8 + (.01, .1) + ORDERS)}),
       200, 4000, rule="all")
def rare_outcomes(c, note):
    """probabilities over many decades are all counted"""
    rng = np.random.default_rng(c["seed"])
    p = rng.dirichlet(np.ones(c["d"])) + 1e-3
    k = min(c["k"], c["d"] - 1)
    p[:k] = 10.0 ** rng.uniform(c["lo"], -5, k)
    p = rng.permutation(p / p.sum())
    a = order(c["a"])
    got, want = float(ff.renyi_entropy(p, a)), exact(p, a)
    need(abs(got - want) <= 1e-9 * (1 + abs(want)), "order %r: %.12g instead "
         "of %.12g", a, got, want)


@st.composite
def law_case(draw):
    d = draw(pick((2, 3, 4, 5, 8)))
    return {"d": d, "p": draw(pdf((d,))), "q": draw(pdf((2, 3, 4))),
            "a": draw(pick(ORDERS)), "b": draw(pick(ORDERS)),
            "perm": draw(st.permutations(list(range(d)))),
            "pad": draw(st.integers(0, 4))}


@R.law(law_case(), 300, 8000, rule="not a delta or uniform distribution",
       nontrivial=lambda c: c["p"]["kind"] not in ("delta", "uniform"))
def renyi_laws(c, note):
    p, q = pdf_of(c["p"]), pdf_of(c["q"])
    a, b = sorted((order(c["a"]), order(c["b"])))
    Sa, Sb = float(ff.renyi_entropy(p, a)), float(ff.renyi_entropy(p, b))
    e = 1e-9
    k = np.count_nonzero(p)
    for S in (Sa, Sb):
        need(-e <= S <= math.log(k) + e, "bounds: %s", S)
    need(Sb <= Sa + e, "increases from order %r to %r: %s, %s", a, b, Sa, Sb)
    need(abs(float(ff.renyi_entropy(p[c["perm"]], a)) - Sa) < e, "permutation")
    z = np.append(p, np.zeros(c["pad"]))
    need(abs(float(ff.renyi_entropy(z, a)) - Sa) < e, "zero padding")
    prod = np.kron(p, q)
    Sq = float(ff.renyi_entropy(q, a))
    need(abs(float(ff.renyi_entropy(prod, a)) - Sa - Sq) < 1e-8,
         "not additive at order %r", a)


@st.composite
def linear_case(draw):
    d = draw(pick((1, 4, 4, 9, 16, 25, 36, 2, 3, 5, 8, 15, 17, 24, 26, 32, 99, 100,
                   101, 120, 122, 143, 145, 225, 257, 325)))
    c = draw(one(d))
    return {"d": d, "p": c}


@R.law(linear_case(), 300, 8000, rule="perfect-square length, not a delta",
       nontrivial=lambda c: math.isqrt(c["d"]) ** 2 == c["d"] and nt(c))
def linear(c, note):
    p, x = forms(c["p"])
    square = math.isqrt(c["d"]) ** 2 == c["d"]
    try:
        got = float(ff.linear_entropy(x))
    except AssertionError:
        need(not square, "length %d refused", c["d"])
        note("refused")
        return
    need(square, "length %d accepted", c["d"])
    want = 1 - math.fsum(p * p)
    need(abs(got - want) < 1e-9, "%.12g instead of %.12g", got, want)
    need(-1e-9 <= got <= 1 - 1 / c["d"] + 1e-9, "bounds")
