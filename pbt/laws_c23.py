from common import *
from forms import any_state, dm, given, is_nontrivial

R = Registry("C23")
ORDERS = (2, 2, 1, 3, 4, 1.5, 2.5, 7, 12, 40, 5, 6, 8, 9, 20, 100, 2.0, 1.1, 1.9)
KINDS = ("mixed", "pure", "rank2", "diag", "basis", "maxmix", "product", "pdf",
         "even", "even", "nearmix", "nearpure", "gauss", "gauss", "cat", "puregauss", "bell")


@st.composite
def fstate(draw, n_max=3, n_min=1, **kw):
    kind = draw(pick(KINDS))
    n = draw(st.integers(n_min, n_max))
    if kind == "gauss":
        return {"kind": kind, "n": n, "q": draw(quad(n, n))}
    if kind in ("puregauss", "cat"):
        return {"kind": kind, "n": n, "seed": draw(seeds),
                "k": draw(st.integers(0, 2 ** n - 1))}
    if kind == "bell":
        return {"kind": kind, "n": n, "k": draw(st.integers(0, 2 ** n - 1)),
                "l": draw(st.integers(0, 2 ** n - 1))}
    if kind == "even":
        c = draw(state(n, n, ("even",), **kw))
        c["form"], c["s"] = "rho", 0
        return c
    return draw(any_state(n, n, kinds=(kind,), **kw))


def rho_and_input(c):
    k, n = c["kind"], c["n"]
    if k == "gauss":
        H = ref.H_of(*AB(c["q"]))
        r = ref.gibbs(ref.lift(H, ref.ladder(n)))
        return r, r
    if k in ("puregauss", "cat", "bell"):
        v = np.zeros(2 ** n, dtype=complex)
        if k == "bell":
            v[c["k"]] += 1
            v[c["l"]] += 1 if c["l"] != c["k"] else 0
        else:
            v[c["k"]] = 1
            W = gaussian_unitary(np.random.default_rng(c["seed"]), n)[0]
            v = W @ v
            if k == "cat":
                v = v + W[:, -1 - c["k"]]
        v = v / np.linalg.norm(v)
        return np.outer(v, v.conj()), v
    return dm(c), given(c)


def cov(rho):
    n = int(round(math.log2(len(rho))))
    g = ref.majoranas(n)
    M = np.array([[-1j * np.sum(rho * (g[i] @ g[j] - g[j] @ g[i]).T)
                   for j in range(2 * n)] for i in range(2 * n)])
    return M.real


def nt(c):
    return c["n"] > 1 and c["kind"] not in ("basis", "maxmix")


@R.law(fstate(), 400, 10000, rule="two or more sites, not a basis state",
       nontrivial=nt, shards=2)
def covariance_spectrum(c, note):
    rho, x = rho_and_input(c)
    n = c["n"]
    s = np.linalg.svd(cov(rho), compute_uv=False)
    want = np.sort(s)[::-2] ** 2
    got = np.asarray(ff.cov_distribution(x))
    need(got.ndim == 1 and len(got) <= n, "%s values for %d sites", got.shape, n)
    need(not np.iscomplexobj(got), "complex values")
    full = np.concatenate([np.sort(got)[::-1], np.zeros(n - len(got))])
    close(full, want, "squared singular values", 1e-8)
    need(np.all(got >= 0) and np.all(got <= 1 + 1e-9), "not in [0, 1]")
    need(len(got) >= np.sum(s > 1e-8) // 2, "a non-zero value is missing")
    if np.all((s > 1e-8) | (s < 1e-12)):
        need(len(got) == np.sum(s > 1e-8) // 2, "a zero value is listed")
    note(c["kind"])


@R.law(st.tuples(fstate(), pick(ORDERS), pick(ORDERS)), 300, 8000,
       rule="two or more sites, not a basis state",
       nontrivial=lambda c: nt(c[0]), shards=2)
def antiflatness(c, note):
    s, k, l = c
    rho, x = rho_and_input(s)
    n = s["n"]
    w = np.linalg.eigvalsh(1j * cov(rho))

    def want(k):
        return n - 0.5 * math.fsum(np.abs(w) ** (2 * k))
    got = float(ff.FAF(x) if k == 2 and n == 2 else ff.FAF(x, k))
    need(abs(got - want(k)) < 1e-7, "order %r: %.9g instead of %.9g", k, got,
         want(k))
    need(-1e-8 <= got <= n + 1e-8, "out of bounds")
    need((float(ff.FAF(x, l)) - got) * (l - k) >= -1e-8, "not monotonic in k")
    if s["kind"] in ("puregauss", "basis"):
        need(abs(got) < 1e-7, "pure Gaussian state: %s", got)
    if s["kind"] in ("pure", "puregauss", "cat", "bell"):
        need(abs(float(ff.FAF(rho, k)) - got) < 1e-8, "wavefunction and matrix")
    note("order %r" % k)


@R.law(st.tuples(st.one_of(fstate(6, 4, styles=("gauss",)), any_state(
    4, 6, kinds=("few",))), pick(ORDERS), pick(ORDERS)), 24, 300, rule="not a basis state", nontrivial=lambda c: nt(c[0]),
       shards=2)
def larger_states(c, note):
    covariance_spectrum(c[0], note)
    antiflatness(c, note)


@R.law(fixed({"s": fstate(3, 2), "seed": seeds, "k": pick(ORDERS),
              "odd": st.integers(-1, 3)}), 150, 4000,
       rule="not a basis state", nontrivial=lambda c: nt(c["s"]))
def gaussian_invariance(c, note):
    s = c["s"]
    n = s["n"]
    rho, _ = rho_and_input(s)
    W = gaussian_unitary(np.random.default_rng(c["seed"]), n)[0]
    if c["odd"] >= 0:
        W = W @ ref.majoranas(n)[c["odd"] % (2 * n)] * math.sqrt(2)
    sig = herm(W @ rho @ W.conj().T)
    need(abs(float(ff.FAF(rho, c["k"])) - float(ff.FAF(sig, c["k"]))) < 1e-7,
         "FAF changes under a Gaussian unitary")
    note("reflection" if c["odd"] >= 0 else "rotation")


@R.law(st.tuples(any_state(1, 4, kinds=("pure", "few"),
                           styles=("gauss",)), pick((2, 1, 1.5, 3, 4, 7))), 60,
       1500, rule="two or more sites", nontrivial=lambda c: c[0]["n"] > 1)
def single_precision(c, note):
    s, k = c
    x = np.asarray(given(s))
    if min(x.shape) > 1 and x.ndim > 1:
        return  # rounding a matrix makes it indefinite
    x = x.astype(np.complex64)
    w = np.linalg.eigvalsh(1j * cov(dm(s)))
    want = s["n"] - 0.5 * math.fsum(np.abs(w) ** (2 * k))
    need(abs(float(ff.FAF(x, k)) - want) < 1e-4, "order %r: %.9g instead of "
         "%.9g", k, float(ff.FAF(x, k)), want)
