"""Generators. Every case is a JSON value; numbers are drawn as small integers
(divided by a power of two when decoded) or as a seed for full-precision
Gaussian entries, so that shrinking leads to readable cases."""

import numpy as np
from hypothesis import strategies as st

fixed = st.fixed_dictionaries
pick = st.sampled_from


def zig(b):
    """byte -> small signed integer, 0 -> 0, 1 -> 1, 2 -> -1, ..."""
    k = b % 19
    return (k + 1) // 2 if k % 2 else -(k // 2)


def zig_sparse(b):
    return 0 if b < 150 else zig(b - 149)


def ints(n, sparse=False):
    f = zig_sparse if sparse else zig
    return st.binary(min_size=n, max_size=n).map(lambda bs: [f(b) for b in bs])


@st.composite
def array(draw, shape, cplx=True, styles=("grid", "sparse", "gauss", "real",
                                          "intgrid"), scales=(1, 1, 1, .25, 3)):
    """spec of an array of this shape; decode with arr()"""
    shape = list(shape)
    n = int(np.prod(shape))
    style = draw(pick(styles))
    if style == "gauss":
        return {"sh": shape, "seed": draw(st.integers(0, 10**6)),
                "c": bool(cplx), "sc": draw(pick(scales))}
    v = draw(ints(n, style == "sparse"))
    d = 1 if style == "intgrid" else 4
    if cplx and style in ("grid", "sparse", "intgrid"):
        return {"sh": shape, "v": v, "w": draw(ints(n, style == "sparse")),
                "d": d}
    return {"sh": shape, "v": v, "d": d}


def arr(spec):
    sh = spec["sh"]
    if "form" in spec:
        return shaped(arr({k: v for k, v in spec.items() if k != "form"}),
                      spec["form"])
    if "seed" in spec:
        rng = np.random.default_rng(spec["seed"])
        x = rng.standard_normal(sh)
        if spec["c"]:
            x = x + 1j * rng.standard_normal(sh)
        if "lo" in spec:
            d = 10.0 ** rng.uniform(spec["lo"], spec["hi"], sh)
            if spec.get("parts") and spec["c"]:
                x = x.real * d + 1j * x.imag * 10.0 ** rng.uniform(
                    spec["lo"], spec["hi"], sh)
            else:
                x = x * d
            if spec.get("tilt"):
                x = x * 10.0 ** (spec["tilt"] * np.subtract.outer(
                    *(np.arange(m) for m in sh)))
            x = x * (rng.random(sh) < spec["fill"])
        return x * spec["sc"]
    x = np.array(spec["v"], dtype=float).reshape(sh) / spec["d"]
    if "w" in spec:
        x = x + 1j * np.array(spec["w"], dtype=float).reshape(sh) / spec["d"]
    return x


FORMS = ("herm", "herm", "antiherm", "sym", "skew", "real herm", "diag",
         "upper", "lower", "off", "unitary", "ortho", "swap", "scalar",
         "circulant", "rank1", "negreal", "imag")


def shaped(x, form):
    """x with a symmetry or a pattern; of its last two axes, which are equal"""
    t = np.swapaxes(x, -1, -2)
    n = x.shape[-1]
    if form == "herm":
        return x + t.conj()
    if form == "antiherm":
        return x - t.conj()
    if form == "sym":
        return x + t
    if form == "skew":
        return x - t
    if form == "real herm":
        return x.real + t.real + 0 * x
    if form == "diag":
        return x * np.eye(n)
    if form == "upper":
        return x * np.triu(np.ones((n, n)))
    if form == "lower":
        return x * np.tril(np.ones((n, n)), -1)
    if form == "off":
        return x * (1 - np.eye(n))
    if form in ("unitary", "ortho"):
        y = x if form == "unitary" else x.real
        return np.linalg.qr(y)[0] if y.ndim == 2 else np.array(
            [np.linalg.qr(m)[0] for m in y])
    if form == "swap":  # the two halves change places
        return np.roll(x * np.eye(n), n // 2, -1)
    if form == "scalar":
        return x[..., :1, :1] * np.eye(n)
    if form == "circulant":
        i = np.arange(n)
        return x[..., 0, (i - i[:, None]) % n]
    if form == "rank1":
        return x[..., :1] * x[..., :1, :]
    if form == "negreal":
        return -abs(x.real) + 0 * x
    return 1j * x.real + 0 * x


def structured(shape, styles=None, **kw):
    """an array, often with a symmetry (its last two axes are equal)"""
    if styles:
        kw["styles"] = styles
    return st.one_of(array(shape, **kw), st.builds(
        lambda a, f: dict(a, form=f), array(shape, **kw), pick(FORMS)))


def wide(shape, cplx=True, lo=-6, hi=5):
    """spec of an array whose entries differ by many orders of magnitude"""
    return fixed({"sh": st.just(list(shape)), "seed": st.integers(0, 10**6),
                  "c": st.just(bool(cplx)), "sc": st.just(1),
                  "lo": st.integers(lo, 0), "hi": st.integers(0, hi),
                  "fill": pick([1, 1, .5, .25]), "parts": st.booleans()})


def tilted(n, cplx=True):
    """spec of an n x n matrix with entries that shrink away from the diagonal
    on one side and grow on the other; its determinant does not notice"""
    return fixed({"sh": st.just([n, n]), "seed": st.integers(0, 10**6),
                  "c": st.just(bool(cplx)), "sc": st.just(1),
                  "lo": st.just(0), "hi": st.just(0), "fill": pick([1, .7]),
                  "tilt": st.integers(-9, 9)})


@st.composite
def energies(draw, n_max=6, n_min=1):
    """single-particle energies at any scale: small or large as a whole, over
    many decades, nearly degenerate, nearly zero; decode with energies_of()"""
    n = draw(st.integers(n_min, n_max))
    return {"n": n, "kind": draw(pick(("scale", "scale0", "wide", "neardeg",
                                       "nearzero", "pairs"))),
            "k": draw(st.integers(-12, 12)), "seed": draw(st.integers(0, 10**6)),
            "cplx": draw(st.booleans())}


def energies_of(c):
    """(energies of order one, factor)"""
    n, k = c["n"], c["k"]
    rng = np.random.default_rng(c["seed"])
    e, f = rng.standard_normal(n), 1.0
    small = 10.0 ** -abs(k)
    if c["kind"] in ("scale", "scale0"):
        f = 10.0 ** k
        if c["kind"] == "scale0":
            e[:(n + 1) // 2] = 0
    elif c["kind"] == "wide":
        e = 10.0 ** rng.uniform(-abs(k), 0, n) * rng.choice([-1, 1], n)
    elif c["kind"] == "neardeg":
        e = 1 + small * e
    elif c["kind"] == "nearzero":
        e[:(n + 1) // 2] *= small
    else:
        e[1::2] = e[:n - n % 2:2] * (1 + small)
    return e, f


def nonzero(spec):
    return "seed" in spec or any(spec["v"]) or any(spec.get("w", ()))


def herm(x):
    return (x + x.conj().T) / 2


def skew(x):
    return (x - x.T) / 2


# --------------------------------------------------------------------------
# quadratic Hamiltonians: A Hermitian, B skew-symmetric

AB_KINDS = ("full", "full", "full", "full", "A", "B", "realfull", "diag",
            "degen", "lowrank", "kitaev", "zero", "block")


@st.composite
def quad(draw, n_min=1, n_max=4, kinds=AB_KINDS, scales=(1, 1, 1, .25, 3)):
    n = draw(st.integers(n_min, n_max))
    kind = draw(pick(kinds))
    c = {"n": n, "kind": kind}
    if kind in ("diag", "degen", "kitaev"):
        c["v"] = draw(ints(n + 3))
    elif kind != "zero":
        c["A"] = draw(array((n, n), cplx=kind != "realfull", scales=scales))
        c["B"] = draw(array((n, n), cplx=kind != "realfull", scales=scales))
    return c


def AB(c):
    n, kind = c["n"], c["kind"]
    Z = np.zeros((n, n))
    if kind == "zero":
        return Z, Z.copy()
    if kind == "diag":
        return np.diag(np.array(c["v"][:n]) / 4.0), Z
    if kind == "degen":
        A = np.eye(n) * (c["v"][0] / 2.0)
        B = Z.copy()
        for i in range(0, n - 1, 2):
            B[i, i + 1], B[i + 1, i] = c["v"][1] / 2.0, -c["v"][1] / 2.0
        return A, B
    if kind == "kitaev":
        mu, t, d = (x / 2.0 for x in c["v"][:3])
        A = -mu * np.eye(n)
        B = Z.copy()
        for i in range(n - 1):
            A[i, i + 1] = A[i + 1, i] = -t
            B[i, i + 1], B[i + 1, i] = d, -d
        return A, B
    A, B = herm(arr(c["A"])), skew(arr(c["B"]))
    if kind == "A":
        B = np.zeros_like(B)
    elif kind == "B":
        A = np.zeros_like(A)
    elif kind == "lowrank":
        k = max(1, n // 2)
        A[k:, :] = 0
        A[:, k:] = 0
        B[k:, :] = 0
        B[:, k:] = 0
    elif kind == "block":
        k = n // 2
        A[:k, k:] = 0
        A[k:, :k] = 0
        B[:k, k:] = 0
        B[k:, :k] = 0
    return A, B


def quad_nontrivial(c):
    if c["kind"] == "zero" or c["n"] < 2:
        return False
    if "A" in c:
        return nonzero(c["A"]) or nonzero(c["B"])
    return any(c["v"])


# --------------------------------------------------------------------------
# states

STATE_KINDS = ("mixed", "mixed", "pure", "rank2", "diag", "basis", "maxmix",
               "even", "product", "nearmix", "nearpure")


@st.composite
def state(draw, n_min=1, n_max=3, kinds=STATE_KINDS,
          styles=("grid", "sparse", "gauss", "real", "intgrid")):
    n = draw(st.integers(n_min, n_max))
    kind = draw(pick(kinds))
    d = 2 ** n
    c = {"n": n, "kind": kind}
    if kind in ("mixed", "pure", "rank2", "even", "nearmix", "nearpure"):
        k = {"pure": 1, "nearpure": 1, "rank2": 2}.get(kind, d)
        c["X"] = draw(array((d, k), scales=(1,), styles=styles))
    if kind in ("nearmix", "nearpure"):
        c["eps"] = draw(st.integers(1, 6))
    elif kind == "diag":
        c["p"] = draw(ints(d))
    elif kind == "basis":
        c["k"] = draw(st.integers(0, d - 1))
    elif kind == "product":
        c["X"] = draw(array((n, 2, 2), scales=(1,)))
    return c


def parity_signs(n):
    return np.array([(-1) ** bin(k).count("1") for k in range(2 ** n)])


def rho_of(c):
    """density matrix of a state spec"""
    n, kind, d = c["n"], c["kind"], 2 ** c["n"]
    if kind == "close":  # next to another state
        e = 10.0 ** -c["eps"]
        return (1 - e) * rho_of(c["a"]) + e * rho_of(c["b"])
    if kind == "maxmix":
        return np.eye(d, dtype=complex) / d
    if kind == "basis":
        r = np.zeros((d, d), dtype=complex)
        r[c["k"], c["k"]] = 1
        return r
    if kind == "diag":
        p = np.abs(np.array(c["p"], dtype=float))
        if p.sum() == 0:
            p[0] = 1
        return np.diag(p / p.sum()).astype(complex)
    if kind == "product":
        r = np.ones((1, 1), dtype=complex)
        for X in arr(c["X"]):
            q = X @ X.conj().T
            t = np.trace(q).real
            q = q / t if t > 1e-9 else np.eye(2) / 2
            r = np.kron(r, q)
        return herm(r)
    X = arr(c["X"]).astype(complex)
    if np.linalg.norm(X) < 1e-9:
        X = X.copy()
        X[0, 0] = 1
    r = X @ X.conj().T
    if kind == "even":
        P = parity_signs(n)
        r = (r + P[:, None] * r * P[None, :]) / 2
    r = herm(r / np.trace(r).real)
    if kind in ("nearmix", "nearpure"):
        e = 10.0 ** -c["eps"]
        w = e if kind == "nearmix" else 1 - e
        r = w * r + (1 - w) * np.eye(d) / d
    return r


def psi_of(c):
    """normalised vector of a 'pure' spec"""
    v = arr(c["X"]).astype(complex).reshape(-1)
    if np.linalg.norm(v) < 1e-9:
        v = v.copy()
        v[0] = 1
    return v / np.linalg.norm(v)


def state_nontrivial(c):
    return c["n"] > 1 and c["kind"] not in ("basis", "maxmix") and (
        "X" not in c or nonzero(c["X"]))


# --------------------------------------------------------------------------
# probability vectors

@st.composite
def pdf(draw, sizes, cplx=False):
    n = draw(pick(sizes))
    kind = draw(pick(("grid", "grid", "sparse", "dirichlet", "uniform",
                      "delta", "skewed", "near", "nearuni", "extreme")))
    c = {"n": n, "kind": kind}
    if kind in ("grid", "sparse"):
        c["v"] = draw(ints(n, kind == "sparse"))
    elif kind == "near":
        c["k"] = draw(st.integers(0, n - 1))
        c["eps"] = draw(st.integers(1, 12))
    elif kind in ("dirichlet", "skewed", "nearuni", "extreme"):
        c["eps"] = draw(st.integers(1, 9))
        c["seed"] = draw(st.integers(0, 10**6))
    elif kind == "delta":
        c["k"] = draw(st.integers(0, n - 1))
    return c


def pdf_of(c):
    n, kind = c["n"], c["kind"]
    if kind == "close":  # next to another distribution
        e = 10.0 ** -c["eps"]
        p = (1 - e) * pdf_of(c["a"]) + e * pdf_of(c["b"])
        return p / p.sum()
    if kind == "uniform":
        return np.ones(n) / n
    if kind == "delta":
        p = np.zeros(n)
        p[c["k"]] = 1
        return p
    if kind == "near":  # nearly deterministic
        p = np.full(n, 10.0 ** -c["eps"])
        p[c["k"]] = 1
    elif kind == "nearuni":  # nearly uniform
        p = 1 + 10.0 ** -c["eps"] * np.random.default_rng(c["seed"]).random(n)
    elif kind == "dirichlet":
        p = np.random.default_rng(c["seed"]).dirichlet(np.ones(n))
    elif kind == "extreme":  # two sizeable entries, others next to nothing
        rng = np.random.default_rng(c["seed"])
        p = 10.0 ** rng.uniform(-15 * c["eps"], -9, n)
        k = rng.permutation(n)[:2 + c["seed"] % 3]
        p[k] = rng.uniform(.3, 1, len(k))
    elif kind == "skewed":
        p = 10.0 ** np.random.default_rng(c["seed"]).uniform(-7, 0, n)
    else:
        p = np.abs(np.array(c["v"], dtype=float))
        if p.sum() == 0:
            p[0] = 1
    p = p / p.sum()
    return p


# --------------------------------------------------------------------------
# orthogonal / unitary matrices from a seed

def ortho(rng, d, det=None):
    q, r = np.linalg.qr(rng.standard_normal((d, d)))
    q = q * np.sign(np.diag(r))
    if det is not None and np.sign(np.linalg.det(q)) != det:
        q[:, 0] = -q[:, 0]
    return q


def unitary(rng, d):
    x = rng.standard_normal((d, d)) + 1j * rng.standard_normal((d, d))
    q, r = np.linalg.qr(x)
    return q * (np.diag(r) / np.abs(np.diag(r)))


seeds = st.integers(0, 10**6)


def vary(x, how):
    """the same values in another memory layout"""
    x = np.asarray(x)
    if how == 1:
        return np.asfortranarray(x)
    if how == 2:
        y = x.copy()
        y.setflags(write=False)
        return y
    if how == 3:
        big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return big[tuple(slice(None, None, 2) for _ in x.shape)]
    return x


layouts = st.integers(0, 3)


DRESS = ("same", "same", "same", "native", "native list", "F", "readonly",
         "strided", "native strided", "bare")


def dressed(x, how):
    """the same numbers in another container, layout or exact dtype"""
    x = np.asarray(x)
    if "native" in how:  # the narrowest kind of number
        if np.iscomplexobj(x) and not np.any(x.imag):
            x = x.real.copy()
        if not np.iscomplexobj(x) and np.all(x == np.round(x)):
            x = x.astype(int)
    if how == "bare":  # a sub-class instance
        class Own(np.ndarray):
            pass
        return x.view(Own)
    if "list" in how:
        return x.tolist()
    return vary(x, {"F": 1, "readonly": 2}.get(how, 3 * ("strided" in how)))
