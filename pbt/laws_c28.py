from common import *

R = Registry("C28")
KINDS = ("any", "any", "any", "basis", "sparse", "tiny", "huge", "two", "real",
         "nearbasis", "wide", "int", "int", "vast")
FORMS = ("flat", "column", "list", "layout", "native", "native list",
         "readonly")


@st.composite
def vec(draw, n):
    kind = draw(pick(KINDS))
    c = {"n": n, "kind": kind, "form": draw(pick(FORMS))}
    if kind in ("basis", "nearbasis"):
        c["k"] = draw(st.integers(0, n - 1))
        c["ph"] = draw(st.integers(0, 7))
    elif kind == "wide":
        c["X"] = draw(wide((n,), draw(st.booleans()), -9, 4))
    elif kind == "two":
        c["k"] = draw(st.integers(0, n - 1))
        c["l"] = draw(st.integers(0, n - 1))
        c["ph"] = draw(st.integers(0, 7))
    else:
        c["X"] = draw(array((n,), cplx=kind != "real", scales=(1,)))
    return c


@st.composite
def vecs(draw, n):
    """two vectors, often closely related"""
    a, b = draw(vec(n)), draw(vec(n))
    how = draw(pick(("free", "free", "phase", "near", "nearphase")))
    if how != "free":
        b = {"n": n, "kind": "rel", "a": a, "b": b, "form": b["form"],
             "th": draw(st.integers(0, 16)) if "phase" in how else 0,
             "eps": draw(st.integers(1, 14)) if "near" in how else 99}
    return a, b


def vec_of(c):
    if c["kind"] == "rel":
        v = hat(vec_of(c["a"])) * np.exp(1j * np.pi * c["th"] / 8)
        if c["th"] in (0, 8, 16):
            v = hat(vec_of(c["a"])) * (-1 if c["th"] == 8 else 1)
        v = v + 10.0 ** -c["eps"] * hat(vec_of(c["b"]))
        return v if np.iscomplexobj(v) and np.any(v.imag) else v.real
    n, kind = c["n"], c["kind"]
    if kind in ("basis", "nearbasis"):
        v = np.zeros(n, dtype=complex)
        v[c["k"]] = 1j ** (c["ph"] / 2) if c["ph"] % 2 else 1j ** (c["ph"] // 2)
        if kind == "nearbasis":
            v = v + 1e-7 * np.arange(1, n + 1)
    elif kind == "two":
        v = np.zeros(n, dtype=complex)
        v[c["k"]] += 1
        v[c["l"]] += 1j ** (c["ph"] // 2) * (1 if c["ph"] % 2 else .5)
        if np.linalg.norm(v) < .1:
            v[c["k"]] = 1
    else:
        v = arr(c["X"])
        if np.linalg.norm(v) < (.3 if kind == "int" else 1e-6):  # too short
            v = v.copy()
            v[0] = 1
        v = v * {"tiny": 1e-5, "huge": 1e6}.get(kind, 1)
    if kind == "int":
        v = np.round(v * 4)
    elif kind == "vast":
        v = v * 1e10
    if not np.any(np.asarray(v).imag) and c["form"] != "column":
        v = np.asarray(v).real
    return v


def shape_of(c, v):
    f = c["form"]
    if f == "column":
        return v.reshape(-1, 1)
    if f == "list":
        return v.tolist()
    if f == "layout":
        return vary(v, 3)
    if f != "flat":
        return dressed(v, f)
    return v


def hat(v):
    return v / np.linalg.norm(v)


@R.law(st.integers(13, 80).flatmap(lambda n: st.tuples(vec(n), vec(n))),
       10, 200, rule="thirteen or more dimensions", nontrivial=lambda c: True)
def many_dimensions(c, note):
    completion(c[0], note)
    completion(c[1], note)
    unitary_path((c, [1, 3, 8]), note)
    linear_path((c, 5, 4), note)


def dims(hi=8):
    return st.integers(2, hi)


def pair_nt(c):
    a, b = vec_of(c[0]), vec_of(c[1])
    return abs(abs(np.vdot(hat(a), hat(b))) - 1) > 1e-6


@R.law(dims().flatmap(vec), 500, 15000, rule="more than one non-zero entry",
       nontrivial=lambda c: np.sum(np.abs(vec_of(c)) > 1e-6) > 1)
def completion(c, note):
    v = vec_of(c)
    n = len(v)
    Q = np.asarray(ff.get_orthogonal_vectors(shape_of(c, v)))
    need(Q.shape == (n, n), "shape %s", Q.shape)
    close(Q[:, 0], hat(v), "first column")
    close(Q.conj().T @ Q, np.eye(n), "unitary")
    note("complex" if np.iscomplexobj(v) else "real")


@R.law(st.tuples(dims(12), st.booleans(), st.booleans()), 40, 200,
       rule="always (zero vector)")
def completion_of_zero(c, note):
    n, col, cplx = c
    z = np.zeros((n, 1) if col else n, dtype=complex if cplx else float)
    close(ff.get_orthogonal_vectors(z), np.eye(n), "identity for zero", 0)


@R.law(st.tuples(dims().flatmap(vecs),
                 st.lists(st.integers(-8, 16), min_size=3, max_size=3)),
       500, 15000, rule="the two directions differ",
       nontrivial=lambda c: pair_nt(c[0]), shards=2)
def unitary_path(c, note):
    (cw, cv), ts = c
    w, v = vec_of(cw), vec_of(cv)
    n = len(w)
    p = ff.build_unitary_path(shape_of(cw, w), shape_of(cv, v))
    P = {}
    for t in [0, 1] + [x / 8 for x in ts]:
        x = np.asarray(p(t))
        need(x.shape == (n, 1), "shape %s", x.shape)
        need(bool(np.all(np.isfinite(x))), "not finite")
        need(abs(np.linalg.norm(x) - 1) < 1e-8, "norm at %s", t)
        P[t] = x[:, 0]
    close(P[0], hat(w), "start", 1e-8)
    close(P[1], hat(v), "end", 1e-7)
    # one-parameter unitary flow: overlaps depend on the difference only
    a, b, d = (x / 8 for x in ts)
    o1 = np.vdot(P[a], np.asarray(p(b))[:, 0])
    o2 = np.vdot(np.asarray(p(a + d))[:, 0], np.asarray(p(b + d))[:, 0])
    need(abs(o1 - o2) < 1e-7, "not a unitary flow: %s and %s", o1, o2)
    # U^2 w continues the path as a linear unitary map does
    G = np.array([[np.vdot(np.asarray(p(i))[:, 0], np.asarray(p(j))[:, 0])
                   for j in range(3)] for i in range(3)])
    need(abs(G[0, 1] - G[1, 2]) < 1e-7, "not a unitary flow")
    note(cw["kind"] + "/" + cv["kind"])


@R.law(st.tuples(dims().flatmap(vecs),
                 st.integers(0, 16), st.integers(1, 15)),
       500, 15000, rule="the two directions differ",
       nontrivial=lambda c: pair_nt(c[0]))
def linear_path(c, note):
    (cw, cv), t, _ = c
    w, v = vec_of(cw), vec_of(cv)
    n, t = len(w), t / 16
    p = ff.build_linear_path(shape_of(cw, w), shape_of(cv, v))
    for s, want in ((0, hat(w)), (1, hat(v))):
        x = np.asarray(p(s))
        need(x.shape == (n, 1), "shape %s", x.shape)
        close(x[:, 0], want, "end point %d" % s)
    line = t * hat(v) + (1 - t) * hat(w)
    if np.linalg.norm(line) < 1e-4:
        return note("through zero")
    close(np.asarray(p(t))[:, 0], hat(line), "at %s" % t, 1e-9)
    for s in (t + 10.0 ** -(c[2] % 9), t - 10.0 ** -(c[2] % 9)):
        line = s * hat(v) + (1 - s) * hat(w)
        if np.linalg.norm(line) > 1e-4:
            close(np.asarray(p(s))[:, 0], hat(line), "at %s" % s, 1e-11)
    note("line")


@R.law(st.tuples(dims(6).flatmap(vecs), st.integers(-16, 32),
                 st.integers(2, 6)), 150, 4000,
       rule="the two directions differ", nontrivial=lambda c: pair_nt(c[0]))
def speed_of_the_path(c, note):
    """a one-parameter unitary group moves every point at the same speed, over
    parameter steps of any size"""
    (cw, cv), k, e = c
    p = ff.build_unitary_path(shape_of(cw, vec_of(cw)), shape_of(cv, vec_of(cv)))
    t, d = k / 16, 10.0 ** -e

    def step(a, b):
        return np.linalg.norm(np.asarray(p(b)) - np.asarray(p(a)))
    v0 = step(0, .01) / .01
    for a, b in ((t, t + d), (0, d), (1 - d, 1), (t - d, t), (t, t + .01)):
        need(abs(step(a, b) / (b - a) - v0) <= 2e-4 * v0 + 1e-11 / d,
             "speed %s between %s and %s, %s at the start",
             step(a, b) / (b - a), a, b, v0)
    # points do not depend on the order in which they are asked for
    q = ff.build_unitary_path(shape_of(cw, vec_of(cw)), shape_of(cv, vec_of(cv)))
    x = np.asarray(q(t + d))
    close(x, np.asarray(p(t + d)), "another order of parameters", 1e-8)
    note("step 1e-%d" % e)


@st.composite
def unit_pair(draw):
    """two vectors whose norm is exactly one"""
    n = draw(st.integers(2, 8))
    k, l = draw(st.permutations(list(range(n))))[:2]
    return {"n": n, "k": k, "l": l, "ph": draw(st.integers(0, 3)),
            "how": draw(pick(("basis", "flat", "same place"))),
            "col": draw(st.booleans()), "cplx": draw(st.booleans()),
            "lin": draw(st.booleans()), "t": draw(st.integers(0, 8)),
            "late": draw(st.booleans())}


def unit_vectors(c):
    w, v = np.zeros((2, c["n"]), dtype=complex)
    ph = 1j ** c["ph"] if c["cplx"] else (-1) ** c["ph"]
    w[c["k"]] = 1
    if c["how"] == "flat" and c["n"] >= 4:
        v[:4] = .5
        v[c["l"] % 4] *= ph
    elif c["how"] == "same place" and c["cplx"]:
        v[c["k"]] = 1j
    else:
        v[c["l"]] = ph
    out = [x.copy() if c["cplx"] else x.real.copy() for x in (w, v)]
    return [x.reshape(-1, 1) if c["col"] else x for x in out]


@R.law(unit_pair(), 150, 3000, rule="more than two dimensions",
       nontrivial=lambda c: c["n"] > 2)
def unit_end_points(c, note):
    """end points that are normalised as they stand; a path keeps connecting
    the points it was built from when the arrays that held them are used for
    something else"""
    w, v = unit_vectors(c)
    a, b = unit_vectors(c)
    build = ff.build_linear_path if c["lin"] else ff.build_unitary_path
    p, q = build(w, v), build(a, b)
    t = c["t"] / 8
    if not c["late"]:
        close(np.asarray(p(t)), np.asarray(q(t)), "the same path", 1e-12)
    w[...] = 7
    v[...] = -3
    need(np.array_equal(a, unit_vectors(c)[0]) and np.array_equal(
        b, unit_vectors(c)[1]), "end points changed")
    for s in (t, 0, 1):
        x = np.asarray(p(s))
        close(x, np.asarray(q(s)), "the same path at %s, after its end points "
              "were overwritten" % s, 1e-12)
    close(np.asarray(p(0)).ravel(), hat(a.ravel()), "start", 1e-8)
    close(np.asarray(p(1)).ravel(), hat(b.ravel()), "end", 1e-7)
    note("linear" if c["lin"] else "unitary")
