from common import *
import io
import re
import contextlib

R = Registry("C19")
THRESH = (1e-6, 1e-6, 6, 3, 10, 2, 1, 1e-3, 0.01, 0.1, 1e-9, 0.02, 5e-4, 0.3,
          0.024, 1.0, 10.0, 0, -1, -2, 12)


def thr(t):
    """(threshold, decimals)"""
    if isinstance(t, int):
        return 10.0 ** -t, t
    return t, -int(round(math.log10(t)))


def power_of_ten(t):
    return isinstance(t, int) or abs(math.log10(t) - round(math.log10(t))) < 1e-9


@st.composite
def number(draw, t):
    """values around the threshold, exactly at it, and far away"""
    thv, nd = thr(t)
    u = thv * draw(pick((0, 0, .001, .4, .5, .6, .9, .99, .999999, 1, 1.000001,
                         1.01, 1.3, 1.5, 2, 2.5, 17.3, 1234.56, 7654321.3,
                         234567891.7, 12345678912.34)))
    return u * draw(pick((1, -1)))


@st.composite
def clean_case(draw):
    t = draw(pick(THRESH))
    kind = draw(pick(("float", "complex", "array", "carray", "list", "clist",
                      "matrix", "zerod", "int", "iarray", "nested", "string",
                      "np64", "special", "ilist", "single", "csingle", "cube",
                      "ccube", "fortran", "strided", "readonly", "uint8",
                      "mixlist")))
    k = draw(st.integers(0 if kind in ("array", "list") else 1, 5))
    if kind in ("float", "complex", "zerod", "int", "string", "np64"):
        k = 1
    c = {"t": t, "kind": kind, "default": draw(st.booleans()) and t == 1e-6,
         "re": [draw(number(t)) for _ in range(k)]}
    c["kw"] = draw(st.booleans())
    if kind in ("complex", "carray", "clist", "csingle", "ccube"):
        c["im"] = [draw(number(t)) for _ in range(k)]
        if draw(st.booleans()):
            th = thr(t)[0]
            c["im"] = [x if abs(x) < th else th * .5 for x in c["im"]]
    return c


def make(c):
    k = c["kind"]
    re_ = c["re"]
    if k == "float":
        return re_[0]
    if k == "np64":
        return np.float64(re_[0])
    if k == "int":
        return int(re_[0] * 1e6)
    if k == "complex":
        return complex(re_[0], c["im"][0])
    if k == "array":
        return np.array(re_, dtype=float)
    if k == "carray":
        return np.array(re_) + 1j * np.array(c["im"])
    if k == "list":
        return list(re_)
    if k == "clist":
        return [complex(a, b) for a, b in zip(re_, c["im"])]
    if k == "matrix":
        return np.matrix([re_, re_[::-1]])
    if k == "zerod":
        return np.array(re_[0])
    if k == "iarray":
        return np.array([int(x * 1e6) for x in re_])
    if k == "nested":
        return [list(re_), list(re_[::-1])]
    if k == "ilist":
        return [int(x * 1e6) for x in re_]
    if k == "single":
        return np.array(re_, dtype=np.float32)
    if k == "csingle":
        return (np.array(re_) + 1j * np.array(c["im"])).astype(np.complex64)
    if k in ("cube", "ccube"):
        x = np.array(re_) + (1j * np.array(c["im"]) if k == "ccube" else 0)
        return np.array([[x, x[::-1]], [-x, 2 * x]])
    if k in ("fortran", "strided", "readonly"):
        return vary(np.array([re_, re_[::-1]]), {"fortran": 1, "readonly": 2,
                                                 "strided": 3}[k])
    if k == "uint8":
        return np.array([int(abs(x) * 1e6) % 201 for x in re_], dtype=np.uint8)
    if k == "mixlist":
        return [x if i % 2 else int(x * 1e6) for i, x in enumerate(re_)]
    if k == "special":
        return np.array(re_ + [np.inf, -np.inf, np.nan])
    return repr(abs(re_[0])) if "e" not in repr(re_[0]) else "%.12f" % abs(re_[0])


def rounded(g, v, nd):
    """g is v rounded to nd decimals (ties either way)"""
    if not math.isfinite(v):
        return g == v or (g != g and v != v)
    u = 10.0 ** -nd
    near = abs(g - v) <= 0.5 * u * (1 + 1e-6) + 1e-15 * abs(v)
    q = g / u
    return near and abs(q - round(q)) <= 1e-6 * max(1, abs(q) * 1e-6)


def element(g, v, th, nd, drop):
    g, v = complex(g), complex(v)
    mag = abs(v.real) if drop else abs(v)
    if mag < th * (1 - 1e-12):
        return g == 0
    want_im = 0.0 if drop else v.imag
    ok = rounded(g.real, v.real, nd) and (
        g.imag == 0 if drop else rounded(g.imag, want_im, nd))
    # a value that rounds to below the threshold is zero as well
    return ok or (g == 0 and abs(mag) < th * 1.5 + 10.0 ** -nd)


def near_tie(v, th):
    return abs(abs(v) - th) < th * 1e-9


def single(c, x, got, th, nd):
    need(got.shape == x.shape, "shape")
    z, g = x.astype(complex), np.asarray(got).astype(complex)
    eps = 1e-6
    for part in (z, z.real, z.imag):
        if np.any(np.abs(np.abs(part) - th) < eps * (th + np.abs(z))):
            return
    drop = bool(np.all(np.abs(z.imag) < th))
    need(np.iscomplexobj(got) == (not drop), "imaginary part")
    v = z.real + 0j if drop else z
    v = np.where(np.abs(v) < th, 0, v)
    near(g.real, v.real, .5 * 10.0 ** -nd + 2 * eps * np.abs(v) + 1e-30 + (
        np.abs(v) < th * 1.5 + 10.0 ** -nd) * np.abs(v), "real parts")
    near(g.imag, v.imag, .5 * 10.0 ** -nd + 2 * eps * np.abs(v) + 1e-30 + (
        np.abs(v) < th * 1.5 + 10.0 ** -nd) * np.abs(v), "imaginary parts")
    need(maxabs(g[np.abs(v) < th]) == 0, "not zero below the threshold")


@R.law(clean_case(), 700, 20000, rule="some value on either side of the threshold",
       nontrivial=lambda c: any(c["re"]) or any(c.get("im", ())), shards=2)
def cleaning(c, note):
    x, (th, nd) = make(c), thr(c["t"])
    keep = repr(x)
    got = (ff.clean(x) if c["default"] else ff.clean(obj=x, threshold=c["t"])
           if c["kw"] else ff.clean(x, c["t"]))
    need(repr(x) == keep, "input modified")
    kind = c["kind"]
    if kind in ("single", "csingle"):
        return single(c, x, got, th, nd)
    if kind == "string":
        need(isinstance(got, str), "a string stays a string")
        need(element(float(got), float(x), th, nd, True), "%r -> %r", x, got)
        return
    if isinstance(x, list):
        need(isinstance(got, list), "a list stays a list")
    a, g = np.asarray(x), np.asarray(got)
    need(a.shape == g.shape, "shape %s -> %s", a.shape, g.shape)
    small_im = bool(np.all(np.abs(a.imag) < th))
    drop = small_im and not isinstance(x, list)
    if np.iscomplexobj(a) and not isinstance(x, list) and not any(
            near_tie(v, th) for v in a.imag.ravel()):
        need(np.iscomplexobj(g) == (not small_im), "imaginary part %s",
             "kept" if small_im else "dropped")
    for v, w in zip(a.ravel(), g.ravel()):
        if near_tie(v, th) or near_tie(np.imag(v), th):
            note("at the threshold")
            # either zero or the rounded value; a value equal to a threshold
            # that is a power of ten is not below it
            if power_of_ten(c["t"]) and abs(v) == th and kind != "int":
                need(element(w, v, th, nd, drop) and w != 0,
                     "%r -> %r (threshold %r)", v, w, th)
            need(w == 0 or element(w, v, th * .9, nd, False) or
                 element(w, v, th * .9, nd, True), "%r -> %r", v, w)
            continue
        need(element(w, v, th, nd, drop) or (
            small_im and element(w, v, th, nd, True)), "%r -> %r (threshold %g)",
            v, w, th)
    if power_of_ten(c["t"]):
        again = ff.clean(got, c["t"]) if not isinstance(got, (
            np.integer, np.bool_)) else got
        need(np.array_equal(np.asarray(again), g, equal_nan=True),
             "not idempotent: %r -> %r", got, again)
    note(kind)


@R.law(fixed({"s": st.text(max_size=8), "t": pick(THRESH)}), 100, 2000,
       rule="non-numeric text", nontrivial=lambda c: len(c["s"]) > 1)
def other_strings(c, note):
    if c["s"].replace(".", "", 1).isnumeric():
        return
    need(ff.clean(c["s"], c["t"]) == c["s"], "string changed")


@R.law(fixed({"k": st.integers(0, 7), "t": pick(THRESH)}), 40, 200,
       rule="every case is an unsupported type")
def unsupported(c, note):
    x = [None, {"a": 1}, (1.0, 2.0), {1.0}, object(), b"1.0", range(3),
         len][c["k"]]
    try:
        got = ff.clean(x, c["t"])
    except TypeError:
        return
    raise Violation("%r was cleaned to %r" % (type(x), got))


# plain numbers and numbers of every order of magnitude
magnitude = st.one_of(st.floats(-1e6, 1e6), st.builds(
    lambda m, e: m * 10.0 ** e, st.floats(-10, 10), st.integers(-14, 22)))
NUM = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)"


@R.law(fixed({"a": magnitude, "b": magnitude,
              "p": st.integers(0, 12),
              "kind": pick(("float", "int", "complex", "tiny", "np", "other")),
              "default": st.booleans()}), 200, 5000, rule="a non-zero number",
       nontrivial=lambda c: c["a"] != 0)
def formatting(c, note):
    a, p, kind = c["a"], c["p"], c["kind"]
    x = {"float": a, "int": int(a), "complex": complex(a, c["b"]),
         "tiny": complex(a, 1e-13), "np": np.float64(a),
         "other": [a, c["b"]]}[kind]
    s = ff.formatted_output(x) if c["default"] else ff.formatted_output(x, p)
    p = 6 if c["default"] else p
    if kind == "other":
        need(s == str(x), "other objects are shown by str()")
        return
    parts = re.findall(NUM, s.replace(" ", "").replace("+-", "-"))
    two = kind == "complex" and abs(c["b"]) >= 1e-10
    if kind == "complex" and .5e-10 < abs(c["b"]) < 2e-10:
        return
    need(len(parts) == (2 if two else 1), "%r shown as %r", x, s)
    need(s.rstrip().endswith("j") == two, "%r shown as %r", x, s)
    for v, t in zip((complex(x).real, complex(x).imag), parts):
        dec = t.split(".")[1] if "." in t else ""
        need(len(dec) == p, "%r has not %d decimals", s, p)
        need(abs(float(t) - v) <= .5000001 * 10.0 ** -p + 1e-12 * abs(v),
             "%r shown as %r", x, s)


@st.composite
def print_case(draw):
    return {"kind": draw(pick(("float", "array", "carray", "list", "strings",
                               "ragged", "none", "dict", "str", "complex",
                               "complex", "carray", "creal", "cimag", "small",
                               "matrix", "empty", "object", "iarray", "ilist",
                               "cube", "fortran", "int"))),
            "v": draw(ints(4)), "k": draw(st.integers(0, 12)),
            "default": draw(st.booleans()),
            "prec": draw(st.integers(0, 12)), "sup": draw(st.booleans()),
            "lw": draw(pick((75, 40, 120)))}


@R.law(print_case(), 200, 5000, rule="non-default print options",
       nontrivial=lambda c: c["prec"] != 8)
def printing(c, note):
    v = [x / 3.0 for x in c["v"]]
    kind = c["kind"]
    x = {"float": v[0], "array": np.array(v), "carray": np.array(v) + 1j,
         "list": v, "strings": ["a", "b"], "ragged": [[1], [2, 3]],
         "creal": np.array(v) + 0j, "cimag": 1j * np.array(v),
         "small": [t * 1e-5 for t in v],
         "iarray": np.array(c["v"]), "ilist": list(c["v"]), "int": c["v"][0],
         "cube": np.array(v).reshape(1, 2, 2),
         "fortran": np.asfortranarray(np.array([v, v[::-1]])),
         "none": None, "dict": {"a": 1}, "str": "text",
         "complex": complex(v[0], v[1]), "matrix": np.matrix([v, v]),
         "empty": [], "object": np.array([None, 1], dtype=object)}[kind]
    old = np.get_printoptions()
    try:
        np.set_printoptions(precision=c["prec"], suppress=c["sup"],
                            linewidth=c["lw"])
        before = np.get_printoptions()
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                if c["default"]:
                    ff.print_custom(x)
                else:
                    ff.print_custom(x, c["k"])
        finally:
            after = np.get_printoptions()
        need(after == before, "print options changed: %s", {
            k: (before[k], after[k]) for k in before if before[k] != after[k]})
        text = out.getvalue()
        need(text.strip() != "" or kind == "empty", "nothing printed")
        if kind in ("complex", "carray", "cimag", "creal"):
            w = np.atleast_1d(np.array(x, dtype=complex))
            k = 9 if c["default"] else c["k"]
            two = bool(maxabs(w.imag) >= 10.0 ** -k)
            need(("j" in text) == two, "imaginary parts: %r", text)
            nums = [float(t) for t in re.findall(NUM, re.sub(
                r"([-+])\s+", r"\1", text))]
            if kind == "complex":
                z = complex(text.strip().strip("()"))
                nums = [z.real, z.imag] if two else [z.real]
            w = np.where(np.abs(w if two else w.real) < 10.0 ** -k, 0, w)
            parts = np.array([[t.real, t.imag] for t in w]) if two else w.real
            need(len(nums) == parts.size, "%d numbers: %r", len(nums), text)
            need(maxabs(np.array(nums) - parts.ravel()) <= .51 * 10.0 ** -k,
                 "printed %r for %r", text, x)
        if kind in ("float", "array", "list", "matrix", "small", "iarray",
                    "ilist", "cube", "fortran", "int"):
            k = 9 if c["default"] else c["k"]
            nums = [float(t) for t in re.findall(NUM, text)]
            want = np.array(x, dtype=float).ravel()
            need(len(nums) == len(want), "%d numbers printed", len(nums))
            need(maxabs(np.array(nums) - np.where(
                np.abs(want) < 10.0 ** -k, 0, want)) <= .51 * 10.0 ** -k,
                 "printed %r", text)
            need(maxabs(np.array(nums) - np.round(nums, k)) <= 1e-14,
                 "more than %d decimals: %r", k, text)
    finally:
        np.set_printoptions(**old)
    note(kind)
