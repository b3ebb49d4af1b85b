from common import *

R = Registry("C20")
FUNCS = ("total_variation_distance", "relative_entropy",
         "jensen_shannon_divergence", "bhattacharyya_coeff")
SIZES = (2, 2, 3, 4, 4, 5, 8, 16)
MORE = (32, 50, 64, 100, 128)


@st.composite
def one(draw, d):
    p = draw(pdf((d,)))
    return {"pdf": p, "form": draw(pick(("vec", "vec", "list", "column", "row",
                                         "diag", "rho", "psi", "psirow",
                                         "evolved"))), "s": draw(seeds),
            "as": draw(pick(DRESS))}


@st.composite
def pair(draw, k=2, sizes=SIZES):
    d = draw(pick(sizes))
    c = {"d": d, "ps": [draw(one(d)) for _ in range(k)]}
    if draw(st.integers(0, 5)) == 0:
        c["ps"][1]["pdf"] = c["ps"][0]["pdf"]
    elif draw(st.integers(0, 4)) == 0:  # a close pair
        c["ps"][1]["pdf"] = {"n": d, "kind": "close", "a": c["ps"][0]["pdf"],
                             "b": c["ps"][1]["pdf"],
                             "eps": draw(st.integers(1, 9))}
    c["perm"] = draw(st.permutations(list(range(d))))
    return c


def forms(c):
    p, x = plain(c)
    return p, x if c["as"] == "same" else dressed(x, c["as"])


def plain(c):
    p = pdf_of(c["pdf"])
    f, rng = c["form"], np.random.default_rng(c["s"])
    if f == "list":
        return p, p.tolist()
    if f == "column":
        return p, p.reshape(-1, 1)
    if f == "row":
        return p, p.reshape(1, -1)
    if f == "diag":
        return p, np.diag(p)
    if f in ("rho", "psi", "psirow"):
        v = np.sqrt(p) * np.exp(2j * np.pi * rng.random(len(p)))
        v = v / np.linalg.norm(v)
        if f == "psi":
            return p, v
        if f == "psirow":
            return p, v.reshape(1, -1)
        w = rng.random()  # partially dephased: same diagonal
        return p, herm(w * np.outer(v, v.conj()) + (1 - w) * np.diag(p))
    if f == "evolved":  # the diagonal up to rounding errors
        U = unitary(rng, len(p))
        return p, U.conj().T @ (U @ np.diag(p) @ U.conj().T) @ U
    return p, p


def check(got, want, msg, tol):
    got = complex(got)
    need(got.imag == 0 and not math.isnan(got.real), "%s is %s", msg, got)
    if want == math.inf:
        need(got.real == math.inf, "%s is %s, not infinite", msg, got.real)
    else:
        need(abs(got.real - want) <= tol, "%s: %.12g instead of %.12g", msg,
             got.real, want)


def nt(c):
    return all(s["pdf"]["kind"] not in ("delta", "uniform") for s in c["ps"])


@R.law(pair(), 600, 15000, rule="neither is a delta or uniform distribution",
       nontrivial=nt, shards=2)
def definitions(c, note):
    (p, x), (q, y) = (forms(s) for s in c["ps"])
    noisy = "evolved" in (c["ps"][0]["form"], c["ps"][1]["form"])
    tol = 1e-7 if noisy else 1e-11
    tv = 0.5 * math.fsum(abs(p - q))
    bc = math.fsum(math.sqrt(a * b) for a, b in zip(p, q))
    m = (p + q) / 2
    js = (ref.kl(p, m) + ref.kl(q, m)) / 2
    check(ff.total_variation_distance(x, y), tv, "total variation", tol)
    check(ff.bhattacharyya_coeff(x, y), bc, "Bhattacharyya", tol)
    check(ff.jensen_shannon_divergence(x, y), js, "Jensen-Shannon", tol)
    kl = ref.kl(p, q)
    if noisy and min(q) < 1e-9:  # rounding decides about the support
        need(float(ff.relative_entropy(x, y)) > -1e-9, "negative KL")
        note("noisy support")
    else:
        check(ff.relative_entropy(x, y), kl, "KL", tol * (10 + (
            0 if kl == math.inf else abs(kl))))
        note("infinite KL" if kl == math.inf else "finite KL")
    for s in c["ps"]:
        note(s["form"])


@R.law(pair(sizes=MORE), 40, 1000, nontrivial=nt,
       rule="neither is a delta or uniform distribution")
def many_outcomes(c, note):
    definitions(c, note)
    processing(c, note)


@R.law(pair(), 250, 6000, rule="neither is a delta or uniform distribution",
       nontrivial=nt)
def laws(c, note):
    (p, x), (q, y) = (forms(s) for s in c["ps"])
    tv, kl, js, bc = (float(getattr(ff, f)(x, y)) for f in FUNCS)
    e = 1e-7
    need(-e <= tv <= 1 + e and kl >= -e and -e <= js <= math.log(2) + e
         and -e <= bc <= 1 + e, "bounds: %s", (tv, kl, js, bc))
    need(abs(float(ff.total_variation_distance(y, x)) - tv) < e, "TV symmetric")
    need(abs(float(ff.jensen_shannon_divergence(y, x)) - js) < e, "JS symmetric")
    need(abs(float(ff.bhattacharyya_coeff(y, x)) - bc) < e, "BC symmetric")
    need(kl >= 2 * tv * tv - e, "Pinsker: KL %.6g, TV %.6g", kl, tv)
    need(1 - bc <= tv + e and tv <= math.sqrt(max(0, 1 - bc * bc)) + 1e-4,
         "Fuchs-van de Graaf: BC %.6g, TV %.6g", bc, tv)
    need(js <= math.log(2) * tv + e, "JS is at most log 2 TV")
    same = [float(getattr(ff, f)(x, x)) for f in FUNCS]
    need(maxabs(np.array(same) - [0, 0, 0, 1]) < e, "identical: %s", same)
    if tv > 1e-3:
        need(kl > 0 and js > 0 and bc < 1, "different distributions")


@R.law(pair(), 250, 6000, rule="neither is a delta or uniform distribution",
       nontrivial=nt)
def processing(c, note):
    p, q = (pdf_of(s["pdf"]) for s in c["ps"])
    a = np.array([float(getattr(ff, f)(p, q)) for f in FUNCS])
    k = c["perm"]
    b = np.array([float(getattr(ff, f)(p[k], q[k])) for f in FUNCS])
    both_inf = math.isinf(a[1]) and math.isinf(b[1])
    d = np.abs(a - b)
    if both_inf:
        d[1] = 0
    need(np.max(d) < 1e-9 * (1 + np.max(a[np.isfinite(a)])),
         "relabelling changes the values")
    d = c["d"]
    if d < 3:
        return
    # merge two outcomes
    P, Q = (np.append(v[k][2:], v[k][0] + v[k][1]) for v in (p, q))
    if any(1 - 1e-12 < max(v) < 1 or max(v) == 1 and np.count_nonzero(v) > 1
           for v in (P, Q)):  # a distribution and a wavefunction alike
        return
    g = np.array([float(getattr(ff, f)(P, Q)) for f in FUNCS])
    e = 1e-9
    need(g[0] <= a[0] + e and g[1] <= a[1] + 1e-7 * (1 + abs(g[1])) and
         g[2] <= a[2] + e and g[3] >= a[3] - e,
         "coarse-graining: %s then %s", a, g)
