from common import *

R = Registry("C10")


@R.law(fixed({"n": st.integers(1, 24)}), 24, 40, rule="two or more sites",
       nontrivial=lambda c: c["n"] > 1)
def majorana_basis(c, note):
    n = c["n"]
    Om = ff.build_Omega(n)
    close(Om, ref.omega(n), "basis change", 1e-12)
    close(Om @ Om.conj().T, np.eye(2 * n), "unitary", 1e-12)
    close(Om @ ref.swap(n) @ Om.T, np.eye(2 * n), "swap form", 1e-12)
    if n <= 5:
        got = [sum(Om[i, j] * a for j, a in enumerate(ref.ladder(n)))
               for i in range(2 * n)]
        close(np.array(got), np.array(ref.majoranas(n)), "operators", 1e-12)


@R.law(fixed({"n": st.integers(1, 24), "seed": seeds}), 60, 400,
       rule="two or more sites", nontrivial=lambda c: c["n"] > 1)
def mode_reordering(c, note):
    n = c["n"]
    rng = np.random.default_rng(c["seed"])
    P = ff.build_reordering_xx_to_xp(n)
    x, p = rng.standard_normal(n), rng.standard_normal(n)
    mixed = np.array([v for k in range(n) for v in (x[k], p[k])])
    close(P @ P.T, np.eye(2 * n), "orthogonal", 0)
    # row vectors [x p] @ P are interleaved
    close(np.concatenate([x, p]) @ P, mixed, "reordering", 0)


@R.law(fixed({"n": st.integers(1, 24), "seed": seeds, "zero": st.booleans(),
              "v": ints(24)}), 120, 2500,
       rule="two or more sites with non-zero energies",
       nontrivial=lambda c: c["n"] > 1 and any(c["v"][:c["n"]]))
def canonical_to_standard(c, note):
    n = c["n"]
    e = np.array(c["v"][:n]) / 2.0
    if c["zero"]:
        e = np.random.default_rng(c["seed"]).standard_normal(n)
    K = ff.build_K(n)
    Om = ref.omega(n)
    close(K @ K.conj().T, np.eye(2 * n), "unitary", 1e-11)
    Lc = np.zeros((2 * n, 2 * n))
    for k in range(n):
        Lc[2 * k, 2 * k + 1], Lc[2 * k + 1, 2 * k] = -e[k], e[k]
    H = -1j * Om.conj().T @ Lc @ Om
    got = K @ H @ K.conj().T
    need(maxabs(got - np.diag(np.diag(got))) < 1e-10 * (1 + maxabs(e)),
         "not diagonal")
    d = np.diag(got)
    want = np.concatenate([e, -e])
    if maxabs(d - want) > 1e-10 * (1 + maxabs(e)):
        want = -want
    close(d, want, "standard form", 1e-10)
    note("sign %+d" % (1 if np.array_equal(want[:n], e) else -1))
    S = ref.swap(n)
    close(K @ S @ K.T, S, "algebra", 1e-10)


shape = st.one_of(st.tuples(st.integers(1, 4), st.integers(1, 4)),
                  st.tuples(st.integers(1, 12), st.integers(1, 12)))


@st.composite
def blocks_case(draw):
    k = draw(st.integers(2, 3))
    dt = draw(pick(("float", "complex", "int", "matrix", "bool", "mixed",
                    "tiny", "single", "big")))
    m = [draw(array(draw(shape), styles=("intgrid", "gauss") if dt in (
        "float", "complex", "matrix", "mixed", "tiny", "single", "big") else ("intgrid",))) for _ in range(k)]
    return {"m": m, "dt": dt, "lay": draw(layouts), "left": draw(st.booleans())}


@R.law(blocks_case(), 200, 5000, rule="rectangular or complex blocks",
       nontrivial=lambda c: any(m["sh"][0] != m["sh"][1] for m in c["m"])
       or c["dt"] == "complex")
def direct_sum(c, note):
    ms = []
    for i, spec in enumerate(c["m"]):
        x = arr(spec)
        if c["dt"] == "mixed":  # each block has a type of its own
            k = (spec["sh"][0] + c["left"] + i) % 3
            x = (x, x.real, x.real.astype(int))[k]
        elif c["dt"] == "tiny":  # imaginary parts and entries close to nothing
            x = (x.real + 1e-6j * x.imag if i % 2 == c["left"]
                 else x.real * 1e-6)
        elif c["dt"] != "complex":
            x = x.real
        if c["dt"] == "int":
            x = x.astype(int)
        if c["dt"] == "single":  # next to a block of full precision
            x = x.astype(np.float32) if i % 2 == c["left"] else x
        if c["dt"] == "big":
            x = x * 10.0 ** (12 * (i - 1) + 3)
        if c["dt"] == "bool":
            x = x != 0
        ms.append(vary(x, c["lay"]) if c["dt"] != "matrix" else np.matrix(x))
    rows, cols = (sum(m.shape[k] for m in ms) for k in (0, 1))
    want = np.zeros((rows, cols), dtype=complex)
    r = k = 0
    for m in ms:
        want[r:r + m.shape[0], k:k + m.shape[1]] = m
        r, k = r + m.shape[0], k + m.shape[1]
    if len(ms) == 2:
        got = ff.kron_plus(*ms)
    elif c["left"]:
        got = ff.kron_plus(ff.kron_plus(ms[0], ms[1]), ms[2])
    else:
        got = ff.kron_plus(ms[0], ff.kron_plus(ms[1], ms[2]))
    close(np.asarray(got), want, "direct sum", 0)
    if c["dt"] in ("int", "float"):
        need(not np.iscomplexobj(got), "real blocks stay real")
