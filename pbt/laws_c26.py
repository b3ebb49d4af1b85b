from common import *

R = Registry("C26")
any_seed = st.one_of(st.integers(0, 50), st.integers(0, 2 ** 32 - 1))
maybe_seed = st.one_of(any_seed, st.none())


@R.law(st.tuples(st.one_of(st.integers(1, 5), st.integers(1, 7)), maybe_seed), 150, 4000,
       rule="two or more qubits", nontrivial=lambda c: c[0] > 1)
def mixed_valid(c, note):
    n, seed = c
    r = np.asarray(ff.ff_random_states.random_qubit_state(n, seed=seed))
    d = 2 ** n
    need(r.shape == (d, d), "shape %s", r.shape)
    need(bool(np.all(np.isfinite(r))), "not finite")
    need(abs(np.trace(r) - 1) < 1e-9, "trace %s", np.trace(r))
    close(r, r.conj().T, "Hermitian", 1e-9)
    w = np.linalg.eigvalsh(herm(r))
    need(w.min() > -1e-9, "negative eigenvalue")
    need(w.max() - w.min() > 1e-12, "the maximally mixed state")


@R.law(st.tuples(st.one_of(st.integers(1, 6), st.integers(1, 8)), maybe_seed), 150, 4000,
       rule="two or more qubits", nontrivial=lambda c: c[0] > 1)
def pure_valid(c, note):
    n, seed = c
    v = np.asarray(ff.random_qubit_pure_state(n, seed=seed))
    need(v.shape == (2 ** n, 1), "shape %s", v.shape)
    need(bool(np.all(np.isfinite(v))), "not finite")
    need(abs(np.linalg.norm(v) - 1) < 1e-9, "not normalised")
    need(np.iscomplexobj(v), "not a complex vector")


@R.law(st.tuples(st.integers(1, 5), st.integers(0, 10 ** 6)), 150, 4000,
       rule="two or more qubits", nontrivial=lambda c: c[0] > 1)
def stabilizer_valid(c, note):
    n, _ = c
    v = np.asarray(ff.random_CHP_state(n))
    need(v.shape == (2 ** n, 1), "shape %s", v.shape)
    v = v[:, 0].astype(complex)
    need(bool(np.all(np.isfinite(v))), "not finite")
    need(abs(np.linalg.norm(v) - 1) < 1e-5, "not normalised")
    e = np.abs(ref.pauli_expect(np.outer(v, v.conj())))
    need(np.all((e < 1e-5) | (np.abs(e - 1) < 1e-5)), "not a stabilizer state")
    need(np.sum(e > 0.5) == 2 ** n, "stabilizer group of size %d",
         np.sum(e > 0.5))


@R.law(st.one_of(
    st.tuples(st.integers(0, 40), st.integers(-3, 43)),
    st.tuples(st.integers(0, 300), st.integers(-3, 303))), 300, 8000,
       rule="0 < k < n", nontrivial=lambda c: 0 < c[1] < c[0])
def bitstring_valid(c, note):
    n, k = c
    np.random.seed(n * 100 + k + 10)
    b = ff.generate_random_bitstring(n, k)
    if not 0 <= k <= n:
        need(b is None, "impossible weight: %r", b)
        return note("impossible")
    b = np.asarray(b)
    need(b.shape == (n,), "shape %s", b.shape)
    need(np.issubdtype(b.dtype, np.integer), "not integers: %s", b.dtype)
    need(np.all((b == 0) | (b == 1)), "not bits")
    need(b.sum() == k, "weight %d instead of %d", b.sum(), k)
    note("possible")


# ----- distributions -------------------------------------------------------

def draws(c, f, k):
    np.random.seed(c["seed"])
    if c["each"]:
        return np.array([f((c["seed"] + i) % 2 ** 32) for i in range(k)])
    return np.array([f(None) for _ in range(k)])


dist = fixed({"n": st.integers(1, 3), "seed": any_seed, "each": st.booleans()})


@R.law(dist, 12, 100, rule="two or more qubits",
       nontrivial=lambda c: c["n"] > 1, shards=4)
def mixed_uniform(c, note):
    n, d, K = c["n"], 2 ** c["n"], 1500
    r = draws(c, lambda s: ff.ff_random_states.random_qubit_state(n, seed=s), K)
    ref.moment(r, np.eye(d) / d, "average state")
    e = np.array([ref.pauli_expect(x).real for x in r])
    ref.moment(e[:, 1:], 0, "average Pauli value")
    # spectrum uniform on the simplex: E tr rho^2 = 2/(d+1), spread evenly
    # over the d^2-1 Pauli directions
    ref.moment(e[:, 1:] ** 2, 1 / (d + 1) ** 2, "squared Pauli value")
    ref.moment(np.sum(np.abs(r) ** 2, axis=(1, 2)), 2 / (d + 1), "purity")
    # the smallest of d uniform populations; none of them vanishes
    w = np.sort(np.linalg.eigvalsh(r)[:, 0])
    need(w[0] > 1e-12, "a state without full rank")
    cdf = 1 - (1 - d * w) ** (d - 1)
    D = np.max(np.abs(cdf - (np.arange(K) + .5) / K))
    need(D * math.sqrt(K) < 3, "smallest populations: distance %.3g", D)
    f = np.einsum("ka,kb->kab", e[:, 1:], e[:, 1:])
    i = np.arange(f.shape[1])
    f[:, i, i] = 0
    ref.moment(f, 0, "Pauli correlations", 7)


@R.law(dist, 12, 100, rule="two or more qubits",
       nontrivial=lambda c: c["n"] > 1, shards=4)
def pure_uniform(c, note):
    n, d, K = c["n"], 2 ** c["n"], 2500
    v = draws(c, lambda s: ff.random_qubit_pure_state(n, seed=s), K)[:, :, 0]
    ref.moment(v, 0, "amplitude")
    ref.moment(v ** 2, 0, "squared amplitude")
    r = np.einsum("ki,kj->kij", v, v.conj())
    ref.moment(r, np.eye(d) / d, "average state")
    p = np.abs(v) ** 2
    q = np.einsum("ki,kj->kij", p, p)
    ref.moment(q, (1 + np.eye(d)) / d / (d + 1), "second moments")
    e = np.array([ref.pauli_expect(x).real for x in r[:1500]])[:, 1:]
    ref.moment(e, 0, "average Pauli value")
    ref.moment(e ** 2, 1 / (d + 1), "squared Pauli value")


@R.law(st.tuples(st.integers(1, 3), st.integers(0, 10 ** 6)), 6, 60,
       rule="two or more qubits", nontrivial=lambda c: c[0] > 1, shards=2)
def stabilizer_uniform(c, note):
    n, _ = c
    d, K = 2 ** n, 1500
    v = np.array([ff.random_CHP_state(n) for _ in range(K)])[:, :, 0]
    v = v.astype(complex)
    e = np.array([ref.pauli_expect(np.outer(x, x.conj())).real for x in v])
    # stim cannot be seeded: a wide margin (8 standard errors)
    ref.moment(e[:, 1:], 0, "average Pauli value", 8)
    ref.moment(e[:, 1:] ** 2, 1 / (d + 1), "squared Pauli value", 8)
    p = np.abs(v) ** 2
    ref.moment(np.einsum("ki,kj->kij", p, p), (1 + np.eye(d)) / d / (d + 1),
               "second moments", 8)


@R.law(st.tuples(st.integers(1, 9), st.integers(0, 9), any_seed), 20, 300,
       rule="0 < k < n", nontrivial=lambda c: 0 < c[1] % (c[0] + 1) < c[0],
       shards=2)
def bitstring_uniform(c, note):
    n, k, seed = c
    k %= n + 1
    np.random.seed(seed)
    b = np.array([ff.generate_random_bitstring(n, k) for _ in range(3000)],
                 dtype=float)
    ref.moment(b, k / n, "bit", most=1)
    if n > 1:
        w = np.full((n, n), k * (k - 1) / n / (n - 1))
        w[range(n), range(n)] = k / n
        ref.moment(np.einsum("ka,kb->kab", b, b), w, "pair of bits",
                   most=1)
    if n > 2:
        x = b[:, :-2] * b[:, 1:-1] * b[:, 2:]
        ref.moment(x, k * (k - 1) * (k - 2) / n / (n - 1) / (n - 2),
                   "three bits in a row", most=1)
    if math.comb(n, k) <= 40:  # every subset is equally likely
        key = b @ 2.0 ** np.arange(n)
        subsets = sorted(sum(2.0 ** i for i in s)
                         for s in itertools.combinations(range(n), k))
        ref.moment((key[:, None] == np.array(subsets)).astype(float),
                   1 / len(subsets), "subset", most=1)


# ----- many qubits: the draws spread over the whole register ---------------

def cut_purity(v, cut):
    """purity of the reduced state of the qubits in `cut`"""
    n = int(round(math.log2(len(v))))
    t = np.moveaxis(v.reshape((2,) * n), cut, range(len(cut)))
    t = t.reshape(2 ** len(cut), -1)
    return float(np.sum(np.abs(t @ t.conj().T) ** 2))


def haar_purity(n, k):
    a, b = 2.0 ** k, 2.0 ** (n - k)
    return (a + b) / (a * b + 1)


many = fixed({"n": st.integers(4, 6), "seed": any_seed, "each": st.booleans(),
              "cuts": st.lists(st.integers(1, 2 ** 6 - 1), min_size=2,
                               max_size=3)})


def cuts_of(c, n):
    half = list(range(n // 2))
    out = [half, list(range(0, n, 2)), [n - 1]]
    for m in c["cuts"]:
        s = [i for i in range(n) if m >> i & 1]
        if 0 < len(s) < n:
            out.append(s)
    return out


@R.law(many, 6, 40, rule="all", shards=3)
def pure_spread(c, note):
    n, d = c["n"], 2 ** c["n"]
    v = draws(c, lambda s: ff.random_qubit_pure_state(n, seed=s), 400)[:, :, 0]
    for cut in cuts_of(c, n):
        ref.moment(np.array([cut_purity(x, cut) for x in v]),
                   haar_purity(n, len(cut)), "purity of qubits %s" % cut)
    p = np.abs(v) ** 2
    ref.moment(p, 1 / d, "population", 7)
    ref.moment(v, 0, "amplitude", 7)
    ref.moment(np.sum(p ** 2, axis=1), 2 / (d + 1), "participation")


@R.law(many, 4, 30, rule="all", shards=2)
def mixed_spread(c, note):
    n, d = c["n"], 2 ** c["n"]
    r = draws(c, lambda s: ff.ff_random_states.random_qubit_state(n, seed=s),
              250)
    w, U = np.linalg.eigh((r + r.conj().transpose(0, 2, 1)) / 2)
    for cut in cuts_of(c, n):
        x = [np.mean([cut_purity(u[:, i], cut) for i in range(0, d, 7)])
             for u in U]
        ref.moment(np.array(x), haar_purity(n, len(cut)),
                   "purity of qubits %s in an eigenstate" % cut)
    ref.moment(np.einsum("kii->ki", r).real, 1 / d, "population", 7)
    ref.moment(np.sum(w ** 2, axis=1), 2 / (d + 1), "purity")
    # sorted uniform spacings: E w_(j) = sum_{i>=d-j} 1/(i d)
    ref.moment(w, np.cumsum(1.0 / np.arange(d, 0, -1)) / d, "spectrum", 7)


@R.law(st.tuples(st.integers(4, 7), st.lists(st.integers(1, 127), min_size=2,
                                             max_size=3)), 4, 30, rule="all",
       shards=2)
def stabilizer_spread(c, note):
    n, d = c[0], 2 ** c[0]
    v = np.array([ff.random_CHP_state(n) for _ in range(500)])[:, :, 0]
    v = v.astype(complex)
    # stabilizer states are a 2-design; stim cannot be seeded: wide margins
    for cut in cuts_of({"cuts": c[1]}, n):
        ref.moment(np.array([cut_purity(x, cut) for x in v]),
                   haar_purity(n, len(cut)), "purity of qubits %s" % cut, 8.5)
    p = np.abs(v) ** 2
    ref.moment(np.sum(p ** 2, axis=1), 2 / (d + 1), "participation", 8.5)


@R.law(st.tuples(st.integers(10, 200), st.one_of(
    st.integers(1, 200), st.integers(1, 3), st.integers(-4, -2)), any_seed,
                 st.integers(1, 200), st.integers(1, 7)), 20, 300,
       rule="0 < k < n", nontrivial=lambda c: 0 < c[1] % (c[0] + 1) < c[0])
def long_bitstrings(c, note):
    n, k, seed, m, step = c
    k %= n + 1
    np.random.seed(seed)
    # enough draws for eighty ones (zeros) at each position
    K = max(1500, 80 * n // max(1, min(k, n - k))) if 0 < k < n else 50
    b = np.array([ff.generate_random_bitstring(n, k) for _ in range(K)],
                 dtype=float)
    ref.moment(b, k / n, "bit", 7.5, 1)
    # the number of ones within some of the positions is hypergeometric
    S = np.unique((np.arange(1 + m % (n - 1)) * step) % n)
    q = len(S) / n
    x = b[:, S].sum(axis=1) - k * q
    ref.moment(x, 0, "ones among some positions", 7.5, 1)
    ref.moment(x ** 2, k * q * (1 - q) * (n - k) / (n - 1),
               "spread of the ones among some positions", 7.5, 1)
    w = k * (k - 1) / n / (n - 1)
    for j in (1, 2, n // 2):
        ref.moment(np.mean(b[:, j:] * b[:, :-j], axis=1), w,
                   "pairs of ones %d apart" % j, 7.5, 1 / (n - j))
