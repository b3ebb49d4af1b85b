from common import *
from forms import any_state, dm, given, is_nontrivial

R = Registry("C22")
ORDERS = (2, 2, 1, 3, .5, 1.5, 4, 10, "inf", .9, .99, 1.01, 1.001, 2.5, 25, 100,
          2.0, 1.0, 6)


def order(a):
    return math.inf if a == "inf" else a


def dist(rho):
    e = ref.pauli_expect(rho)
    need(maxabs(e.imag) < 1e-9, "oracle")
    x = e.real ** 2
    return x / x.sum()


def sre(rho, a):
    n = int(round(math.log2(len(rho))))
    x = dist(rho)
    if maxabs(x[1:]) < 1e-20:
        return 0.0
    return ref.renyi(x, a) - n * math.log(2)


@R.law(any_state(1, 3), 300, 8000, rule="two or more qubits, not a basis state",
       nontrivial=is_nontrivial, shards=2)
def distribution(c, note):
    rho = dm(c)
    n = c["n"]
    got = np.asarray(ff.stabilizer_distribution(given(c)))
    need(got.shape == (4 ** n,), "length")
    e = ref.pauli_expect(rho).real
    pur = np.trace(rho @ rho).real
    close(got, e ** 2 / (2 ** n * pur), "distribution", 1e-9)
    need(np.all(got >= 0), "negative entries")
    need(abs(got.sum() - 1) < 1e-8, "does not sum to one")
    note(c["kind"] + "/" + c["form"])


@R.law(st.tuples(any_state(1, 3), pick(ORDERS)), 300, 8000,
       rule="two or more qubits, not a basis state",
       nontrivial=lambda c: is_nontrivial(c[0]), shards=2)
def entropy(c, note):
    s, a = c[0], order(c[1])
    rho, x = dm(s), given(s)
    got = float(ff.SRE(x) if c[1] == 2 and s["n"] == 2 else ff.SRE(x, a))
    d = dist(rho)
    if 0 < maxabs(d[1:]) < 1e-16 or (s["form"] == "evolved" and a < 1):
        note("nearly mixed")
        return
    want = sre(rho, a)
    need(abs(got - want) < 1e-6, "order %r: %.9g instead of %.9g", c[1], got,
         want)
    if s["kind"] == "maxmix":
        need(got == 0, "maximally mixed: %s", got)
    if s["kind"] == "pure":
        need(got > -1e-7, "negative for a pure state")
        need(abs(float(ff.SRE(rho, a)) - got) < 1e-6, "wavefunction and matrix")
    note("order %r" % (c[1],))


@R.law(st.tuples(any_state(1, 4, kinds=("pure", "mixed", "rank2"),
                           styles=("gauss",)), st.integers(1, 198)), 120, 3000,
       rule="two or more qubits", nontrivial=lambda c: c[0]["n"] > 1)
def orders_below_two(c, note):
    """every order between .01 and 1.98, on states none of whose Pauli
    expectations is so small that it hides in the rounding"""
    rho, a = dm(c[0]), c[1] / 100
    if min(dist(rho)) < 1e-7 or c[0]["form"] == "evolved":
        note("a small expectation")
        return
    got, want = float(ff.SRE(given(c[0]), a)), sre(rho, a)
    need(abs(got - want) < 1e-6, "order %s: %.9g instead of %.9g", a, got, want)
    note("order %.1f" % a)


LARGE = st.one_of(any_state(4, 5, styles=("gauss",)), any_state(
    4, 5, kinds=("few",)), any_state(5, 5, kinds=("few",)))


@R.law(st.tuples(LARGE, pick(ORDERS)), 20, 250,
       rule="not a basis state", nontrivial=lambda c: is_nontrivial(c[0]),
       shards=2)
def larger_states(c, note):
    distribution(c[0], note)
    entropy(c, note)


@st.composite
def clifford_case(draw):
    s = draw(any_state(1, 3, kinds=("mixed", "pure", "rank2", "product",
                                    "basis", "pdf")))
    return {"s": s, "g": draw(gate_list), "a": draw(pick(ORDERS))}


@R.law(clifford_case(), 250, 6000, rule="two qubits or more, five gates or more",
       nontrivial=lambda c: is_nontrivial(c["s"]) and len(c["g"]) > 4, shards=2)
def clifford_invariance(c, note):
    rho, a = dm(c["s"]), order(c["a"])
    U = circuit(c["s"]["n"], c["g"])
    sig = U @ rho @ U.conj().T
    x, y = (np.asarray(ff.stabilizer_distribution(r)) for r in (rho, sig))
    close(np.sort(x), np.sort(y), "permuted distribution", 1e-8)
    if a < 1 and maxabs(dist(rho)[dist(rho) < 1e-6]) > 1e-20:
        return
    need(abs(float(ff.SRE(rho, a)) - float(ff.SRE(sig, a))) < 1e-6,
         "SRE changes under a Clifford circuit")


@R.law(fixed({"n": st.integers(1, 4), "g": gate_list, "a": pick(ORDERS),
              "form": st.integers(0, 2)}), 150, 3000,
       rule="two qubits or more, five gates or more",
       nontrivial=lambda c: c["n"] > 1 and len(c["g"]) > 4)
def stabilizer_states(c, note):
    n = c["n"]
    psi = circuit(n, c["g"])[:, 0]
    x = [psi, psi.reshape(-1, 1), np.outer(psi, psi.conj())][c["form"]]
    need(abs(float(ff.SRE(x, order(c["a"])))) < 1e-6, "stabilizer state")
    d = np.asarray(ff.stabilizer_distribution(x))
    close(np.sort(d)[::-1], np.repeat([2.0 ** -n, 0], [2 ** n, 4 ** n - 2 ** n]),
          "flat on a stabilizer group", 1e-9)


@st.composite
def product_case(draw):
    n, m = draw(pick(((1, 1), (1, 2), (2, 1))))
    return {"s": draw(any_state(n, n, kinds=("pure",))),
            "t": draw(any_state(m, m, kinds=("pure",))),
            "a": draw(pick(ORDERS))}


@R.law(product_case(), 150, 4000, rule="a three-qubit product",
       nontrivial=lambda c: c["s"]["n"] + c["t"]["n"] == 3)
def additivity(c, note):
    r, s, a = dm(c["s"]), dm(c["t"]), order(c["a"])
    A, B = float(ff.SRE(r, a)), float(ff.SRE(s, a))
    need(abs(float(ff.SRE(np.kron(r, s), a)) - A - B) < 1e-6, "not additive")
    x = np.asarray(ff.stabilizer_distribution(np.kron(r, s)))
    y = np.kron(ff.stabilizer_distribution(r), ff.stabilizer_distribution(s))
    close(x, y, "product distribution", 1e-9)


@R.law(st.tuples(any_state(1, 4, kinds=("pure", "few"),
                           styles=("gauss",)), pick(ORDERS)), 60, 1500,
       rule="two or more qubits", nontrivial=lambda c: c[0]["n"] > 1)
def single_precision(c, note):
    s, a = c[0], order(c[1])
    x = np.asarray(given(s))
    if min(x.shape) > 1 and x.ndim > 1:
        return  # rounding a matrix makes it indefinite
    x = x.astype(np.complex64)
    rho = dm(s)
    d = dist(rho)
    close(np.asarray(ff.stabilizer_distribution(x)), d, "distribution", 1e-5)
    if min(d) > 1e-4 or a >= 1.5:
        need(abs(float(ff.SRE(x, a)) - sre(rho, a)) < 1e-3, "order %r", c[1])


@R.law(fixed({"n": st.integers(1, 5), "seed": seeds, "a": pick(ORDERS)}), 20, 200,
       rule="two or more qubits", nontrivial=lambda c: c["n"] > 1)
def random_stabilizer_states(c, note):
    psi = np.asarray(ff.random_CHP_state(c["n"]))
    a = order(c["a"])
    need(abs(float(ff.SRE(psi, a))) < (1e-4 if a >= 1 else 1e-1),
         "order %r: %s", c["a"], ff.SRE(psi, a))
