"""Every public function with a recipe for its arguments, for the laws about
calls in general (purity, independence of the history)."""
import copy
import io
import contextlib
import math
import os
import pickle
import random
import signal
import struct
import sys

import networkx as nx
import numpy as np

import ff
import ref
from core import HarnessError, Violation
from gen import herm, ortho, skew, unitary

RS = ff.ff_random_states


def cgauss(r, *sh):
    return r.standard_normal(sh) + 1j * r.standard_normal(sh)


def direction(r, n):
    """a vector; now and then one whose norm is exactly one"""
    if r.random() < .7:
        return cgauss(r, n)
    v = np.zeros(n, dtype=complex)
    v[r.integers(n)] = 1
    return v


def special(r):
    """now and then a recipe takes a distinguished value"""
    return int(r.integers(3)) if r.random() < .3 else None


def dm(r, n):
    k = special(r)
    if k is not None:
        d = 2 ** n
        return (np.eye(d) / d, np.diag(np.eye(d)[r.integers(d)]),
                np.full((d, d), 1 / d, dtype=complex))[k]
    X = cgauss(r, 2 ** n, 2 ** n)
    R = X @ X.conj().T
    return herm(R / np.trace(R).real)


def psi(r, n):
    k = special(r)
    if k is not None:
        d = 2 ** n
        return (np.eye(d)[r.integers(d)], np.ones(d) / np.sqrt(d),
                np.eye(d, dtype=complex)[r.integers(d)] * 1j)[k]
    v = cgauss(r, 2 ** n)
    return v / np.linalg.norm(v)


def pdf(r, k):
    s = special(r)
    if s is not None:
        return (np.ones(k) / k, np.eye(k)[r.integers(k)],
                np.repeat([2 / k, 0], [k // 2, k - k // 2])
                if k % 2 == 0 else np.ones(k) / k)[s]
    return r.dirichlet(np.ones(k))


def anystate(r, n):
    k = r.integers(4)
    return (dm(r, n), psi(r, n), pdf(r, 2 ** n),
            psi(r, n).reshape(-1, 1))[k]


def AB(r, n):
    k = special(r)
    if k is not None:
        Z = np.zeros((n, n))
        return ((Z, Z.copy()), (np.eye(n), Z),
                (np.diag(r.integers(-2, 3, n)), Z.astype(int)))[k]
    return generic(r, n)


def generic(r, n):
    return herm(cgauss(r, n, n)), skew(cgauss(r, n, n))


def Hs(r, n):
    return ref.H_of(*AB(r, n))


def Hm(r, n):
    return ref.H_of(*generic(r, n))


def Vm(r, n):
    A, B = generic(r, n)
    return ref.V_of(A, B)


def Gm(r, n):
    return skew(r.standard_normal((2 * n, 2 * n)))


def alphas(n):
    return [a.copy() for a in ref.ladder(n)]


def canonical(r, n):
    k = special(r)
    if k is not None:
        return (np.eye(2 * n), np.eye(2 * n, dtype=complex),
                np.eye(2 * n)[r.permutation(2 * n)])[k]
    Om = ref.omega(n)
    return Om.conj().T @ ortho(r, 2 * n, 1) @ Om


def graph(r, n, lab=None):
    """a random planar weighted graph with n + 3 nodes"""
    m = n + 3
    es = [(int(r.integers(i)), i) for i in range(1, m)]
    G = nx.Graph(es)
    for _ in range(m):
        i, j = (int(x) for x in r.choice(m, 2, replace=False))
        if not G.has_edge(i, j):
            G.add_edge(i, j)
            if not nx.check_planarity(G)[0]:
                G.remove_edge(i, j)
    H = nx.Graph()
    H.add_nodes_from(int(i) for i in r.permutation(m))
    weighted = r.random() < .5
    for u, v in G.edges:
        if weighted:
            H.add_edge(u, v, weight=int(r.integers(1, 9)) / 4, tag="x")
        else:
            H.add_edge(u, v)
    H.graph["name"] = "g"
    return H


def tree(r, n):
    return nx.Graph([(int(r.integers(i)), i) for i in range(1, n + 4)])


def face(G):
    emb = nx.check_planarity(G)[1]
    seen, F = set(), []
    for u, v in emb.edges():
        if (u, v) not in seen:
            ns = emb.traverse_face(u, v, seen)
            F.append([tuple(e) for e in zip(ns, ns[1:] + [ns[0]])])
    return F


def dual_args(r, n):
    G = graph(r, n)
    return [G, face(G), nx.minimum_spanning_tree(G)]


def pfo_face(r, n):
    k = n + 2
    P = np.zeros((k, k), dtype=complex)
    walk = [(i, (i + 1) % k) for i in range(k)]
    for u, v in walk[:-1]:
        s = r.choice([-1, 1])
        P[u, v], P[v, u] = s, -s
    u, v = walk[-1]
    P[u, v] = P[v, u] = 99j
    return [P, walk]


def sym(r, n):
    X = r.standard_normal((2 * n, 2 * n))
    X = X + X.T
    return X - np.diag(np.diag(X))


def intmat(r, n):
    return r.integers(-4, 5, (n + 1, n + 1))


def weights(r, n):
    X = np.round(r.standard_normal((n + 2, n + 2)), 2)
    X[r.random(X.shape) < .3] = 0
    return X + X.T if r.random() < .5 else X


def scalar_or_array(r, n):
    return [r.standard_normal((n, 2)) * 10.0 ** r.integers(-8, 2, (n, 2)),
            cgauss(r, n + 1), (r.standard_normal(n + 1) * 1e-5).tolist(),
            float(r.standard_normal()), complex(*r.standard_normal(2))][
                r.integers(5)]


def matchgate(r, n):
    M = np.zeros((4, 4), dtype=complex)
    A, B = unitary(r, 2), unitary(r, 2)
    if r.random() < .7:
        B = B * np.sqrt(np.linalg.det(A) / np.linalg.det(B) + 0j)
    M[np.ix_([0, 3], [0, 3])], M[np.ix_([1, 2], [1, 2])] = A, B
    return M


def corr_args(r, n):
    a = [dm(r, n), n]
    if r.random() < .4:
        a.append(alphas(n))
    if len(a) == 3 and r.random() < .5:
        a.append(r.choice([1, 2, -1]).item())
    return a


# name -> argument recipe; "attr" is the public name unless given
PURE = {
    "permutation_to_matrix": lambda r, n: [r.permutation(n + 1).tolist()],
    "pauli_matrices": lambda r, n: [],
    "generate_pauli_group": lambda r, n: [n],
    "jordan_wigner_lowering": lambda r, n: [n],
    "jordan_wigner_alphas": lambda r, n: [n],
    "jordan_wigner_majoranas": lambda r, n: [n],
    "rotate_operators": lambda r, n: [canonical(r, n), alphas(n),
                                      bool(r.integers(2))],
    "build_V": lambda r, n: [n] + list(AB(r, n))[:r.integers(1, 3)],
    "build_H": lambda r, n: [n] + list(AB(r, n))[:r.integers(1, 3)],
    "build_Omega": lambda r, n: [n],
    "build_reordering_xx_to_xp": lambda r, n: [n],
    "build_K": lambda r, n: [n],
    "kitaev_chain": lambda r, n: [n] + [float(x) for x in
                                        r.standard_normal(3)],
    "correlation_matrix": lambda r, n: [dm(r, n)],
    "is_symp": lambda r, n: [canonical(r, n) * (1, 1, 1.1)[r.integers(3)]],
    "check_canonical_form": lambda r, n: [canonical(r, n)
                                          * (1, 1, 1.1)[r.integers(3)]],
    "generate_gaussian_state": lambda r, n: [n, Hs(r, n)] + (
        [alphas(n)] if r.random() < .5 else []),
    "build_op": lambda r, n: [n, Hs(r, n), alphas(n), None,
                              bool(r.integers(2))],
    "compute_cov_matrix": lambda r, n: [dm(r, n), n] + (
        [alphas(n)] if r.random() < .5 else []),
    "compute_2corr_matrix": corr_args,
    "compute_algebra_S": lambda r, n: [alphas(n)],
    "is_matchgate": lambda r, n: [matchgate(r, n)],
    "eigh_sp": lambda r, n: [Hm(r, n)],
    "eigv_sp": lambda r, n: [Vm(r, n)],
    "eigm_sp_can": lambda r, n: [1j * Gm(r, n)],
    "eigm_sp": lambda r, n: [1j * Gm(r, n)],
    "sgn": lambda r, n: [r.permutation(n + 2).tolist()],
    "pf": lambda r, n: [Gm(r, min(n, 4))],
    "hf": lambda r, n: [sym(r, min(n, 4))],
    "pt": lambda r, n: [intmat(r, n)],
    "dt": lambda r, n: [intmat(r, n)],
    "dt_eigen": lambda r, n: [intmat(r, n) + 0.5],
    "plot_graph_with_edge_weights": lambda r, n: [
        weights(r, n) if r.random() < .6 else graph(r, n)],
    "plot_planar_embedding": lambda r, n: [graph(r, n)],
    "dual_graph_H": dual_args,
    "faces": lambda r, n: [graph(r, n)],
    "complete_face": pfo_face,
    "count_perfect_matchings": lambda r, n: [graph(r, n)],
    "find_perfect_matchings_brute": lambda r, n: [graph(r, n)],
    "count_perfect_matchings_planar": lambda r, n: [graph(r, n)],
    "pfo_algorithm": lambda r, n: [graph(r, n)],
    "compute_tree_depth": lambda r, n: [tree(r, n)],
    "print_custom": lambda r, n: [scalar_or_array(r, n), int(r.integers(1, 9))],
    "clean": lambda r, n: [scalar_or_array(r, n), int(r.integers(1, 9))],
    "formatted_output": lambda r, n: [float(r.standard_normal()),
                                      int(r.integers(1, 9))],
    "kron_plus": lambda r, n: [r.standard_normal((n, n + 1)),
                               cgauss(r, 2, n)],
    "partial_trace_over_2": lambda r, n: [dm(r, n + 1), 2],
    "partial_trace_over_1": lambda r, n: [dm(r, n + 1), 2],
    "stabilizer_distribution": lambda r, n: [anystate(r, n)],
    "SRE": lambda r, n: [anystate(r, n), (2, 3, 1)[r.integers(3)]],
    "FAF": lambda r, n: [anystate(r, n), (2, 3)[r.integers(2)]],
    "cov_distribution": lambda r, n: [anystate(r, n)],
    "renyi_entropy": lambda r, n: [pdf(r, n + 2), (.5, 1, 2, 3)[
        r.integers(4)]],
    "linear_entropy": lambda r, n: [pdf(r, (n + 1) ** 2)],
    "total_variation_distance": lambda r, n: [pdf(r, 2 ** n), pdf(r, 2 ** n)],
    "trace_distance": lambda r, n: [anystate(r, n), anystate(r, n)],
    "relative_entropy": lambda r, n: [pdf(r, 2 ** n), pdf(r, 2 ** n)],
    "jensen_shannon_divergence": lambda r, n: [pdf(r, 2 ** n),
                                               pdf(r, 2 ** n)],
    "bhattacharyya_coeff": lambda r, n: [pdf(r, 2 ** n), pdf(r, 2 ** n)],
    "get_orthogonal_vectors": lambda r, n: [cgauss(r, n + 1)],
    "build_unitary_path": lambda r, n: [direction(r, n + 1),
                                        direction(r, n + 1)],
    "build_linear_path": lambda r, n: [direction(r, n + 1),
                                       direction(r, n + 1)],
    "cast_to_density_matrix": lambda r, n: [anystate(r, n)],
    "cast_to_pdf": lambda r, n: [anystate(r, n)],
    "analyze_pdf": lambda r, n: [anystate(r, n), "x", bool(r.integers(2))],
}
SEEDED = {
    "random_FF_rotation": lambda r, n: [n, int(r.integers(99))],
    "random_FF_state": lambda r, n: [n, bool(r.integers(2)),
                                     int(r.integers(99))],
    "random_H_generator": lambda r, n: [n, False, int(r.integers(99))],
    "random_FF_state_randH": lambda r, n: [n, int(r.integers(99))],
    "random_FF_state_rotPDF": lambda r, n: [n, True, int(r.integers(99))],
    "random_FF_pure_state_W0": lambda r, n: [n, int(r.integers(99))],
    "random_FF_pure_state_WN": lambda r, n: [n, None, int(r.integers(99))],
    "random_FF_pure_state_CN": lambda r, n: [n, int(r.integers(99))],
    "random_qubit_pure_state": lambda r, n: [n, int(r.integers(99))],
    "random_qubit_state": lambda r, n: [n, int(r.integers(99))],
    "generate_random_planar_graph": lambda r, n: [n + 4, int(r.integers(99))],
}
VERBOSE = {  # the printing variants
    "rotate_operators": 3, "build_op": 3, "compute_algebra_S": 1,
    "is_matchgate": 1, "generate_pauli_group": 1, "complete_face": 2,
    "pfo_algorithm": 1}
UPDATES = {"complete_face"}  # updates the ordering it is given, by contract
ALL = dict(PURE, **SEEDED)
NAMES = sorted(ALL)


def fn(name):
    return getattr(RS if name == "random_qubit_state" else ff, name)


# ----- twins: arguments that are easily taken for each other ---------------

STATES = {"correlation_matrix", "partial_trace_over_2", "partial_trace_over_1",
          "stabilizer_distribution", "SRE", "FAF", "cov_distribution",
          "renyi_entropy", "linear_entropy", "total_variation_distance",
          "trace_distance", "relative_entropy", "jensen_shannon_divergence",
          "bhattacharyya_coeff", "cast_to_density_matrix", "cast_to_pdf",
          "compute_cov_matrix", "compute_2corr_matrix", "analyze_pdf"}
SITES = {"build_op", "generate_gaussian_state", "eigh_sp", "eigv_sp",
         "eigm_sp", "eigm_sp_can", "is_symp", "check_canonical_form",
         "rotate_operators"}
FREE = {"build_V", "build_H", "pf", "hf", "pt", "dt", "dt_eigen", "kron_plus",
        "clean", "print_custom", "sgn", "permutation_to_matrix",
        "get_orthogonal_vectors", "build_unitary_path", "build_linear_path",
        "plot_graph_with_edge_weights"}
TWINS = sorted(STATES | SITES | FREE)
# sizes at which printing an array leaves out its middle
BIG = {"renyi_entropy": 1030, "linear_entropy": 32,
       "total_variation_distance": 10, "relative_entropy": 10,
       "jensen_shannon_divergence": 10, "bhattacharyya_coeff": 10,
       "eigh_sp": 17, "eigv_sp": 17, "eigm_sp": 17, "eigm_sp_can": 17,
       "is_symp": 17, "check_canonical_form": 17, "build_V": 34,
       "build_H": 34, "dt_eigen": 34, "clean": 600, "kron_plus": 40,
       "permutation_to_matrix": 1010, "sgn": 1010,
       "partial_trace_over_2": 4, "partial_trace_over_1": 4,
       "get_orthogonal_vectors": 40, "build_unitary_path": 40,
       "build_linear_path": 1010, "cast_to_density_matrix": 5,
       "cast_to_pdf": 5, "trace_distance": 5, "stabilizer_distribution": 5,
       "SRE": 5, "FAF": 5, "cov_distribution": 5, "correlation_matrix": 5,
       "compute_cov_matrix": 5, "compute_2corr_matrix": 5}


def twin(name, a, how, r):
    """the arguments, with a small change (how = k: by about 10^-k) or, how =
    0, with inner rows and columns exchanged"""
    x = a[0] if not isinstance(a[0], int) else a[1] if len(a) > 1 else None
    if isinstance(x, list) and x and isinstance(x[0], (int, np.integer)):
        if len(x) > 1:
            m = len(x) // 2
            y = list(x)
            y[m - 1], y[m] = y[m], y[m - 1]
            return [y] + a[1:]
        return a
    if not isinstance(x, np.ndarray) or not x.size:
        return a
    d = 10.0 ** -how
    if how == 0:
        y = x
        L = max(x.shape)
        m = L // 2 if name in SITES else L
        if m < 9:
            return a
        p = np.arange(m)
        p[3:m - 3] = 3 + r.permutation(m - 6)
        if name in SITES:
            p = np.concatenate([p, p + m])
        for k in range(x.ndim):
            if x.shape[k] == L:
                y = np.take(y, p, axis=k)
    elif name in STATES:
        if x.ndim == 2 and min(x.shape) > 1:
            y = (x + d * np.eye(len(x)) / len(x)) / (1 + d)
        elif np.isclose(np.linalg.norm(x), 1) and (
                np.iscomplexobj(x) or not np.isclose(np.sum(x), 1)):
            y = x + d * r.standard_normal(x.shape)
            y = y / np.linalg.norm(y)
        else:
            w = r.random(x.shape)
            y = (x + d * w / w.sum()) / (1 + d)
    elif x.dtype.kind in "iu":
        y = x.copy()
        y.flat[r.integers(y.size)] += 1
        if name in SITES:
            y = x
    else:
        y = x * (1 + d)
    k = next(i for i, z in enumerate(a) if z is x)
    return a[:k] + [y] + a[k + 1:]


def args_of(name, seed, n, lay=0, verbose=False, how=None):
    if name in UPDATES and lay == 2:
        lay = 0
    a = ALL[name](np.random.default_rng(seed), n)
    if how is not None:
        a = twin(name, a, how, np.random.default_rng([seed, how]))
    if verbose and name in VERBOSE:
        k = VERBOSE[name]
        a = a[:k] + [None] * (k - len(a)) + [True] + a[k + 1:]
    return [dress(x, lay) for x in a]


def dress(x, lay):
    if isinstance(x, list) and x and isinstance(x[0], np.ndarray):
        return [dress(y, lay) for y in x]
    if not isinstance(x, np.ndarray) or not lay:
        return x
    if lay == 1:
        return np.asfortranarray(x)
    if lay == 2:
        y = x.copy()
        y.setflags(write=False)
        return y
    return x


def fits(a, b):
    """b can be written over a"""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and a.flags.writeable
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(fits(x, y) for x, y in zip(a, b))
    return True


def overwrite(a, b):
    """write b over a, in place where the object can change"""
    if isinstance(a, np.ndarray):
        a[...] = b
        return a
    if isinstance(a, list):
        a[:] = [overwrite(x, y) for x, y in zip(a, b)]
        return a
    if isinstance(a, nx.Graph):
        a.clear()
        a.graph.update(b.graph)
        a.add_nodes_from(b.nodes(data=True))
        a.add_edges_from(b.edges(data=True))
        return a
    return b


def canon(x, depth=0):
    """a comparable, picklable form of a result; leaves the result changed"""
    if isinstance(x, (nx.Graph,)):
        nodes = sorted((repr(v), sorted(map(str, d.items())))
                       for v, d in x.nodes(data=True))
        es = sorted(((repr(u), repr(v)) if x.is_directed()
                     else tuple(sorted((repr(u), repr(v)))))
                    + (sorted(map(str, d.items())),)
                    for u, v, d in x.edges(data=True))
        out = ("graph", x.is_directed(), nodes, es)
        x.add_edge("scribble", "on it")
        for u, v, d in x.edges(data=True):
            d["weight"] = -77
        return out
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", [canon(y, depth + 1) for y in x.ravel()], x.shape)
        out = ("arr", np.array(x))
        try:
            x[...] = 77
        except ValueError:
            pass
        return out
    if isinstance(x, (list, tuple)):
        out = (type(x).__name__, [canon(y, depth + 1) for y in x])
        if isinstance(x, list):
            x[:] = ["scribble"]
        return out
    if isinstance(x, dict):
        out = ("dict", sorted((repr(k), canon(v, depth + 1))
                              for k, v in x.items()))
        x.clear()
        return out
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(y) for y in x))
    if callable(x):
        return ("path", [canon(x(t), depth + 1) for t in (0, .3, 1, .3)])
    if isinstance(x, (bool, np.bool_)):
        return ("bool", bool(x))
    if isinstance(x, (int, float, complex, np.number)):
        return ("num", complex(x))
    return ("repr", repr(x))


def equal(a, b, tol=1e-7):
    if a[0] != b[0]:
        return False
    if a[0] == "arr":
        x, y = a[1], b[1]
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind not in "fciub":
            return bool(np.array_equal(x, y))
        d = np.abs(x.astype(complex) - y.astype(complex))
        return bool(np.all(d <= tol * (1 + np.max(np.abs(x), initial=0))))
    if a[0] == "num":
        x, y = a[1], b[1]
        return x == y or (x != x and y != y) or abs(x - y) <= tol * (1 + abs(x))
    if a[0] in ("list", "tuple", "path", "obj"):
        return (len(a[1]) == len(b[1])
                and all(equal(x, y, tol) for x, y in zip(a[1], b[1])))
    return a == b


def snap(x):
    """exact picture of an argument"""
    if isinstance(x, nx.Graph):
        return ("graph", list(x.nodes(data=True)),
                [(u, list(nb.items())) for u, nb in x.adjacency()],
                dict(x.graph))
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, str(x.dtype), x.tobytes(), x.flags.writeable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    return repr(x)


def state_of_world():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate(),
            sorted(map(str, np.get_printoptions().items())),
            sorted(map(str, np.geterr().items())))


def call(name, a):
    """(canonical result, printed text)"""
    import matplotlib.pyplot as plt
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn(name)(*a)
    plt.close("all")
    return canon(r), out.getvalue()


class Zygote:
    """A process forked before any call to the library; every request is
    answered by a fresh fork of it, so in a state without history."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, 0)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.r, self.w = r2, w1

    @staticmethod
    def read(fd, n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b

    @classmethod
    def recv(cls, fd):
        h = cls.read(fd, 8)
        if h is None:
            return None
        return pickle.loads(cls.read(fd, struct.unpack("<Q", h)[0]))

    @staticmethod
    def send(fd, x):
        b = pickle.dumps(x)
        b = struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, r, w):
        while True:
            q = self.recv(r)
            if q is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(100)
                    try:
                        np.random.seed(12345)
                        random.seed(12345)
                        ans = [call(s[0], args_of(*s)) for s in q]
                    except Exception as e:
                        ans = repr(e)
                    self.send(w, ans)
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                self.send(w, "died with status %d" % status)

    def ask(self, steps):
        self.send(self.w, steps)
        ans = self.recv(self.r)
        if ans is None:
            raise HarnessError("the pristine process is gone")
        return ans


_zygote = {}


def pristine(steps):
    """results of these calls in a process that made no other call"""
    if _zygote.get("owner") != os.getpid():
        _zygote["owner"] = os.getpid()
        _zygote["z"] = Zygote()
    return _zygote["z"].ask(steps)
