"""Independent reference implementations (oracles). Nothing here calls ff."""

import functools
import itertools
import math
from fractions import Fraction

import numpy as np

from core import Violation


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def maxabs(x):
    x = np.asarray(x)
    return float(np.max(np.abs(x))) if x.size else 0.0


def close(got, want, msg, tol=1e-9, rel=None):
    """max-norm comparison, relative to the size of the wanted value"""
    g = np.asarray(got)
    w = np.asarray(want)
    need(g.shape == w.shape, "%s: shape %s instead of %s", msg, g.shape,
         w.shape)
    if g.dtype == object:
        g = g.astype(complex)
    need(bool(np.all(np.isfinite(g))), "%s: not finite", msg)
    err = maxabs(g - w)
    lim = tol * (1 + maxabs(w)) if rel is None else tol + rel * maxabs(w)
    need(err <= lim, "%s: off by %.3g (allowed %.3g)", msg, err, lim)


def near(got, want, bound, msg):
    """entrywise comparison, each entry with its own bound"""
    g = np.asarray(got)
    w = np.asarray(want)
    need(g.shape == w.shape, "%s: shape %s instead of %s", msg, g.shape,
         w.shape)
    bad = ~(np.abs(g - w) <= bound)
    if np.any(bad):
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        need(False, "%s: %r instead of %r at %s (allowed %.3g)", msg,
             g[k], w[k], k, np.broadcast_to(bound, w.shape)[k])


# ----- fermions ------------------------------------------------------------

def one_lowering(n, i):
    a = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for b in range(2 ** n):
        bits = [(b >> (n - 1 - j)) & 1 for j in range(n)]
        if bits[i]:
            a[b - (1 << (n - 1 - i)), b] = (-1) ** sum(bits[:i])
    return a


@functools.lru_cache(None)
def _lowering(n):
    return [one_lowering(n, i) for i in range(n)]


def lowering(n):
    """a_i in the occupation basis: leftmost bit = site 0"""
    return [a.copy() for a in _lowering(n)]


def ladder(n):
    lo = lowering(n)
    return [a.conj().T for a in lo] + lo


def majoranas(n):
    lo = lowering(n)
    return ([(a + a.conj().T) / math.sqrt(2) for a in lo]
            + [1j * (a.conj().T - a) / math.sqrt(2) for a in lo])


def omega(n):
    I = np.eye(n)
    return np.block([[I, I], [1j * I, -1j * I]]) / math.sqrt(2)


def swap(n):
    I, Z = np.eye(n), np.zeros((n, n))
    return np.block([[Z, I], [I, Z]])


def H_of(A, B):
    return np.block([[-A.conj(), B], [-B.conj(), A]]).astype(complex)


def V_of(A, Z):
    return np.block([[-Z.conj(), A], [-A.conj(), Z]]).astype(complex)


def lift(R, ops, direct=False):
    out = np.zeros(ops[0].shape, dtype=complex)
    for i in range(len(ops)):
        left = ops[i] if direct else ops[i].conj().T
        row = sum(R[i, j] * ops[j] for j in range(len(ops)))
        out = out + left @ row
    return out


def expm_herm(H, c=-1.0):
    w, U = np.linalg.eigh((H + H.conj().T) / 2)
    return (U * np.exp(c * w)) @ U.conj().T


def gibbs(H):
    w, U = np.linalg.eigh((H + H.conj().T) / 2)
    e = np.exp(-(w - w.min()))
    return (U * (e / e.sum())) @ U.conj().T


# ----- combinatorics -------------------------------------------------------

def parity(perm):
    perm = list(perm)
    order = sorted(range(len(perm)), key=lambda i: perm[i])
    seen, sign = set(), 1
    for s in range(len(order)):
        k, L = s, 0
        while k not in seen:
            seen.add(k)
            k = order[k]
            L += 1
        if L and L % 2 == 0:
            sign = -sign
    return sign


def matchings_sum(M, idx, sign):
    """sum over perfect matchings of prod M[i][j] (i<j), signed when asked"""
    if not idx:
        return 1
    i, rest = idx[0], idx[1:]
    tot = 0
    for k, j in enumerate(rest):
        s = -1 if (sign and k % 2) else 1
        tot = tot + s * M[i][j] * matchings_sum(M, rest[:k] + rest[k + 1:],
                                                sign)
    return tot


def pf(M):
    return matchings_sum(M, tuple(range(len(M))), True) if len(M) % 2 == 0 else 0


def hf(M):
    return matchings_sum(M, tuple(range(len(M))), False) if len(M) % 2 == 0 else 0


def det_frac(M):
    """exact determinant of a matrix of ints/Fractions"""
    M = [[Fraction(x) for x in r] for r in M]
    n, det = len(M), Fraction(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
        det *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            for k in range(c, n):
                M[r][k] -= f * M[c][k]
    return det


def det_laplace(M):
    n = len(M)
    if n == 0:
        return 1

    @functools.lru_cache(None)
    def go(r, cols):
        if r == n:
            return 1
        tot, s = 0, 1
        for k, c in enumerate(cols):
            tot = tot + (-1) ** k * M[r][c] * go(r + 1, cols[:k] + cols[k + 1:])
        return tot
    return go(0, tuple(range(n)))


def perm_ryser(M):
    n = len(M)
    if n == 0:
        return 1
    tot = 0
    for mask in range(1, 1 << n):
        p = 1
        for r in range(n):
            p = p * sum(M[r][c] for c in range(n) if mask >> c & 1)
        tot = tot + (-1) ** (n - bin(mask).count("1")) * p
    return tot


def perm_laplace(M):
    n = len(M)

    @functools.lru_cache(None)
    def go(r, mask):
        if r == n:
            return 1
        tot = 0
        for c in range(n):
            if mask >> c & 1:
                tot = tot + M[r][c] * go(r + 1, mask & ~(1 << c))
        return tot
    return go(0, (1 << n) - 1)


# ----- graphs --------------------------------------------------------------

def count_matchings(n, edges):
    """weighted number of perfect matchings; edges = [(i, j, w)]"""
    if n % 2:
        return 0
    adj = [dict() for _ in range(n)]
    for i, j, w in edges:
        if i != j:
            adj[i][j] = adj[j][i] = w

    @functools.lru_cache(None)
    def go(rem):
        if not rem:
            return 1
        i = (rem & -rem).bit_length() - 1
        tot, rest = 0, rem & ~(1 << i)
        for j, w in adj[i].items():
            if rest >> j & 1:
                tot += w * go(rest & ~(1 << j))
        return tot
    return go((1 << n) - 1)


def all_matchings(n, edges):
    """set of perfect matchings, each a frozenset of frozenset edges"""
    adj = [set() for _ in range(n)]
    for i, j in edges:
        if i != j:
            adj[i].add(j)
            adj[j].add(i)

    def go(rem):
        if not rem:
            yield frozenset()
            return
        i, rest = rem[0], rem[1:]
        for j in rest:
            if j in adj[i]:
                for m in go(tuple(k for k in rest if k != j)):
                    yield m | {frozenset((i, j))}
    return set(go(tuple(range(n)))) if n % 2 == 0 else set()


# ----- Paulis, entropies ---------------------------------------------------

def pauli_strings(n):
    return list(itertools.product(range(4), repeat=n))


@functools.lru_cache(None)
def _pauli_data(n):
    """index of the nonzero column and value per row, for all strings"""
    out = []
    rows = np.arange(2 ** n)
    for s in pauli_strings(n):
        x = 0
        ph = np.ones(2 ** n, dtype=complex)
        for q, p in enumerate(s):
            sh = n - 1 - q
            bit = (rows >> sh) & 1
            if p in (1, 2):
                x |= 1 << sh
            if p == 2:  # Y: row 0 -> -i, row 1 -> +i
                ph = ph * np.where(bit == 0, -1j, 1j)
            elif p == 3:
                ph = ph * np.where(bit == 0, 1, -1)
        out.append((rows ^ x, ph))
    return out


def pauli_matrix(n, k):
    cols, ph = _pauli_data(n)[k]
    M = np.zeros((2 ** n, 2 ** n), dtype=complex)
    M[np.arange(2 ** n), cols] = ph
    return M


def pauli_expect(rho):
    n = int(round(math.log2(len(rho))))
    rows = np.arange(2 ** n)
    # Tr[P rho] = sum_r P[r, c] rho[c, r]
    return np.array([np.sum(ph * rho[cols, rows])
                     for cols, ph in _pauli_data(n)])


def xlogx(p):
    return [x * math.log(x) for x in p if x > 0]


def shannon(p):
    return -math.fsum(xlogx([float(x) for x in p]))


def renyi(p, a):
    p = [float(x) for x in p if x > 0]
    if a == 0:
        return math.log(len(p))
    if a == 1:
        return shannon(p)
    m = max(p)
    if a == math.inf:
        return -math.log(m)
    s = math.fsum(math.exp(a * math.log(x / m)) for x in p)
    return (math.log(s) + a * math.log(m)) / (1 - a)


def kl(p, q):
    t = []
    for x, y in zip(p, q):
        if x > 0:
            if y <= 0:
                return math.inf
            t.append(x * math.log(x / y))
    return math.fsum(t)


# ----- Gaussian states, moments --------------------------------------------

@functools.lru_cache(None)
def _majorana_products(n, k):
    g = [math.sqrt(2) * m for m in majoranas(n)]
    out = {}
    for idx in itertools.combinations(range(2 * n), k):
        P = np.eye(2 ** n, dtype=complex)
        for i in idx:
            P = P @ g[i]
        out[idx] = P
    return out


def covariance(rho):
    """real skew G with <c_i c_j> = delta_ij + i G_ij (c^2 = 1)"""
    n = int(round(math.log2(len(rho))))
    G = np.zeros((2 * n, 2 * n))
    for (i, j), P in _majorana_products(n, 2).items():
        G[i, j] = (-1j * np.sum(rho * P.T)).real
        G[j, i] = -G[i, j]
    return G


def wick_defect(rho):
    """largest deviation from an even Gaussian state: odd moments vanish, even
    ones are the pfaffians of the two-point function"""
    n = int(round(math.log2(len(rho))))
    G, worst = covariance(rho), 0.0
    for k in range(1, 2 * n + 1):
        if k == 2:
            continue
        for idx, P in _majorana_products(n, k).items():
            v = np.sum(rho * P.T)
            if k % 2:
                w = 0
            else:
                w = 1j ** (k // 2) * pf([[G[a, b] for b in idx] for a in idx])
            worst = max(worst, abs(v - w))
    return worst


def moment(samples, want, what, sigmas=6.5, most=0.0):
    """sample means (first axis) agree with the wanted expectation, judged by
    the observed spread; `samples` must be independent draws. Where few draws
    differ from the usual value the observed spread says little: there the
    spread that goes with the wanted mean counts, for deviations of the size
    seen, or of `most`"""
    x = np.asarray(samples)
    parts = [x.real, x.imag] if np.iscomplexobj(x) else [x]
    wants = [np.real(want), np.imag(want)] if np.iscomplexobj(x) else [want]
    for y, w in zip(parts, wants):
        w = np.broadcast_to(np.asarray(w, dtype=float), y.shape[1:])
        m, s = y.mean(axis=0), y.std(axis=0)
        lim = sigmas * s / math.sqrt(len(y)) + 3 / len(y) * maxabs(y) + 1e-9
        usual = np.median(y, axis=0)
        dev = np.abs(y - usual)
        rare = np.sum(dev > 1e-12, axis=0) < min(200, len(y) / 2)
        if np.any(rare):
            top = np.maximum(dev.max(axis=0), most)
            v = np.maximum(s ** 2, np.abs(w - usual) * top)
            more = np.abs(m - usual) > np.abs(w - usual)  # than expected
            lim = np.where(rare, sigmas * np.sqrt(v / len(y)) + more
                           * sigmas ** 2 / 3 * top / len(y) + 1e-9, lim)
        bad = np.abs(m - w) - lim
        if np.any(bad > 0):
            k = np.unravel_index(np.argmax(bad), bad.shape)
            raise Violation("%s: the mean of %d draws is %.5g instead of %.5g "
                            "(allowed %.2g) at %s" % (
                                what, len(y), m[k], w[k], np.asarray(lim)[k],
                                tuple(int(i) for i in k)))
