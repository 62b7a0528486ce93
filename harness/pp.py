"""Concretisation of piecewise polynomials: choose integer coefficients, turn
them into weights (values at Chebyshev-Lobatto nodes, float64) and bound the
float32 rounding error.  Nothing here evaluates the expected output."""
import math

import numpy as np

EPS = 2.0 ** -23


def nodes(n):
    if n == 1:
        return np.zeros(1)
    return -np.cos(np.pi * np.arange(n) / (n - 1))


def degree(c):
    d = len(c) - 1
    while d > 0 and c[d] == 0:
        d -= 1
    return d


def layer_deg(f):
    return max(degree(c) for fo in f for fi in fo for c in fi)


def rand_poly(rng, n, deg=None, cmax=3, dense=0.7):
    deg = n - 1 if deg is None else min(deg, n - 1)
    c = [rng.randint(-cmax, cmax) if (rng.random() < dense) else 0 for _ in range(deg + 1)]
    if deg > 0 and c[deg] == 0:
        c[deg] = rng.choice([-1, 1])
    return c


def at(c, t):
    return sum(c) if t == 1 else sum(v * (-1) ** k for k, v in enumerate(c))


def rand_func(rng, kind, n, s, deg=None, cmax=3, big=8):
    """s polynomials; continuous when kind is cont"""
    if kind == "cont" and n == 1:
        return [[rng.randint(-cmax, cmax)] for _ in range(1)] * s
    out = []
    for k in range(s):
        c = rand_poly(rng, n, deg if deg is None else rng.randint(0, deg), cmax)
        if kind == "cont" and out:
            want = at(out[-1], 1)
            odd = sum(v for j, v in enumerate(c) if j % 2 == 1)
            # keep the values bounded: turn the segment around if it runs away
            if abs(want + 2 * odd) > big and abs(want - 2 * odd) < abs(want + 2 * odd):
                c = [v if j % 2 == 0 else -v for j, v in enumerate(c)]
            c[0] += want - at(c, -1)
        out.append(c)
    return out


def pval(c, t):
    r = np.zeros_like(t)
    for v in reversed(c):
        r = r * t + v
    return r


def weights(f, d, kind, n, s):
    """weights of a link function given on len(f) segments, s % len(f) == 0"""
    X = nodes(n)
    r = s // len(f)
    K = {"poly": n, "cont": (n - 1) * s + 1, "disc": n * s}[kind]
    w = np.zeros(K)
    for k in range(s):
        t = ((X + 1) + 2 * (k % r)) / r - 1
        v = pval(f[k // r], t) / d
        if kind == "cont":
            w[k * (n - 1):k * (n - 1) + n] = v
        else:
            w[k * n:k * n + n] = v
    return w


def all_weights(f, d, kind, n, s):
    return np.array([[weights(fi, d, kind, n, s) for fi in fo] for fo in f])


def basis_abs(n, t):
    """|L_j(t)|, shape t.shape + (n,)"""
    X = nodes(n)
    t = np.asarray(t, dtype=float)
    out = np.ones(t.shape + (n,))
    for j in range(n):
        for m in range(n):
            if m != j:
                out[..., j] *= np.abs(t - X[m]) / abs(X[j] - X[m])
    return out


def fold(x, p):
    if not p:
        return x
    m = np.mod(x + p / 2, 2 * p)
    return np.where(m > p, 2 * p - m, m) - p / 2


def seg_t(x, half, s):
    k = np.clip(np.floor((x + half) * s / (2 * half) + 1e-9), 0, s - 1).astype(int)
    t = s * (x + half) / half - (2 * k + 1)
    return k, t


def basis_dabs(n, t):
    """sum of absolute terms of L_j'(t)"""
    X = nodes(n)
    t = np.asarray(t, dtype=float)
    out = np.zeros(t.shape + (n,))
    for j in range(n):
        for m in range(n):
            if m == j:
                continue
            p = np.ones(t.shape) / abs(X[j] - X[m])
            for q in range(n):
                if q not in (j, m):
                    p = p * np.abs(t - X[q]) / abs(X[j] - X[q])
            out[..., j] += p
    return out


def link_info(W, kind, n, s, half, period, x):
    """per link [out, batch, in]: value, sum of absolute terms, rounding error,
    |d/dx|, absolute sum of the basis; all in float64, used for tolerances only"""
    x0 = np.asarray(x, dtype=float)
    x = fold(x0, period)
    st = {"poly": 0, "cont": n - 1, "disc": n}[kind]
    inn = W.shape[1]
    h = 1e-4
    xs = 1 + np.abs(x) / half
    if period:
        xs = xs + 2 * (np.abs(x0) + 2 * period) / half
    V = S = E = slope = leb = None
    # right at an edge rounding may land on either side: take the worse of both
    for dx in (0.0, -1e-4 * half, 1e-4 * half):
        k = seg_t(x + dx, half, s)[0]
        t = s * (x + half) / half - (2 * k + 1)
        idx = (k * st)[..., None] + np.arange(n)
        w = W[:, np.arange(inn)[None, :, None], idx]  # out,batch,in,n
        Bs = basis_signed(n, t)
        Sk = np.einsum("bin,obin->obi", np.abs(Bs), np.abs(w))
        sk = np.abs(np.einsum("bin,obin->obi", (basis_signed(n, t + h) - basis_signed(n, t - h)) / (2 * h), w))
        Ek = EPS * (3 * (n + 4) * Sk + sk * xs[None] * (4 * s + 4))
        lk = np.abs(Bs).sum(-1)[None]
        if V is None:
            V, S, E, slope, leb = np.einsum("bin,obin->obi", Bs, w), Sk, Ek, sk, lk
        else:
            S, E, slope, leb = (np.maximum(p, q) for p, q in ((S, Sk), (E, Ek), (slope, sk), (leb, lk)))
    return V, S, E, slope * s / half, leb


def link_bounds(W, kind, n, s, half, period, x):
    """(size, err): [out, batch, in] bounds on |link value| and its rounding error"""
    V, S, E, sl, leb = link_info(W, kind, n, s, half, period, x)
    return S, E


def basis_signed(n, t):
    X = nodes(n)
    out = np.ones(t.shape + (n,))
    for j in range(n):
        for m in range(n):
            if m != j:
                out[..., j] *= (t - X[m]) / (X[j] - X[m])
    return out


def pick_H(deg, bound, cap=256):
    """power of two H with bound * H^deg < 2^28"""
    H = cap
    while H > 1 and bound * float(H) ** deg > 2 ** 28:
        H //= 2
    return max(H, 1)
