"""C01: values, mesh helpers; also used as building blocks by other checks."""
import torch

from core import listof, to_int
from lay import HALVES, Layer

SEGS = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32]


def rand_layer(h, kinds=("poly", "cont", "disc"), comb="sum", maxn=10, maxs=32, per=None, maxw=6, half=None, minn=1, units=True):
    r = h.rng
    kind = r.choice(kinds)
    n = r.choice([k for k in [1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10] if minn <= k <= maxn])
    s = r.choice([k for k in SEGS if k <= maxs])
    if n >= 7 and s > 8:
        s = r.choice([1, 2, 3])
    inn, out = r.randint(1, maxw), r.randint(1, max(1, maxw - 1))
    big = r.random()
    if big < 0.15 and comb == "sum":
        # one dimension at a time well beyond the usual sizes
        if big < 0.04 and maxn >= 8:
            n, s = r.choice([11, 12, 14, 16, 20]), r.choice([1, 2])
        elif big < 0.08 and maxs > 16:
            s, n = r.choice([24, 33, 50, 64, 100, 150, 260, 300]), min(n, r.choice([2, 3]))
            n = max(n, minn)
        elif big < 0.12:
            inn, out = r.choice([8, 9, 12, 17, 24, 33]), r.choice([1, 2])
        else:
            inn, out = r.choice([1, 2]), r.choice([8, 9, 16, 17, 33])
    half = half or r.choice(HALVES)
    return Layer(h, kind, n, s, inn, out, comb=comb, half=half, per=per, units=units)


def batch(L, D, size, lo=-1.0, hi=1.0, edge=0.15):
    e = L.edges(D)
    r = L.h.rng
    rows = []
    for _ in range(size):
        row = [L.grid(D, lo, hi) for _ in range(L.inn)]
        if e and r.random() < 0.5:
            # at most one ambiguous coordinate per row for discontinuous layers
            row[r.randrange(L.inn)] = r.choice(e)
        rows.append(row)
    return rows


def observe(L, inside=None, outside=None):
    r = L.h.rng
    D = L.pick_D()
    size = inside or r.choice([1, 2, 3, 8, 24, 70, 140])
    # bound the work of one event
    size = max(1, min(size, 4000 // max(1, L.inn * L.out * L.n)))
    L.fwd(batch(L, D, size), D)
    if outside != 0 and (outside or r.random() < 0.6):
        # far enough outside that the continuation of the end segment shows
        t = r.choice([1.25, 1.5, 2.0, 3.0])
        far = {0: r.choice([50, 50, 5000]), 1: r.choice([30, 30, 200]), 2: 8, 3: 4, 4: 3, 5: 2, 6: 2}.get(L.deg, 1.0) * t / L.s + 1
        D2 = L.pick_D(tmax=(far - 1) * L.s + 1)
        L.fwd(batch(L, D2, min(size, 4), -far, far), D2)


def helpers(L):
    """segment lookup and coordinate conversions (piecewise layers only)"""
    h, r = L.h, L.h.rng
    D = L.s * r.choice([2, 3, 4, 8]) * (2 * L.pd if L.pn else 1)
    X = [L.grid(D, -1.6, 1.6) for _ in range(10)] + L.edges(D)[:6]
    x = torch.tensor([v / D * L.ux for v in X], dtype=torch.float32).reshape(-1, 1)
    obj = L.obj
    sgm = h.lib("which_segment", lambda: obj.which_segment(x), id=L.id)
    h.ev("seg", id=L.id, X=X, D=D, S=[int(v) for v in sgm.flatten().tolist()])
    k = [r.randrange(L.s) for _ in X]
    ki = torch.tensor(k).reshape(-1, 1)
    sc = L.hd * L.loc_h(D, L.s)
    m = max(1, (1 << 20) // sc)
    # local coordinates grow with the number of segments
    while m > 1 and sc * m * L.half * (2.7 * L.s) > 2 ** 29:
        m //= 2
    sc *= m
    tol = 2 + int(sc * L.half * 3e-6 * L.s * L.s)
    loc = h.lib("x_local", lambda: obj.x_local(x, ki), id=L.id)
    # beyond this many segments float32 cannot resolve the local coordinate
    if 50 * tol <= sc:
        h.ev("loc", id=L.id, X=X, D=D, k=k, Y=to_int(listof(loc.flatten() / L.ux), sc), sc=sc, tol=tol)
    H = 8
    T = [r.randint(-12, 12) for _ in X]
    tl = torch.tensor([L.half * L.ux * t / H for t in T], dtype=torch.float32).reshape(-1, 1)
    sc = L.hd * L.s * H
    sc *= max(1, (1 << 20) // sc)
    glob = h.lib("x_global", lambda: obj.x_global(tl, ki), id=L.id)
    h.ev("glob", id=L.id, T=T, H=H, k=k, Y=to_int(listof(glob.flatten() / L.ux), sc), sc=sc, tol=2 + int(sc * L.half * 4e-6))


def history(h):
    """several layers alive together, weights rewritten between evaluations"""
    r = h.rng
    ls = [rand_layer(h) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.3:
        # same shape parameters, different domain: nothing may be shared
        a = ls[0]
        ls.append(Layer(h, a.kind, a.n, a.s, a.inn, a.out, half=r.choice(HALVES), units=True))
    for L in ls:
        L.set(L.rand_f(deg=r.choice([None, None, 1, 2]), cmax=r.choice([1, 3, 5])), r.choice([1, 2, 3, 10]))
    for _ in range(r.choice([2, 3, 4])):
        L = r.choice(ls)
        a = r.random()
        if a < 0.2:
            L.set(L.rand_f(cmax=3), r.choice([1, 4]))
        if a < 0.35 and L.kind != "poly":
            helpers(L)
        if a > 0.9:
            (L.obj.eval if r.random() < 0.5 else L.obj.train)()
        observe(L)
    for L in ls:
        observe(L, outside=0)
