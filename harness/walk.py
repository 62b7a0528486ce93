"""Behaviours of MCWalk (mesh and folding) in the real lookup functions and layers."""
import math
import random

import numpy as np
import torch

from core import SEED

NAME = {"poly": "polynomial", "cont": "continuous", "disc": "discontinuous"}


class Marked:
    """a link function that tells segment and local position apart"""

    def __init__(self, r, kind, n, s):
        self.kind, self.n, self.s = kind, n, 1 if kind == "poly" else s
        self.g = [r.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(s + 1)]
        self.a = [r.choice([-2, -1, 1, 2]) for _ in range(s)]

    def at(self, k, t):
        bump = self.a[k] * (1 - t * t) if self.n >= 3 else 0.0
        if self.kind == "disc":
            return 4.0 * (k % 7) + (self.a[k] * t if self.n >= 2 else 0.0) + bump
        if self.n == 1:
            return float(self.g[0])
        return self.g[k] + (self.g[k + 1] - self.g[k]) * (t + 1) / 2 + bump

    def weights(self):
        n = self.n
        nodes = [0.0] if n == 1 else [-math.cos(math.pi * j / (n - 1)) for j in range(n)]
        W = []
        for k in range(self.s):
            row = [self.at(k, t) for t in nodes]
            W += row if self.kind == "disc" or k == 0 else row[1:]
        if self.kind == "cont" and n == 1:
            W = W[:1]
        return W


def build(r, kind, n, s, half, period, conv):
    from high_order_layers_torch.layers import high_order_convolution_layers, high_order_fc_layers

    kw = dict(n=n, length=2 * half)
    if kind != "poly":
        kw["segments"] = s
    if period:
        kw["periodicity"] = period
    if conv:
        return high_order_convolution_layers(NAME[kind] + f"{conv}d", in_channels=1, out_channels=1, kernel_size=1, **kw)
    return high_order_fc_layers(NAME[kind], in_features=1, out_features=1, **kw)


def near(a, b, tol):
    return a.shape == b.shape and bool(torch.isfinite(a).all()) and bool((a - b).abs().max() <= tol)


def one(c, q, b):
    from high_order_layers_torch.utils import make_periodic

    r = random.Random(f"{SEED}/walk/{q}")
    s, P, U, H, walk = b["s"], b["P"], b["U"], b["H"], b["walk"]
    what = {"segments": s, "period": P, "unit": U}

    def fail(clause, **kw):
        c.replayed(False, clause, dict(what, **kw))
        return False

    half = r.choice([1.0, 0.5, 2.0, 1.5, 0.25])
    x = torch.tensor([w["X"] for w in walk]).double() * half / U
    pos = torch.tensor([w["pos"] for w in walk]).double() * half / U
    loc = torch.tensor([w["T"] for w in walk]).double() * half / H
    ks = torch.tensor([w["k"] for w in walk])
    edge = torch.tensor([w["both"] for w in walk])
    period = P * half / U
    x32 = x.float()
    reach = float(x.abs().max()) + half
    tol = 2e-6 * reach
    if P:
        got = make_periodic(x32, period)
        if not near(got.double(), pos, tol):
            return fail("folding along the walk enumerated by TLC")
    for kind in ("poly", "cont", "disc"):
        n = r.choice([1, 2, 3, 4, 5]) if kind != "cont" else r.choice([2, 3, 4, 5])
        obj = build(r, kind, n, s, half, period if P else None, 0)
        if kind != "poly":
            seg = obj.which_segment(x32.reshape(-1, 1)).flatten()
            ok = (seg == ks) | (edge & ((seg - ks).abs() == 1) & (seg >= 0) & (seg < s))
            if not bool(ok.all()):
                return fail("segment lookup along the walk enumerated by TLC", kind=kind, at=int((~ok).nonzero()[0]))
            got = obj.x_local(pos.float().reshape(-1, 1), ks.reshape(-1, 1)).flatten().double()
            if not near(got, loc, 4 * tol * s):
                return fail("local coordinate along the walk enumerated by TLC", kind=kind)
            got = obj.x_global(loc.float().reshape(-1, 1), ks.reshape(-1, 1)).flatten().double()
            if not near(got, pos, 2 * tol):
                return fail("global coordinate along the walk enumerated by TLC", kind=kind)
        f = Marked(r, kind, n, s)
        W = torch.tensor(f.weights(), dtype=torch.float32)
        if kind == "poly":
            t = (pos / half).tolist()
            want = torch.tensor([f.at(0, v) for v in t]).double()
            keep = pos.abs() <= half * 1.01
        else:
            t = (loc / half).tolist()
            want = torch.tensor([f.at(k, v) for k, v in zip(ks.tolist(), t)]).double()
            # far outside the end polynomials amplify rounding; edges of a
            # discontinuous link have two values
            keep = (loc.abs() <= half * 3) & ~(edge if kind == "disc" else torch.zeros_like(edge))
        if not bool(keep.any()):
            continue
        # rounding of the position counts in units of a segment
        bar = 1e-5 * (1 + float(want[keep].abs().max())) + 30 * tol / half * s
        conv = r.choice([1, 2])
        for m, layer in ((0, obj), (conv, build(r, kind, n, s, half, period if P else None, conv))):
            with torch.no_grad():
                if m:
                    p = layer.conv.weight
                    p.copy_(W.reshape(p.shape))
                    y = layer(x32.reshape((1, 1, -1) if m == 1 else (1, 1, 1, -1))).flatten().double()
                else:
                    layer.w.copy_(W.reshape(layer.w.shape))
                    y = layer(x32.reshape(-1, 1)).flatten().double()
            if y.shape != want.shape or not near(y[keep], want[keep], bar):
                return fail("response along the walk enumerated by TLC", kind=kind, n=n, conv=m)
    return True


def replay(c, rows, fold):
    """walks with (fold) or without a period"""
    done = 0
    for q, b in enumerate(rows):
        if (b["P"] != 0) != fold:
            continue
        try:
            if not one(c, q, b):
                return
        except Exception as ex:
            c.replayed(False, f"walk raised {type(ex).__name__}: {ex}", {"segments": b["s"], "period": b["P"]})
            return
        done += 1
    c.count_replayed(done)


def nd_one(r, bs):
    """one walk per axis, taken in step"""
    from high_order_layers_torch.layers import high_order_fc_layers

    dim = len(bs)
    half = r.choice([1.0, 0.5, 2.0, 1.5])
    n = [r.choice([2, 3]) for _ in bs]
    s = [b["s"] for b in bs]
    U = bs[0]["U"]
    steps = len(bs[0]["walk"])
    order = [list(range(steps)) for _ in bs]
    for q in order[1:]:
        r.shuffle(q)
    rows = [[bs[k]["walk"][order[k][t]] for k in range(dim)] for t in range(steps)]
    obj = high_order_fc_layers("continuous_nd", n=n, segments=s, in_features=1, out_features=1, length=2 * half)
    x = torch.tensor([[w["pos"] for w in row] for row in rows]).double() * half / U
    ks = torch.tensor([[w["k"] for w in row] for row in rows])
    loc = torch.tensor([[w["T"] * half / b["H"] for w, b in zip(row, bs)] for row in rows]).double()
    edge = torch.tensor([[w["both"] for w in row] for row in rows])
    tol = 2e-6 * (float(x.abs().max()) + half)
    seg = obj.which_segment(x.float())
    if tuple(seg.shape) != tuple(ks.shape):
        return "shape of the segment lookup"
    top = torch.tensor(s) - 1
    ok = (seg == ks) | (edge & ((seg - ks).abs() == 1) & (seg >= 0) & (seg <= top))
    if not bool(ok.all()):
        return "segment lookup"
    if not near(obj.x_local(x.float(), ks).double(), loc, 4 * tol * max(s)):
        return "local coordinate"
    if not near(obj.x_global(loc.float(), ks).double(), x, 2 * tol):
        return "global coordinate"
    # blocks told apart, a cross term and a slope on each
    a = [r.choice([-2, -1, 1, 2]) for _ in bs]
    mark = [r.choice([3, 5, 7]) for _ in bs]
    f = lambda k, t: sum((m * (q % 5) + v * z) for m, q, v, z in zip(mark, k, a, t)) + math.prod(t)
    nodes = [[-math.cos(math.pi * j / (c - 1)) for j in range(c)] for c in n]
    import itertools

    W = [f(k, t) for k in itertools.product(*[range(v) for v in s]) for t in itertools.product(*nodes)]
    if obj.w.numel() != len(W):
        return "number of weights"
    with torch.no_grad():
        obj.w.copy_(torch.tensor(W).reshape(obj.w.shape))
        y = obj(x.float().reshape(steps, 1, dim)).double().flatten()
    want = torch.tensor([f(k, [v / half for v in t]) for k, t in zip(ks.tolist(), loc.tolist())]).double()
    keep = (loc.abs() <= 3 * half).all(-1) & ~edge.any(-1)
    if y.shape != want.shape or not near(y[keep], want[keep], 2e-5 * (1 + float(want[keep].abs().max())) * max(s)):
        return "response"
    return None


def nd_replay(c, rows, count):
    r = random.Random(f"{SEED}/nd")
    rows = [b for b in rows if b["P"] == 0]
    for q in range(count):
        dim = r.choice([1, 2, 2, 3])
        bs = [r.choice([b for b in rows if b["s"] <= {1: 99, 2: 9, 3: 4}[dim]]) for _ in range(dim)]
        if q < len(rows):
            bs = [rows[q]]
        try:
            bad = nd_one(r, bs)
        except Exception as ex:
            bad = f"raised {type(ex).__name__}: {ex}"
        if bad:
            c.replayed(False, f"walks enumerated by TLC, one per axis: {bad}", {"segments": [b["s"] for b in bs]})
            return
    c.count_replayed(count)


def basis(n, t):
    """values of the n Lagrange polynomials at local position t in [-1, 1] or beyond"""
    x = [0.0] if n == 1 else [-math.cos(math.pi * j / (n - 1)) for j in range(n)]
    return [math.prod((t - x[m]) / (x[j] - x[m]) for m in range(n) if m != j) for j in range(n)]


def first_weight(kind, n, k):
    return k * (n if kind == "disc" else n - 1)


def support_one(c, q, b):
    """C03: at every step of the walk exactly the weights of the walker's segment have a
    gradient, each the value of its basis polynomial"""
    r = random.Random(f"{SEED}/support/{q}")
    s, P, U, H = b["s"], b["P"], b["U"], b["H"]
    walk = r.sample(b["walk"], min(len(b["walk"]), 24))
    half = r.choice([1.0, 0.5, 2.0, 1.5])
    for kind in ("cont", "disc"):
        n = r.choice([2, 3, 4, 5])
        conv = r.choice([0, 0, 1, 2])
        m = build(r, kind, n, s, half, P * half / U if P else None, conv)
        p = m.conv.weight if conv else m.w
        with torch.no_grad():
            p.copy_(torch.randn_like(p))
        for w in walk:
            t = w["T"] / H
            if abs(t) > 2.5:
                continue
            x = torch.tensor([w["X"] * half / U], dtype=torch.float32).reshape([1, 1, 1, 1][:2 + conv])
            p.grad = None
            m(x).sum().backward()
            g = p.grad.flatten().double()
            ok = []
            for k, t1 in [(w["k"], t)] + ([(w["k"] + 1, -1.0), (w["k"] - 1, 1.0)] if w["both"] else []):
                if not 0 <= k < s or (k != w["k"] and abs(t1 + t) > 1e-9):
                    continue
                want = torch.zeros_like(g)
                a = first_weight(kind, n, k)
                want[a:a + n] = torch.tensor(basis(n, t1), dtype=torch.float64)
                inside = torch.zeros_like(g, dtype=torch.bool)
                inside[a:a + n] = True
                scale = 1 + float(want.abs().max())
                near_ = bool((g - want).abs().max() <= 2e-4 * scale * s * (1 + abs(w["X"]) / U))
                ok.append(bool((g[~inside] == 0).all()) and near_)
            if not any(ok):
                c.replayed(False, "weights with a gradient along the walk enumerated by TLC",
                           {"segments": s, "period": P, "kind": kind, "n": n, "conv": conv, "X": w["X"], "unit": U})
                return False
    return True


def edges_one(c, q, b):
    """C02: at every inner edge the walk meets, a continuous link takes the shared value and has
    it as limit from both sides; a discontinuous one takes one of its two end values"""
    r = random.Random(f"{SEED}/edges/{q}")
    s, P, U = b["s"], b["P"], b["U"]
    half = r.choice([1.0, 0.5, 2.0, 1.5])
    on = [w for w in b["walk"] if w["both"]]
    if not on:
        return True
    for kind in ("cont", "disc"):
        n = r.choice([2, 3, 4, 5, 6])
        conv = r.choice([0, 0, 1, 2])
        m = build(r, kind, n, s, half, P * half / U if P else None, conv)
        p = m.conv.weight if conv else m.w
        with torch.no_grad():
            p.copy_(torch.randn_like(p))
            W = p.flatten().double().tolist()
            d = 1e-5 * half
            X = torch.tensor([[w["X"] * half / U + e for e in (-d, 0.0, d)] for w in on], dtype=torch.float64)
            y = m(X.float().reshape([-1, 1] if not conv else [1, 1, -1] if conv == 1 else [1, 1, 1, -1]))
        y = y.double().reshape(-1, 3)
        tol = 2e-3 * n * n * s * (1 + max(abs(w["X"]) for w in on) / U / 8)
        tol = min(tol * max(1.0, max(map(abs, W))) * 0.05 + 1e-4, 0.2)
        for w, v in zip(on, y.tolist()):
            e = w["k"] + (1 if w["T"] > 0 else 0)       # edge number, 1 .. s-1
            if kind == "cont":
                want = W[e * (n - 1)]
                ok = all(abs(a - want) <= tol for a in v)
            else:
                want = (W[e * n - 1], W[e * n])
                ok = min(abs(v[1] - a) for a in want) <= tol
            if not ok:
                c.replayed(False, "value at an edge of the walk enumerated by TLC",
                           {"segments": s, "period": P, "kind": kind, "n": n, "conv": conv, "X": w["X"], "unit": U})
                return False
    return True


def each(c, rows, fn):
    done = 0
    for q, b in enumerate(rows):
        try:
            if not fn(c, q, b):
                return
        except Exception as ex:
            c.replayed(False, f"walk raised {type(ex).__name__}: {ex}", {"segments": b["s"], "period": b["P"]})
            return
        done += 1
    c.count_replayed(done)
