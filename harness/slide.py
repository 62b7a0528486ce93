"""Behaviours of MCSlide (which input a kernel entry reads) in real convolutions."""
import math
import random

import torch

from core import SEED

HALF = 1.0


def links(r, kind, n, s, count):
    """for `count` links: (weights, function); low order, so exact by eye"""
    out = []
    for _ in range(count):
        a, b = r.choice([-2, -1, 1, 2, 3]), r.choice([-3, -1, 1, 2])
        if kind == "fourier":
            w = [0.0] * n
            w[0] = 2.0 * b
            if n > 1:
                w[1] = float(a)
            out.append((w, lambda x, a=a, b=b: b + (a * math.sin(math.pi * x / HALF) if n > 1 else 0)))
            continue
        nodes = [-math.cos(math.pi * j / (n - 1)) for j in range(n)]
        if kind == "poly":
            out.append(([a * t + b for t in nodes], lambda x, a=a, b=b: a * x / HALF + b))
        elif kind == "cont":
            xs = [((2 * k + 1 + t) / s - 1) for k in range(s) for t in (nodes if k == 0 else nodes[1:])]
            out.append(([a * t + b for t in xs], lambda x, a=a, b=b: a * x / HALF + b))
        else:
            xs = [(((2 * k + 1 + t) / s - 1), k) for k in range(s) for t in nodes]

            def f(x, a=a, b=b):
                k = min(max(int((x / HALF + 1) / 2 * s), 0), s - 1)
                return a * x / HALF + b + 5 * k

            out.append(([a * t + b + 5 * k for t, k in xs], f))
    return out


def one(r, rows, kind, dim):
    """rows: table of each axis (the last one for 1d)"""
    from high_order_layers_torch.layers import (high_order_convolution_layers,
                                                high_order_convolution_transpose_layers)

    name = {"poly": "polynomial", "cont": "continuous", "disc": "discontinuous", "fourier": "fourier"}[kind]
    b = rows[-1]
    g = r.choice([1, 1, 2])
    cin, cout = g * r.choice([1, 2]), g * r.choice([1, 2])
    n, s = r.choice([2, 3]), 1 if kind in ("poly", "fourier") else r.choice([1, 2, 3])
    kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=b["k"], length=2 * HALF, groups=g)
    if kind in ("cont", "disc"):
        kw["segments"] = s
    for key, q in (("stride", "st"), ("padding", "pad"), ("dilation", "dil"), ("output_padding", "op")):
        if key == "output_padding" and not b["tr"]:
            continue
        v = tuple(row[q] for row in rows)
        kw[key] = v[0] if len(set(v)) == 1 else v
    if b["pm"] != "zeros":
        kw["padding_mode"] = b["pm"]
    obj = (high_order_convolution_transpose_layers if b["tr"] else high_order_convolution_layers)(f"{name}{dim}d", **kw)
    cg, og = cin // g, cout // g
    ks = [b["k"]] * dim
    K = {"poly": n, "fourier": n, "cont": (n - 1) * s + 1, "disc": n * s}[kind]
    nk = b["k"] ** dim
    L = links(r, kind, n, s, cout * cg * nk)
    at = lambda o, c, q: L[(o * cg + c) * nk + q]
    W = torch.zeros([cin * K, og] + ks if b["tr"] else [cout, cg * K] + ks).double()
    flat = W.reshape(W.shape[0], W.shape[1], nk)
    for o in range(cout):
        for c in range(cg):
            for q in range(nk):
                w = torch.tensor(at(o, c, q)[0]).double()
                grp = o // og
                if b["tr"]:
                    flat[(grp * cg + c) * K:(grp * cg + c + 1) * K, o % og, q] = w
                else:
                    flat[o, c * K:(c + 1) * K, q] = w
    if tuple(obj.conv.weight.shape) != tuple(W.shape):
        return "shape of the kernel"
    size = [row["size"] for row in rows]
    # away from the edges of 1, 2 and 3 segments
    X = torch.tensor([r.choice([-7, -6, -5, -3, -2, -1, 1, 2, 3, 5, 6, 7]) for _ in range(cin * math.prod(size))]
                     ).double().reshape([1, cin] + size) / 8
    with torch.no_grad():
        obj.conv.weight.copy_(W.float())
        y = obj(X.float()).double()
    ext = [len(row["table"]) for row in rows]
    if list(y.shape) != [1, cout] + ext:
        return "output size"
    Xf = X.reshape(cin, size[0] if dim == 2 else 1, size[-1])
    T = [rows[0]["table"] if dim == 2 else [[0]], rows[-1]["table"]]
    yf = y.reshape(cout, len(T[0]), len(T[1]))
    for o in range(cout):
        for i, ri in enumerate(T[0]):
            for j, rj in enumerate(T[1]):
                want = 0.0
                for c in range(cg):
                    for p, si in enumerate(ri):
                        for q, sj in enumerate(rj):
                            if si >= 0 and sj >= 0:
                                want += at(o, c, p * len(rj) + q)[1](float(Xf[(o // og) * cg + c, si, sj]))
                if not abs(want - float(yf[o, i, j])) <= 1e-4 * (10 + abs(want)):
                    return "value of output %s" % [o, i, j]
    return None


def replay(c, rows, kinds, cap=None):
    by = {}
    for b in rows:
        by.setdefault((b["k"], b["tr"], b["pm"]), []).append(b)
    r = random.Random(f"{SEED}/slide")
    pick = rows if cap is None or len(rows) <= cap else r.sample(rows, cap)
    done = 0
    for b in pick:
        # the library offers transposed convolutions in two dimensions only
        kind = "cont" if b["tr"] else r.choice(kinds)
        if b["tr"] and "cont" not in kinds:
            continue
        dim = 2 if b["tr"] or r.random() < 0.4 else 1
        part = [b]
        if dim == 2:
            part = [r.choice([q for q in by[(b["k"], b["tr"], b["pm"])] if len(q["table"]) * len(b["table"]) <= 60]), b]
            r.shuffle(part)
        info = dict(kind=kind, dim=dim, rows=part)
        try:
            bad = one(r, part, kind, dim)
        except Exception as ex:
            bad = f"raised {type(ex).__name__}: {ex}"
        if bad:
            c.replayed(False, f"window enumerated by TLC: {bad}", info)
            return
        done += 1
    c.count_replayed(done)


class Double(torch.nn.Module):
    def forward(self, x):
        return 2 * x


def tail_run(r, b):
    from cnets import convs_of
    from high_order_layers_torch.networks import HighOrderTailFocusNetwork

    depth = len(b["k"])
    ch = [r.choice([1, 1, 2]) for _ in range(depth + 1)]
    norm = r.random() < 0.4
    st = b["st"][0] if len(set(b["st"])) == 1 and r.random() < 0.5 else list(b["st"])
    if st == 1 and r.random() < 0.5:
        st = None
    focus = b["focus"][0] if len(set(b["focus"])) == 1 and r.random() < 0.5 else list(b["focus"])
    net = HighOrderTailFocusNetwork(layer_type=r.choice(["polynomial1d", "continuous1d"]), n=2, channels=ch, segments=1,
                                    kernel_size=list(b["k"]), stride=st, padding=b["pad"], focus=focus,
                                    normalization=(lambda c: Double()) if norm else None)
    level = [torch.tensor([[r.choice([-3, -2, -1, 1, 2, 3, 5]) for _ in range(b["width"])] for _ in range(ch[0])]).double()]
    x = level[0].unsqueeze(0)
    objs = convs_of(net)
    if len(objs) != depth:
        return f"{depth} convolutions, found {len(objs)}"
    for j, obj in enumerate(objs):
        a = torch.tensor([[[r.choice([-2, -1, 1, 2]) for _ in range(b["k"][j])] for _ in range(ch[j])]
                          for _ in range(ch[j + 1])]).double()
        W = torch.stack([-a, a], dim=2).reshape(ch[j + 1], ch[j] * 2, b["k"][j])
        if tuple(obj.conv.weight.shape) != tuple(W.shape):
            return f"shape of kernel {j}"
        with torch.no_grad():
            obj.conv.weight.copy_(W.float())
        p = torch.nn.functional.pad(level[-1], (b["pad"], b["pad"]))
        nxt = [[sum(float((a[o, :, t] * p[:, i * b["st"][j] + t]).sum()) for t in range(b["k"][j]))
                for i in range(b["widths"][j + 1])] for o in range(ch[j + 1])]
        level.append(torch.tensor(nxt).double() * (2 if norm else 1))
    ws, sizes = net.compute_sizes(b["width"])
    if [int(v) for v in ws] != b["widths"]:
        return f"reported widths {ws}"
    per = [sum(1 for q in b["aside"] if q[0] == l) for l in range(depth + 1)]
    if [int(v) for v in sizes] != [c * p for c, p in zip(ch, per)]:
        return f"reported sizes {sizes}"
    with torch.no_grad():
        y = net(x.float()).double()
    want = []
    for l in range(depth + 1):
        idx = [q[1] for q in b["aside"] if q[0] == l]
        want += [float(level[l][c, i]) for c in range(ch[l]) for i in idx]
    want = torch.tensor(want).double().reshape(1, -1)
    if y.shape != want.shape:
        return f"output size {tuple(y.shape)}"
    if not bool(((y - want).abs() <= 1e-4 * (1 + want.abs().max())).all()):
        return "output"
    return None


def tails(c, rows, cap):
    r = random.Random(f"{SEED}/tail")
    pick = rows if len(rows) <= cap else r.sample(rows, cap)
    for b in pick:
        try:
            bad = tail_run(r, b)
        except Exception as ex:
            bad = f"raised {type(ex).__name__}: {ex}"
        if bad:
            c.replayed(False, f"tail-focus run enumerated by TLC: {bad}", {"run": b})
            return
    c.count_replayed(len(pick))
