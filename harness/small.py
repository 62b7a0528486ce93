"""Everything small, enumerated by TLC: samples of MCNorm in the normalisations (C13), link values of
MCProd in the product layers (C15)."""
import random

import torch

from core import SEED


def by_len(rows, key):
    out = {}
    for b in rows:
        out.setdefault(len(b[key]), []).append(b)
    return sorted(out.items())


# -- C13 ----------------------------------------------------------------------
def variants():
    """(name, kind, rank of one sample arranged as the variant wants it, callable)"""
    import high_order_layers_torch.layers as L
    import high_order_layers_torch.utils as U

    e = {"eps": 0.5}
    yield "max_abs_normalization", "a", "first", lambda x: U.max_abs_normalization(x, **e)
    yield "max_abs_normalization_last", "a", "last", lambda x: U.max_abs_normalization_last(x, **e)
    yield "max_abs_normalization_nd", "a", "whole", lambda x: U.max_abs_normalization_nd(x, **e)
    yield "max_center_normalization", "c", "first", lambda x: U.max_center_normalization(x, **e)
    yield "max_center_normalization_last", "c", "last", lambda x: U.max_center_normalization_last(x, **e)
    yield "max_center_normalization_nd", "c", "whole", lambda x: U.max_center_normalization_nd(x, **e)
    yield "l2_normalization", "l", "first", lambda x: U.l2_normalization(x, **e)
    for name, kind, where in (("MaxAbsNormalization", "a", "first"), ("MaxAbsNormalizationLast", "a", "last"),
                              ("MaxAbsNormalizationND", "a", "whole"), ("MaxCenterNormalization", "c", "first"),
                              ("MaxCenterNormalizationLast", "c", "last"), ("MaxCenterNormalizationND", "c", "whole"),
                              ("L2Normalization", "l", "first")):
        yield name, kind, where, getattr(L, name)(**e)


def spread(r, X, where):
    """arrange samples X (N, L) so that each is one group of the variant; and how to get them back"""
    N, n = X.shape
    if where == "whole" and n == 4 and r.random() < 0.7:
        s = r.choice([(2, 2), (1, 4), (4, 1), (2, 1, 2), (1, 2, 2, 1)])
        return X.reshape(N, *s), lambda y: y.reshape(N, n)
    if where == "first" and r.random() < 0.6:
        k = r.choice([d for d in (1, 2, 3, 5) if N % d == 0])
        return X.reshape(N // k, k, n).transpose(1, 2).contiguous(), lambda y: y.transpose(1, 2).reshape(N, n)
    if where == "last" and r.random() < 0.6:
        k = r.choice([d for d in (1, 2, 3, 5) if N % d == 0])
        return X.reshape(N // k, k, n), lambda y: y.reshape(N, n)
    return X.clone(), lambda y: y


def norms(c, rows):
    r = random.Random(f"{SEED}/norms")
    done = 0
    for name, kind, where, fn in variants():
        for n, group in by_len(rows, "g"):
            r.shuffle(group)
            X = torch.tensor([b["g"] for b in group], dtype=r.choice([torch.float32, torch.float64]))
            want = torch.tensor([b[kind] for b in group], dtype=torch.float64) / 4096
            x, back = spread(r, X, where)
            keep = x.clone()
            try:
                y = fn(x)
                bad = None if y.shape == x.shape else "shape"
                if bad is None:
                    d = (back(y).double() - want).abs().max(1).values
                    if not bool((x == keep).all()):
                        bad = "input"
                    elif not bool(torch.isfinite(d).all()) or float(d.max()) > 2 / 4096:
                        bad = f"value for {group[int(d.nan_to_num(9e9).argmax())]['g']}"
            except Exception as ex:
                bad = f"raised {type(ex).__name__}: {ex}"
            if bad:
                c.replayed(False, f"samples enumerated by TLC, {name}: {bad}", {"length": n, "where": where})
                return
            done += len(group)
    c.count_replayed(done)


# -- C15 ----------------------------------------------------------------------
def products(c, rows, D):
    from high_order_layers_torch.layers import high_order_fc_layers as F

    r = random.Random(f"{SEED}/products")
    done = 0

    def unit(group, m, alpha):
        p = torch.tensor([b["p"] for b in group], dtype=torch.float64) / D ** m
        s = torch.tensor([b["s"] for b in group], dtype=torch.float64) / D
        return p - (1 - alpha) * s

    def compare(what, m, group, y, want):
        nonlocal done
        y = y.detach().double().flatten()
        tol = 2e-5 * (1 + float(want.abs().max()))
        if y.shape != want.shape or not bool(torch.isfinite(y).all()) or float((y - want).abs().max()) > tol:
            at = group[int((y - want).abs().nan_to_num(9e9).argmax())]["f"] if y.shape == want.shape else "shape"
            c.replayed(False, f"link values enumerated by TLC, {what}: {at}", {"links": m})
            return False
        done += len(group)
        return True

    try:
        for m, group in by_len(rows, "f"):
            r.shuffle(group)
            f = torch.tensor([b["f"] for b in group], dtype=torch.float32) / D
            # the plain product layer: weight times input is the link
            for alpha in (1.0, 0.0, 0.5, r.choice([2.0, -1.0, 0.25])):
                kw = {} if alpha == 1.0 and r.random() < 0.5 else {"alpha": alpha}
                bias = r.random() < 0.5
                L = F("product", in_features=m, out_features=1, bias=bias, **kw)
                w = torch.tensor([[r.choice([1.0, -1.0, 2.0, 0.5]) for _ in range(m)]])
                b = r.choice([0.0, 1.0, -0.5])
                with torch.no_grad():
                    L.weight.copy_(w)
                    if bias:
                        L.bias.fill_(b)
                    y = L(f / w)
                if not compare(f"product alpha={alpha}", m, group, y, unit(group, m, alpha) + (b if bias else 0)):
                    return
            # product units of polynomial links
            want = unit(group, m, 1.0)
            for t in ("polynomial_prod", "continuous_prod", "discontinuous_prod"):
                n = r.choice([2, 3, 4])
                kw = dict(n=n, in_features=m)
                if t[0] != "p":
                    kw["segments"] = r.choice([1, 2, 3])
                # one output per sequence, links constant
                L = F(t, out_features=len(group), **kw)
                with torch.no_grad():
                    L.w.copy_(f.reshape(len(group), m, 1).expand_as(L.w))
                    y = L(torch.rand(1, m) * 2 - 1)
                if not compare(t + " of constants", m, group, y, want):
                    return
                if t[0] == "p":
                    # one sample per sequence, links the identity times a sign
                    L = F(t, out_features=1, **kw)
                    X = torch.linspace(0, 1, n).mul(torch.pi).cos().neg()
                    q = torch.tensor([r.choice([-1.0, 1.0]) for _ in range(m)])
                    with torch.no_grad():
                        L.w.copy_((q.reshape(1, m, 1) * X).expand_as(L.w))
                        y = L(f * q)
                    if not compare(t + " of lines", m, group, y, want):
                        return
    except Exception as ex:
        c.replayed(False, f"link values enumerated by TLC: raised {type(ex).__name__}: {ex}", {})
        return
    c.count_replayed(done)


# -- C10 ----------------------------------------------------------------------
A = [2, -1, 3, 1, -2, 1, -1, 2]
B = [1, -2, 0, 1, 2, -1, 1, 0]


def line(kind, n, s, a, b, half):
    """weights of a link that is the line a x + b on [-half, half]"""
    import math

    nodes = [-math.cos(math.pi * j / (n - 1)) for j in range(n)]
    s = 1 if kind == "polynomial" else s
    W = []
    for q in range(s):
        row = [a * half * (-1 + (2 * q + 1 + t) / s) + b for t in nodes]
        W += row if kind == "discontinuous" or q == 0 else row[1:]
    return torch.tensor(W)


def net_one(r, b, which):
    from high_order_layers_torch.networks import HighOrderMLP, HighOrderMLPList, LowOrderMLP
    from net import NORMS, Halve, handles
    from nets import linears

    hid = b["hid"]
    w = r.choice([1, 1, 2, 3])
    inw, outw = r.choice([1, w]), r.choice([1, w])
    t = r.choice(["polynomial", "continuous", "discontinuous"])
    n, s = r.choice([2, 3, 4]), r.choice([1, 2, 3])
    norm = None if b["norm"] == "none" else NORMS[b["norm"]]
    nl = None if b["nl"] == "none" else NORMS[b["nl"]]()
    half = 64.0        # everything stays inside
    kw = {} if which == "low" else {"scale": 2 * half}
    if which == "list":
        d = hid + 2
        if norm:
            kw["normalization"] = [norm] * d
        if nl:
            kw["non_linearity"] = [nl] * d
        net = HighOrderMLPList(layer_type=[t] * d, n=[n] * d, segments=[s] * d, width=[inw] + [w] * (hid + 1) + [outw], **kw)
    else:
        if norm:
            kw["normalization"] = norm
        if nl:
            kw["non_linearity"] = nl
        kw.update(in_width=inw, out_width=outw, hidden_layers=hid, hidden_width=w)
        if which == "low":
            net = LowOrderMLP(**kw)
        else:
            net = HighOrderMLP(layer_type=t, n=n, n_in=n, n_out=n, n_hidden=n, in_segments=s, out_segments=s,
                               hidden_segments=s, **kw)
    ls = linears(net.model) if which == "low" else handles(net.model)
    if len(ls) != hid + 2:
        return f"{hid + 2} layers"
    with torch.no_grad():
        for j, m in enumerate(ls):
            if which == "low":
                m.weight.zero_()
                m.weight[0, 0] = A[j]
                m.bias.fill_(B[j])
            else:
                m.w.zero_()
                m.w[0, 0] = line(t, n, s, A[j], B[j], half)
        x = torch.rand(3, inw)
        x[:, 0] = torch.tensor([-1.0, 0.0, 1.0])
        y = net(x)
    if tuple(y.shape) != (3, outw):
        return "shape of the output"
    want = torch.tensor(b["v"], dtype=torch.float64) / 2 ** b["e"]
    d = float((y[:, 0].double() - want).abs().max())
    return None if d <= 2e-3 * (hid + 1) * (1 + float(want.abs().max()) / 16) else f"output {y[:, 0].tolist()} for {want.tolist()}"


def networks(c, rows, rounds):
    r = random.Random(f"{SEED}/networks")
    done = 0
    for _ in range(rounds):
        for b in rows:
            for which in ("low", "mlp", "list"):
                try:
                    bad = net_one(r, b, which)
                except Exception as ex:
                    bad = f"raised {type(ex).__name__}: {ex}"
                if bad:
                    c.replayed(False, f"network enumerated by TLC, {which}: {bad}", {"net": b})
                    return
                done += 1
    c.count_replayed(done)
