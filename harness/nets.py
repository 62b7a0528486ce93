"""Histories on networks: C05, C06 (refinement), C07 (smoothing), C10 (composition)."""
import math

import numpy as np
import torch
from torch import nn

import pp
from c01 import SEGS, batch, observe, rand_layer
from core import Abort, listof, to_int
from fc import FACTORS, put_weights, rand_weights, smooth_numbers, smooth_call
from lay import HALVES, Layer, layouts
from net import (NONLIN, NORMS, TYPE_KIND, Net, between, build_mlp, common, fill, handles, linears, mlp_cfg, mlp_layers,
                 norm_of, own_norms,
                 nl_of, probe, stages_of)


def frozen(h, obj):
    """exact image of all weights, to show that they did not move"""
    return {k: v.detach().clone() for k, v in obj.state_dict().items()}


def unchanged(h, obj, before, what):
    after = obj.state_dict()
    same = list(before) == list(after) and all(
        before[k].shape == after[k].shape and bool(((before[k] == after[k]) | (before[k] != before[k])).all())
        for k in before)
    h.fact(same, what)


def c04_net(h):
    """every layer of a network folds its input"""
    reach = h.rng.choice([1.5, 3.0, 5.0])
    if h.rng.random() < 0.5:
        mlp(h, per=h.rng.choice(["always", "deep"]), reach=reach)
    else:
        mlp_list(h, per=1.0, reach=reach)


# -- C10 ----------------------------------------------------------------------------
def mlp(h, per=True, reach=1.25):
    c = mlp_cfg(h, per=per, types=["continuous", "continuous", "polynomial", "discontinuous"] if per == "deep" else None)
    if per == "deep":
        c["n"], c["s"] = [h.rng.choice([2, 2, 3]) for _ in range(3)], [min(k, 2) for k in c["s"]]
        c["norm"], c["nl"], c["steep"] = None, h.rng.choice([None, "neg"]), True
    net = build_mlp(h, c, dropout=h.rng.random() < 0.15)
    g = mlp_layers(h, c, net.model)
    own_norms(h, net, c["hid"] + 1 if c["norm"] else 0)
    fill(c, g)
    N = Net(h, stages_of(c, g), net, c["ux"])
    h.cover.add(f"mlp {c['t']} hid={c['hid']} norm={c['norm']} nl={c['nl']}")
    probe(N, c["inw"], c["half"], reach=reach, tries=20 if per == "deep" else 6)
    return c, net, g, N


def resnet(h):
    """residual networks: hidden layers after the first add what they were given.  With a
    non-linearity that changes nothing when repeated this is what the network must do"""
    from high_order_layers_torch.networks import HighOrderMLP

    r = h.rng
    c = mlp_cfg(h, types=["continuous", "discontinuous", "polynomial"], maxw=2, depth=r.choice([1, 2, 2, 3, 4]))
    if r.random() < 0.5:
        c["norm"], c["nl"] = r.choice([None, "halve", "neg"]), "relu"
    else:
        c["norm"], c["nl"] = "relu", None
    net = build_mlp(h, c, True)
    g = mlp_layers(h, c, net.model)
    fill(c, g, deg2=0.1)
    st = []
    for j, q in enumerate(g):
        if j:
            st += between(c)
        stage = {"op": "layer", "L": q[0]}
        st.append({"op": "sum", "nets": [[stage], []]} if 2 <= j <= c["hid"] else stage)
    h.cover.add(f"resnet {c['t']} hid={c['hid']} norm={c['norm']}")
    probe(Net(h, st, net, c["ux"]), c["inw"], c["half"], tries=10)


def mlp_in_type(h):
    """another layer type for the input layer"""
    from high_order_layers_torch.networks import HighOrderMLP

    r = h.rng
    base = ["continuous", "discontinuous", "polynomial"]
    tin, t = r.sample(base, 2)
    n, s, hid = r.randint(2, 4), r.choice([1, 2, 3]), r.choice([0, 1])
    inw, hw, outw = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
    net = h.lib("construct network", lambda: HighOrderMLP(
        layer_type=t, layer_type_in=tin, n=n, in_width=inw, out_width=outw, hidden_layers=hid, hidden_width=hw,
        in_segments=s, out_segments=s, hidden_segments=s))
    objs = handles(net.model)
    if len(objs) != hid + 2:
        h.fact(False, "network has the requested layers")
        raise Abort()
    st = []
    for j, o in enumerate(objs):
        kind = TYPE_KIND[tin if j == 0 else t][0]
        L = Layer(h, kind, n, s, inw if j == 0 else hw, outw if j == hid + 1 else hw, obj=o)
        L.set(L.rand_f(deg=1, cmax=2), r.choice([1, 2]))
        st.append({"op": "layer", "L": L})
    h.cover.add(f"mlp input type {tin} then {t}")
    probe(Net(h, st, net), inw, (1, 1))


def mlp_list(h, per=0.3, reach=1.25):
    from high_order_layers_torch.networks import HighOrderMLPList

    r = h.rng
    depth = r.choice([1, 2, 3, 4, 5, 7])
    types = [r.choice(["continuous", "discontinuous", "polynomial", "continuous", "continuous_prod"])
             for _ in range(depth)]
    width = [r.randint(1, 2 if "continuous_prod" in types else 3) for _ in range(depth + 1)]
    n = [r.randint(2, 4) for _ in range(depth)]
    s = [r.choice([1, 2, 3, 4]) for _ in range(depth)]
    half = r.choice([(1, 1), (2, 1), (1, 2), (1, 4)])
    ux = 2.0 ** r.randint(-8, 8) if "continuous_prod" not in types and r.random() < 0.3 else 1.0
    kw = dict(layer_type=types, n=n, width=width, segments=s)
    if depth > 4:
        width = [min(k, 2) for k in width]
        kw["width"] = width
    if half != (1, 1) or ux != 1:
        kw["scale"] = 2 * half[0] / half[1] * ux
    per = (2 * half[0], half[1]) if r.random() < per else None
    if per:
        kw["periodicity"] = per[0] / per[1] * ux
    norm, nl = r.choice([None, "halve", "neg"]), r.choice([None, "relu", "inc"])
    if norm:
        kw["normalization"] = [NORMS[norm]] * depth
    if nl:
        kw["non_linearity"] = [nl_of(nl, ux)] * depth
    net = h.lib("construct network", lambda: HighOrderMLPList(**kw))
    objs = handles(net.model)
    h.cover.add(f"list depth={depth} per={bool(per)}")
    if len(objs) != depth:
        h.fact(False, f"network has {depth} layers, found {len(objs)}")
        raise Abort()
    st = []
    for j, o in enumerate(objs):
        kind, comb = TYPE_KIND[types[j]]
        L = Layer(h, kind, n[j], s[j], width[j], width[j + 1], comb=comb, half=half, per=per, obj=o, ux=ux, uy=ux)
        L.set(L.rand_f(deg=1, cmax=r.choice([1, 2]) if depth < 5 else 1), r.choice([1, 2, 4]) if depth < 5 else 1)
        if j:
            st += ([{"op": norm}] if norm else []) + ([{"op": nl}] if nl else [])
        st.append({"op": "layer", "L": L})
    probe(Net(h, st, net, ux), width[0], half, reach=reach)
    # the widths list must be one longer
    bad = dict(kw, width=width + [1] if r.random() < 0.5 else width[:-1])
    try:
        HighOrderMLPList(**bad)
        h.fact(False, "a width list of the wrong length is rejected")
    except ValueError:
        h.fact(True, "a width list of the wrong length is rejected")
    except Exception:
        h.fact(False, "a width list of the wrong length is rejected with ValueError")


def multi(h):
    from high_order_layers_torch.networks import HighOrderMultiMLP

    r = h.rng
    c = mlp_cfg(h, types=["continuous", "discontinuous", "polynomial"], maxw=2, depth=r.choice([0, 0, 1, 2]))
    reps = r.choice([1, 2, 3, 4, 6])
    if r.random() < 0.3:
        c["per"] = (2 * c["half"][0], c["half"][1])
    kw = dict(layer_type=c["t"], n=c["n"][1], replicas=reps, in_width=c["inw"], out_width=c["outw"],
              hidden_layers=c["hid"], hidden_width=c["hw"], n_in=c["n"][0], n_hidden=c["n"][1], n_out=c["n"][2])
    if c["kind"] != "poly":
        kw.update(in_segments=c["s"][0], hidden_segments=c["s"][1], out_segments=c["s"][2])
    kw.update(common(c))
    base = r.choice(c["n"] + [5])
    kw["n"] = base
    for k, v in zip(("n_in", "n_hidden", "n_out"), c["n"]):
        if v == base and r.random() < 0.7:
            del kw[k]
    if r.random() < 0.15:
        kw["dropout"] = r.choice([0.25, 0.9])
    net = h.lib("construct network", lambda: HighOrderMultiMLP(**kw).eval())
    h.cover.add(f"multi reps={reps} norm={c['norm']} nl={c['nl']}")
    oi, oo = handles(net.model_in), handles(net.model_out)
    if len(oi) != 1 or len(oo) != 1 or len(net.replica_list) != reps:
        h.fact(False, "network has one input layer, the requested replicas and one output layer")
        raise Abort()
    A = Layer(h, c["kind"], c["n"][0], c["s"][0], c["inw"], c["hw"], half=c["half"], per=c["per"], obj=oi[0],
              ux=c["ux"], uy=c["ux"])
    B = Layer(h, c["kind"], c["n"][2], c["s"][2], c["hw"], c["outw"], half=c["half"], per=c["per"], obj=oo[0],
              ux=c["ux"], uy=c["ux"])
    c2 = dict(c, inw=c["hw"], outw=c["hw"], n=[c["n"][1]] * 3, s=[c["s"][1]] * 3)
    nets = []
    groups = [[A], [B]]
    for m in net.replica_list:
        g = mlp_layers(h, c2, m.model)
        groups += g
        nets.append(stages_of(c2, g))
    fill(c, groups, deg2=0)
    st = [{"op": "layer", "L": A}] + between(c) + [{"op": "sum", "nets": nets}] + between(c) + [{"op": "layer", "L": B}]
    probe(Net(h, st, net, c["ux"]), c["inw"], c["half"], tries=10)


def multi_in_type(h):
    """replicas behind an input layer of another type"""
    from high_order_layers_torch.networks import HighOrderMultiMLP

    r = h.rng
    tin, t = r.sample(["continuous", "discontinuous", "polynomial"], 2)
    n, s, hid, reps = r.randint(2, 4), r.choice([2, 3]), r.choice([0, 1]), r.choice([1, 2, 3])
    inw, hw, outw = r.randint(1, 2), r.randint(1, 2), r.randint(1, 2)
    net = h.lib("construct network", lambda: HighOrderMultiMLP(
        layer_type=t, layer_type_in=tin, n=n, replicas=reps, in_width=inw, out_width=outw, hidden_layers=hid,
        hidden_width=hw, in_segments=s, out_segments=s, hidden_segments=s))
    oi, oo = handles(net.model_in), handles(net.model_out)
    if len(oi) != 1 or len(oo) != 1 or any(len(handles(m.model)) != hid + 2 for m in net.replica_list):
        h.fact(False, "network has the requested layers")
        raise Abort()
    mk = lambda typ, a, b, o: Layer(h, TYPE_KIND[typ][0], n, s, a, b, obj=o)
    A, B = mk(tin, inw, hw, oi[0]), mk(t, hw, outw, oo[0])
    Ls, nets = [A, B], []
    for m in net.replica_list:
        # whether the type of the input layer is passed on to the replicas is not documented
        obs = handles(m.model)
        K = obs[0].w.shape[-1]
        first = tin if K == {"continuous": (n - 1) * s + 1, "discontinuous": n * s, "polynomial": n}[tin] else t
        q = [mk(first if j == 0 else t, hw, hw, o) for j, o in enumerate(obs)]
        Ls += q
        nets.append([{"op": "layer", "L": L} for L in q])
    for L in Ls:
        L.set(L.rand_f(deg=1, cmax=2), r.choice([1, 2]))
    h.cover.add(f"multi input type {tin} then {t}")
    st = [{"op": "layer", "L": A}, {"op": "sum", "nets": nets}, {"op": "layer", "L": B}]
    probe(Net(h, st, net), inw, (1, 1), tries=10)


def lin_stage(h, m):
    """integer matrix into an ordinary linear layer"""
    r = h.rng
    o, i = m.weight.shape
    d = r.choice([1, 2])
    M = [[r.randint(-2, 2) for _ in range(i)] for _ in range(o)]
    b = [r.randint(-2, 2) if m.bias is not None else 0 for _ in range(o)]
    with torch.no_grad():
        m.weight.copy_(torch.tensor(M, dtype=torch.float32) / d)
        if m.bias is not None:
            m.bias.copy_(torch.tensor(b, dtype=torch.float32) / d)
    return {"op": "linear", "m": M, "b": b, "d": d}


def low_cfg(h):
    r = h.rng
    return dict(inw=r.randint(1, 4), outw=r.randint(1, 4), hid=r.choice([0, 1, 2, 3, 5, 6]), hw=r.randint(1, 4),
                norm=r.choice([None, "halve", "neg"]), nl=r.choice([None, "relu", "inc"]))


def low_stages(h, c, model):
    ls = linears(model)
    shapes = [tuple(m.weight.shape) for m in ls]
    want = [(c["hw"], c["inw"])] + [(c["hw"], c["hw"])] * c["hid"] + [(c["outw"], c["hw"])]
    if shapes != want or any(m.bias is None for m in ls):
        h.fact(False, "linear layers of the requested widths, with bias")
        raise Abort()
    st = []
    for j, m in enumerate(ls):
        if j:
            st += between(c)
        st.append(lin_stage(h, m))
    return st


def low(h):
    from high_order_layers_torch.networks import LowOrderMLP

    c = low_cfg(h)
    kw = dict(in_width=c["inw"], out_width=c["outw"], hidden_layers=c["hid"], hidden_width=c["hw"])
    if c["nl"]:
        kw["non_linearity"] = NONLIN[c["nl"]]()
    if c["norm"]:
        kw["normalization"] = norm_of(c["norm"])
    net = h.lib("construct network", lambda: LowOrderMLP(**kw))
    own_norms(h, net, c["hid"] + 1 if c["norm"] else 0)
    h.cover.add(f"low hid={c['hid']} norm={c['norm']} nl={c['nl']}")
    probe(Net(h, low_stages(h, c, net.model), net), c["inw"], (1, 1))


ROT2 = [[1, 0], [1, 1], [1, -1], [0, 1]]


def rotation_stage(h, layer, inw, rot):
    """the fixed layer in front; order of its rows is read off, their content is checked"""
    if rot == 1:
        want = [[2 if i == j else 0 for j in range(inw)] for i in range(inw)]
    else:
        # x_i and, for each pair, (x_i + x_j)/2 and (x_i - x_j)/2
        want = [[2 if i == j else 0 for j in range(inw)] for i in range(inw)]
        for i in range(inw):
            for j in range(i + 1, inw):
                want.append([1 if k in (i, j) else 0 for k in range(inw)])
                want.append([1 if k == i else (-1 if k == j else 0) for k in range(inw)])
    W = layer.weight.detach()
    got = [[round(float(v) * 2) for v in row] for row in W.tolist()]
    exact = float((W * 2 - torch.tensor(got, dtype=torch.float32)).abs().max()) < 1e-5

    def canon(M):
        return sorted(max(row, [-v for v in row]) for row in M)

    h.fact(exact and canon(got) == canon(want), "rotation layer in front of the network")
    return {"op": "linear", "m": got, "b": [0] * len(got), "d": 2}


def transform(h):
    from high_order_layers_torch.networks import transform_low_mlp, transform_mlp

    r = h.rng
    rot = r.choice([1, 2, 2, 3, 4, 5])
    inw = r.randint(1, 3 if rot < 3 else 2)
    width = inw + inw * (inw - 1) * (rot - 1)
    if r.random() < 0.4:
        c = low_cfg(h)
        c["inw"] = width
        net = h.lib("construct network", lambda: transform_low_mlp(
            in_width=inw, hidden_width=c["hw"], out_width=c["outw"], hidden_layers=c["hid"],
            non_linearity=NONLIN[c["nl"]]() if c["nl"] else None, normalization=NORMS[c["norm"]] if c["norm"] else None,
            rotations=rot))
        body = low_stages(h, c, net[1])
        h.cover.add(f"rotated low rot={rot} in={inw}")
        half = (1, 1)
    else:
        c = mlp_cfg(h, types=["continuous", "discontinuous", "polynomial"], maxw=2, depth=r.choice([0, 1]), inw=width,
                    units=False)
        c["nl"] = None
        half = c["half"]
        kw = {}
        if c["half"] != (1, 1):
            kw["scale"] = 2 * c["half"][0] / c["half"][1]
        # the default period is 2
        if r.random() < 0.5:
            kw["periodicity"] = None
        else:
            c["per"] = (2, 1)
            if r.random() < 0.5:
                kw["periodicity"] = 2.0
        if c["norm"]:
            kw["normalization"] = NORMS[c["norm"]]
        if r.random() < 0.2:
            return transform_res(h, c, inw, rot, kw)
        net = h.lib("construct network", lambda: transform_mlp(
            layer_type=c["t"], in_width=inw, hidden_width=c["hw"], out_width=c["outw"], n=c["n"][1], n_in=c["n"][0],
            n_hidden=c["n"][1], n_out=c["n"][2], in_segments=c["s"][0], hidden_segments=c["s"][1],
            out_segments=c["s"][2], hidden_layers=c["hid"], rotations=rot, **kw))
        g = mlp_layers(h, c, net[1].model)
        fill(c, g, deg2=0.1)
        body = stages_of(c, g)
        h.cover.add(f"rotated mlp rot={rot} in={inw} per={c['per']}")
    lin = [m for m in net[0].modules() if isinstance(m, nn.Linear)]
    if len(lin) != 1:
        h.fact(False, "one rotation layer in front")
        raise Abort()
    if rot <= 2:
        st = [rotation_stage(h, lin[0], inw, rot)] + body
        probe(Net(h, st, net), inw, half, tries=10)
        return
    # irrational rotations: the network behind them is exact on its own inputs and
    # the whole is that network applied to the rotated coordinates (C18 has those)
    probe(Net(h, body, net[1]), width, half, tries=10)
    x = torch.tensor([[r.uniform(-1, 1) * half[0] / half[1] for _ in range(inw)] for _ in range(8)])
    with torch.no_grad():
        y = h.lib("network forward", lambda: net(x))
        z = h.lib("network forward", lambda: net[1](lin[0](x)))
    if float(z.abs().max()) < 500:
        h.ev("near", A=to_int(listof(y), 1 << 12), B=to_int(listof(z), 1 << 12), sc=1 << 12, tol=4,
             what="the rotated network is the network applied to the rotated inputs")


def transform_res(h, c, inw, rot, kw):
    """a rotated residual network is a residual network behind a rotation"""
    from high_order_layers_torch.networks import HighOrderMLP, transform_mlp

    r = h.rng
    c["hid"] = r.choice([2, 3])
    common_kw = dict(layer_type=c["t"], hidden_width=c["hw"], out_width=c["outw"], n=c["n"][1], n_in=c["n"][0],
                     n_hidden=c["n"][1], n_out=c["n"][2], in_segments=c["s"][0], hidden_segments=c["s"][1],
                     out_segments=c["s"][2], hidden_layers=c["hid"], resnet=True, **kw)
    net = h.lib("construct network", lambda: transform_mlp(in_width=inw, rotations=rot, **common_kw))
    ref = h.lib("construct network", lambda: HighOrderMLP(in_width=c["inw"], **dict({"periodicity": 2.0}, **common_kw)))
    small(h, net[1], c["half"][0] / c["half"][1])
    h.lib("copy weights", lambda: ref.load_state_dict(net[1].state_dict()))
    same_function(h, net, nn.Sequential(net[0], ref), inw, c["half"][0] / c["half"][1], None,
                  "the rotated residual network is the residual network applied to the rotated inputs")
    h.cover.add(f"rotated resnet hid={c['hid']}")


def switch(h):
    """gated layers alone, two or more factors"""
    from high_order_layers_torch.layers import SwitchLayer, high_order_fc_layers

    r = h.rng
    kind = r.choice(["cont", "disc"])
    n, s, inn, out = r.randint(2, 5), r.choice([1, 2, 3, 4, 8]), r.randint(1, 3), r.randint(1, 3)
    half = r.choice([(1, 1), (2, 1), (1, 2), (3, 2)])
    num = r.choice([2, 2, 3, 1, 4, 5])
    norm = r.choice([None, None, "halve", "neg"])
    kw = dict(n=n, segments=s, in_features=inn, out_features=out)
    if half != (1, 1) or r.random() < 0.3:
        kw["scale"] = 2 * half[0] / half[1]
    if norm:
        kw["normalization"] = NORMS[norm]()
    t = "switch_continuous" if kind == "cont" else "switch_discontinuous"
    if num == 2 and r.random() < 0.6:
        sw = h.lib("construct", lambda: high_order_fc_layers(t, **kw))
    else:
        sw = h.lib("construct", lambda: SwitchLayer(layer_type=t[7:], num_input_layers=num, **kw))
    objs = handles(sw)
    h.cover.add(f"switch {kind} factors={num} norm={norm}")
    if len(objs) != num:
        h.fact(False, f"gated layer has {num} factors")
        raise Abort()
    Ls = [Layer(h, kind, n, s, inn, out, half=half, obj=o) for o in objs]
    for L in Ls:
        L.set(L.rand_f(deg=r.choice([1, 2]) if num < 4 else 1, cmax=2), 1)
    N = Net(h, [{"op": "switch", "Ls": Ls}] + ([{"op": norm}] if norm else []), sw)
    probe(N, inn, half, tries=8)


def sum_layer(h):
    from high_order_layers_torch.layers import SumLayer

    r = h.rng
    a = rand_layer(h, maxn=4, maxs=4, maxw=3, units=False)
    Ls = [a] + [Layer(h, r.choice(["poly", "cont", "disc"]), r.randint(2, 4), r.choice([1, 2, 3]), a.inn, a.out)
                for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
    for L in Ls:
        L.set(L.rand_f(deg=r.choice([1, 2]), cmax=2), r.choice([1, 2]))
    S = h.lib("construct", lambda: SumLayer(layer_list=[L.obj for L in Ls]))
    N = Net(h, [{"op": "sum", "nets": [[{"op": "layer", "L": L}] for L in Ls]}], S)
    h.cover.add(f"sum of {len(Ls)} layers")
    probe(N, a.inn, (1, 1), tries=8)


def c10(h):
    r = h.rng
    a = r.random()
    if a < 0.28:
        mlp(h, per="deep" if r.random() < 0.2 else True)
    elif a < 0.33:
        resnet(h)
    elif a < 0.36:
        multi_in_type(h)
    elif a < 0.42:
        mlp_in_type(h)
    elif a < 0.55:
        mlp_list(h)
    elif a < 0.68:
        multi(h)
    elif a < 0.76:
        low(h)
    elif a < 0.88:
        transform(h)
    elif a < 0.96:
        switch(h)
    else:
        sum_layer(h)


# -- C05 ----------------------------------------------------------------------------
def interp(A, B):
    from high_order_layers_torch.PolynomialLayers import interpolate_polynomial_layer

    if A.h.rng.random() < 0.5:
        return A.obj.interpolate(B.obj)
    return interpolate_polynomial_layer(A.obj, B.obj)


def small_D(L, cap):
    return L.pick_D(cap=cap)


def look(L, k=4):
    """evaluate a layer in and slightly outside of its domain"""
    r = L.h.rng
    for cap in (64, 16, 4, 2, 1):
        D = L.pick_D(cap=cap, tmax=1.5)
        X = batch(L, D, k)
        if L.scale(X, D):
            L.fwd(X, D)
            if r.random() < 0.4:
                L.fwd(batch(L, D, 2, -1.2, 1.2), D)
            return


def c05_layer(h):
    r = h.rng
    comb = r.choice(["sum", "sum", "prod"])
    kind = r.choice(["cont", "disc"])
    half = r.choice(HALVES)
    ux = 2.0 ** r.randint(-8, 8) if r.random() < 0.3 else 1.0
    per = r.choice([None, None, (2 * half[0], half[1])])
    s = r.choice([1, 2, 3, 4, 5, 8, 13])
    n1 = r.randint(1, 6)
    if kind == "cont" and n1 == 1:
        n1 = 2
    w = 2 if comb == "prod" else 4
    inn, out = r.randint(1, w), r.randint(1, w)
    if comb == "sum" and r.random() < 0.1:
        inn, out = r.choice([(1, 9), (9, 1), (7, 6), (2, 17)])
    A = Layer(h, kind, n1, s, inn, out, comb=comb, half=half, per=per, units=True, ux=ux)
    A.set(A.rand_f(deg=r.choice([None, 1, 2]) if comb == "sum" else 1, cmax=2), r.choice([1, 2]))
    cur = A
    for _ in range(r.choice([1, 1, 2, 3])):
        up = r.random() < 0.75
        lo = cur.deg + 1 if not up else cur.n
        lo = max(lo, 2 if kind == "cont" else 1)
        n2 = r.randint(lo, max(lo, cur.n)) if not up else r.randint(cur.n, cur.n + 4)
        B = Layer(h, kind, n2, s, inn, out, comb=comb, half=half, per=per, units=True, ux=ux)
        B.set(B.rand_f(deg=1, cmax=3), 1)
        keep = frozen(h, cur.obj)
        h.lib("prefine", lambda: interp(cur, B), a=cur.id, b=B.id)
        h.ev("prefine", a=cur.id, b=B.id)
        unchanged(h, cur.obj, keep, "p-refinement leaves the source unmodified")
        h.cover.add(f"p {kind} {comb} n {cur.n}->{n2}")
        B.adopt(cur)
        look(B)
        apart(h, B, cur)
        cur = B
    look(A, 2)
    # arbitrary weights: the refined layer repeats the source's output
    if r.random() < 0.5:
        n2 = n1 + r.randint(0, 4)
        B = Layer(h, kind, n2, s, inn, out, comb=comb, half=half, per=per, units=True, ux=ux)
        W = put_weights(A, rand_weights(h, tuple(A.obj.w.shape), 1.0))
        h.lib("prefine", lambda: interp(A, B), a=A.id, b=B.id)
        same_function(h, A.obj, B.obj, inn, A.half * ux, per, "p-refined layer repeats the source", u=A.u)
    # mismatched segments are refused and nothing is written
    if r.random() < 0.4:
        s2 = r.choice([k for k in (1, 2, 3, 4, 6) if k != s])
        C = Layer(h, kind, n1 + r.randint(0, 2), s2, inn, out, comb=comb, half=half)
        keep = frozen(h, C.obj)
        ok, _ = h.lib_soft("prefine", lambda: interp(A, C), a=A.id, b=C.id)
        if ok:
            h.ev("prefine", a=A.id, b=C.id)
        unchanged(h, C.obj, keep, "a rejected p-refinement writes nothing")


def apart(h, B, A):
    """training the refined layer afterwards leaves the source alone"""
    if h.rng.random() < 0.5:
        return
    keep, back = frozen(h, A.obj), B.obj.w.detach().clone()
    with torch.no_grad():
        B.obj.w.add_(B.u * 3.0)
    unchanged(h, A.obj, keep, "changing the refined layer leaves the source unmodified")
    with torch.no_grad():
        B.obj.w.copy_(back)


def same_function(h, a, b, inn, half, per, what, rows=12, amp=1.0, u=1.0):
    r = h.rng
    x = (torch.rand(rows, inn, generator=torch.Generator().manual_seed(r.getrandbits(40))) * 2 - 1) * half * 1.02
    if per:
        x = x * 2
    with torch.no_grad():
        ya = h.lib("forward", lambda: a(x)) / u
        yb = h.lib("forward", lambda: b(x)) / u
    big = float(ya.abs().max())
    if not big < 50:
        return
    sc = 1 << 16
    h.ev("near", A=to_int(listof(ya), sc), B=to_int(listof(yb), sc), sc=sc,
         tol=int(sc * min(0.019, amp * 2e-4 * (1 + big))) + 2, what=what)


def c05_net(h):
    from high_order_layers_torch.networks import interpolate_high_order_mlp

    r = h.rng
    types = ["continuous", "discontinuous", "switch_continuous", "switch_discontinuous", "continuous_prod",
             "discontinuous_prod"]
    c = mlp_cfg(h, types=types, maxw=2)
    resnet = c["comb"] == "sum" and r.random() < 0.3
    if resnet:
        tame(c, r)
    net = build_mlp(h, c, resnet)
    c2 = dict(c, n=[k + r.choice([0, 1, 2, 3]) for k in c["n"]])
    net2 = build_mlp(h, c2, resnet)
    h.cover.add(f"p-net {c['t']} resnet={resnet} hid={c['hid']} norm={c['norm']} nl={c['nl']}")
    if resnet:
        small(h, net.model, c["half"][0] / c["half"][1] * c["ux"])
        keep = frozen(h, net)
        h.lib("p-refine network", lambda: interpolate_high_order_mlp(net, net2))
        unchanged(h, net, keep, "p-refinement leaves the source unmodified")
        same_function(h, net, net2, c["inw"], c["half"][0] / c["half"][1] * c["ux"], None,
                      "p-refined network repeats the source", u=c["ux"])
        return
    g, g2 = mlp_layers(h, c, net.model), mlp_layers(h, c2, net2.model)
    fill(c, g)
    keep = frozen(h, net)
    h.lib("p-refine network", lambda: interpolate_high_order_mlp(net, net2))
    unchanged(h, net, keep, "p-refinement leaves the source unmodified")
    for a, b in zip(g, g2):
        for A, B in zip(a, b):
            h.ev("prefine", a=A.id, b=B.id)
            B.adopt(A)
    probe(Net(h, stages_of(c, g), net, c["ux"]), c["inw"], c["half"], want=1)
    N2 = Net(h, stages_of(c2, g2), net2, c["ux"])
    probe(N2, c["inw"], c["half"])
    for grp in g2:
        for L in grp:
            look(L, 2)


def small(h, model, half=1.0):
    """tame random weights: everything in between stays inside of the domain"""
    for m in handles(model):
        with torch.no_grad():
            m.w.copy_(torch.tensor(rand_weights(h, tuple(m.w.shape), 0.15 * half / m.w.shape[1]), dtype=torch.float32))


def tame(c, r):
    c["hid"] = r.choice([2, 3])
    c["norm"] = r.choice([None, "halve", "neg"])
    c["nl"] = r.choice([None, "relu", "neg"])


def gated_pair(h, kinds, hp):
    """a gated layer refined into another one, factor by factor"""
    from high_order_layers_torch.layers import SwitchLayer

    r = h.rng
    kind = r.choice(kinds)
    num = r.choice([1, 2, 3, 4])
    inn, out, half = r.randint(1, 3), r.randint(1, 3), r.choice([(1, 1), (2, 1), (1, 2), (3, 2)])
    n, s = r.randint(2, 4), r.choice([1, 2, 3])
    n2, s2 = n + r.choice([0, 1, 2, 3]), s * (r.choice([1, 2, 3]) if hp else 1)

    def build(n, s):
        sw = h.lib("construct", lambda: SwitchLayer(
            layer_type="continuous" if kind == "cont" else "discontinuous", num_input_layers=num, n=n, segments=s,
            in_features=inn, out_features=out, scale=2 * half[0] / half[1]))
        objs = handles(sw)
        if len(objs) != num:
            h.fact(False, f"gated layer has {num} factors")
            raise Abort()
        return sw, [Layer(h, kind, n, s, inn, out, half=half, obj=o) for o in objs]

    a, la = build(n, s)
    b, lb = build(n2, s2)
    for L in la:
        L.set(L.rand_f(deg=r.choice([1, 2]), cmax=2), 1)
    keep = frozen(h, a)
    h.lib("refine gated layer", lambda: a.refine(b) if hp else a.interpolate(b))
    unchanged(h, a, keep, "refinement leaves the source unmodified")
    for A, B in zip(la, lb):
        h.ev("hrefine" if hp else "prefine", a=A.id, b=B.id)
        B.adopt(A)
    h.cover.add(f"gated {kind} factors={num} hp={hp}")
    for L in lb:
        look(L, 2)
    probe(Net(h, [{"op": "switch", "Ls": lb}], b), inn, half, tries=8)


def c05(h):
    a = h.rng.random()
    if a < 0.08:
        gated_pair(h, ("cont", "disc"), False)
    elif a < 0.62:
        c05_layer(h)
    else:
        c05_net(h)


# -- C06 ----------------------------------------------------------------------------
def refine(A, B):
    from high_order_layers_torch.PolynomialLayers import refine_polynomial_layer

    if A.h.rng.random() < 0.5:
        return A.obj.refine(B.obj)
    return refine_polynomial_layer(layer_in=A.obj, layer_out=B.obj)


def c06_layer(h):
    r = h.rng
    comb = r.choice(["sum", "sum", "sum", "prod"])
    half = r.choice(HALVES)
    ux = 2.0 ** r.randint(-8, 8) if r.random() < 0.3 else 1.0
    per = r.choice([None, None, (2 * half[0], half[1]), (half[0], half[1])])
    n1 = r.randint(2, 5)
    w = 2 if comb == "prod" else 3
    inn, out = r.randint(1, w), r.randint(1, w)
    if comb == "sum" and r.random() < 0.1:
        inn, out = r.choice([(1, 9), (9, 1), (7, 6), (2, 17)])
    fs = r.choice([1, 2, 3, 4, 5, 6])
    mult = r.choice([1, 1, 2])
    A = Layer(h, "cont", n1, fs * mult, inn, out, comb=comb, half=half, per=per, units=True, ux=ux)
    A.set(A.rand_f(deg=r.choice([None, 1, 2]) if comb == "sum" else 1, cmax=2, fs=fs), r.choice([1, 2]))
    cur = A
    for _ in range(r.choice([1, 1, 2, 3])):
        s2 = fs * r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 16])
        if s2 > 30 or s2 * inn * out > 120:
            s2 = fs
        lo = max(2, cur.deg + 1)
        n2 = r.choice([cur.n, cur.n + 1, cur.n + 2, lo])
        B = Layer(h, "cont", n2, s2, inn, out, comb=comb, half=half, per=per, units=True, ux=ux)
        B.set(B.rand_f(deg=1, cmax=3), 1)
        keep = frozen(h, cur.obj)
        h.lib("hrefine", lambda: refine(cur, B), a=cur.id, b=B.id)
        h.ev("hrefine", a=cur.id, b=B.id)
        unchanged(h, cur.obj, keep, "refinement leaves the source unmodified")
        h.cover.add(f"h {comb} {cur.s}->{s2} n {cur.n}->{n2} f on {fs}")
        B.adopt(cur)
        look(B)
        apart(h, B, cur)
        cur = B
    look(A, 2)
    if comb == "sum" and not per and r.random() < 0.6:
        # a mesh that cannot hold the function: agreement at the target's nodes
        s2 = r.choice([k for k in (1, 2, 3, 4, 5, 6, 7) if k % fs])if fs > 1 else None
        if s2:
            n2 = r.choice([2, 3, 3, 5])
            B = Layer(h, "cont", n2, s2, inn, out, half=half, units=True, ux=ux)
            B.set(B.rand_f(deg=1), 1)
            h.lib("hrefine", lambda: refine(A, B), a=A.id, b=B.id)
            nodes_agree(A, B)
    if r.random() < 0.5:
        # arbitrary weights
        W = put_weights(A, rand_weights(h, tuple(A.obj.w.shape), 1.0))
        B = Layer(h, "cont", A.n + r.choice([0, 1, 2]), A.s * r.choice([1, 2, 3]), inn, out, comb=comb, half=half,
                  per=per, ux=ux)
        h.lib("hrefine", lambda: refine(A, B), a=A.id, b=B.id)
        same_function(h, A.obj, B.obj, inn, A.half * ux, per, "refined layer repeats the source", u=A.u)
    if r.random() < 0.3:
        C, E = (Layer(h, "disc", r.randint(2, 4), r.choice([1, 2, 3]), inn, out, half=half) for _ in range(2))
        keep = frozen(h, E.obj)
        ok, _ = h.lib_soft("hrefine", lambda: C.obj.refine(E.obj), a=C.id, b=E.id)
        if ok:
            h.fact(False, "refinement of discontinuous layers is rejected")
        unchanged(h, E.obj, keep, "a rejected refinement writes nothing")


def nodes_agree(A, B):
    h, r = A.h, A.h.rng
    den = B.s * (2 if B.n % 2 else 1)
    # node positions: (j / den) * 2 half - half over a denominator that makes them integers
    D = A.fs * den * A.hd
    while D * A.hn / A.fs > 400 and D % 2 == 0:
        D //= 2
    pts = []
    for j in range(den + 1):
        num = (2 * j - den) * A.hn * D
        if num % (den * A.hd) == 0:
            pts.append(num // (den * A.hd))
    if len(pts) < 2:
        return
    X = [[r.choice(pts) for _ in range(A.inn)] for _ in range(6)]
    if A.csum() * A.inn * (D * A.hn / A.fs * 1.0) ** A.deg > 2 ** 28:
        return
    rs = A.scale(X, D)
    if rs is None:
        return
    sc, tol, keep = rs
    X = [X[b] for b in keep]
    # the target interpolates at this node: value error is that of its weights,
    # position error is a few ulps times its slope
    x = torch.tensor(np.array(X, dtype=float) / D * B.ux, dtype=torch.float32)
    Wb = B.obj.w.detach().double().numpy() / A.u
    e = 0
    for d in (-1e-5, 1e-5):
        V, S, E, sl, leb = pp.link_info(Wb, "cont", B.n, B.s, B.half, None, np.array(X, dtype=float) / D + d * B.half)
        e = max(e, float((E + sl * B.half * 1e-6).sum(-1).max()))
    tol += int(math.ceil(e * sc)) + 2
    if 50 * tol > sc:
        return
    y = h.lib("forward", lambda: B.obj(x), id=B.id) / A.u
    h.ev("hnode", a=A.id, b=B.id, X=X, D=D, Y=to_int(listof(y), sc), sc=sc, tol=tol)
    h.cover.add(f"nodes {A.s}->{B.s} n={B.n}")


def c06_net(h):
    from high_order_layers_torch.networks import hp_refine_high_order_mlp

    r = h.rng
    c = mlp_cfg(h, types=["continuous", "continuous", "switch_continuous", "continuous_prod"], maxw=2)
    resnet = c["comb"] == "sum" and r.random() < 0.3
    if resnet:
        tame(c, r)
    net = build_mlp(h, c, resnet)
    c2 = dict(c, n=[k + r.choice([0, 1, 2]) for k in c["n"]], s=[k * r.choice([1, 2, 3]) for k in c["s"]])
    net2 = build_mlp(h, c2, resnet)
    h.cover.add(f"hp-net {c['t']} resnet={resnet} hid={c['hid']}")
    if resnet:
        small(h, net.model, c["half"][0] / c["half"][1] * c["ux"])
        keep = frozen(h, net)
        h.lib("refine network", lambda: hp_refine_high_order_mlp(net, net2))
        unchanged(h, net, keep, "refinement leaves the source unmodified")
        same_function(h, net, net2, c["inw"], c["half"][0] / c["half"][1] * c["ux"], None,
                      "refined network repeats the source", u=c["ux"])
        return
    g, g2 = mlp_layers(h, c, net.model), mlp_layers(h, c2, net2.model)
    fill(c, g)
    keep = frozen(h, net)
    h.lib("refine network", lambda: hp_refine_high_order_mlp(network_in=net, network_out=net2))
    unchanged(h, net, keep, "refinement leaves the source unmodified")
    for a, b in zip(g, g2):
        for A, B in zip(a, b):
            h.ev("hrefine", a=A.id, b=B.id)
            B.adopt(A)
    probe(Net(h, stages_of(c2, g2), net2, c["ux"]), c["inw"], c["half"])
    for grp in g2:
        for L in grp:
            look(L, 2)


def c06(h):
    a = h.rng.random()
    if a < 0.08:
        gated_pair(h, ("cont",), True)
    elif a < 0.65:
        c06_layer(h)
    else:
        c06_net(h)


# -- C07 on networks -------------------------------------------------------------------
def c07_net(h):
    from high_order_layers_torch.networks import HighOrderMLPList, smooth_discontinuous_network

    r = h.rng
    fa, fb = r.choice(FACTORS)
    if r.random() < 0.5:
        types = [r.choice(["continuous", "discontinuous", "discontinuous", "polynomial", "discontinuous_prod",
                           "continuous_prod"]) for _ in range(r.choice([2, 3, 4]))]
        width = [r.randint(1, 3) for _ in range(len(types) + 1)]
        n, s = [r.randint(2, 5) for _ in types], [r.choice([1, 2, 3, 5]) for _ in types]
        net = h.lib("construct network", lambda: HighOrderMLPList(layer_type=types, n=n, width=width, segments=s))
        spec = [(TYPE_KIND[t][0], TYPE_KIND[t][1], n[j], s[j], width[j], width[j + 1]) for j, t in enumerate(types)]
    else:
        c = mlp_cfg(h, types=["discontinuous", "switch_discontinuous", "continuous", "discontinuous_prod"], maxw=3)
        net = build_mlp(h, c, resnet=c["comb"] == "sum" and r.random() < 0.3)
        types = [c["t"]]
        spec = []
        for j in range(c["hid"] + 2):
            w = 0 if j == 0 else (2 if j == c["hid"] + 1 else 1)
            spec += [(c["kind"], c["comb"], c["n"][w], c["s"][w], c["inw"] if j == 0 else c["hw"],
                      c["outw"] if j == c["hid"] + 1 else c["hw"])] * (2 if c["comb"] == "switch" else 1)
    objs = handles(net.model)
    if len(objs) != len(spec):
        h.fact(False, "network has the requested layers")
        raise Abort()
    h.cover.add("smooth net " + "+".join(sorted(set(types))))
    Ls, Ws = [], []
    for o, (kind, comb, n, s, inn, out) in zip(objs, spec):
        L = Layer(h, kind, n, s, inn, out, comb="prod" if comb == "prod" else "sum", obj=o)
        Ls.append(L)
        Ws.append(put_weights(L, rand_weights(h, tuple(o.w.shape), 2.0)))
    for _ in range(r.choice([1, 2])):
        h.lib("smooth network", lambda: smooth_discontinuous_network(net, fa / fb))
        sc = 1 << 16
        for j, L in enumerate(Ls):
            V = L.obj.w.detach().double().numpy()
            if L.kind == "disc":
                h.ev("smoothw", id=L.id, fa=fa, fb=fb, W=to_int(Ws[j].tolist(), sc), V=to_int(V.tolist(), sc, 1 << 23), sc=sc,
                     tol=8)
            else:
                h.fact(V.shape == Ws[j].shape and bool((V == Ws[j]).all()),
                       "smoothing touches no layer that is not discontinuous")
            Ws[j] = V
