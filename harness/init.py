"""C08: initial functions."""
import numpy as np
import torch
from torch import nn

from core import Abort, listof, to_int
from lay import HALVES, KIND_TYPE
from net import handles, linears

SC = 1 << 16
MAGS = [(1, 1), (2, 1), (1, 2), (3, 1), (8, 1)]


def shape_ok(h, w, want):
    if list(w.shape) != list(want):
        h.fact(False, f"weights have shape {want}")
        raise Abort()


def report(h, kind, W, mag, fan):
    """W: array [out, in, K]; the scale makes a bound of 1/fan visible"""
    sc = SC if mag[0] / mag[1] >= 1 else 2 * SC
    if fan >= 8:
        sc = 1 << 20
    h.ev(kind, W=to_int(W.tolist(), sc, 1 << 22), sc=sc, mn=mag[0], md=mag[1], fan=fan)


def fc_init(h):
    from high_order_layers_torch.layers import high_order_fc_layers

    r = h.rng
    kind = r.choice(["poly", "cont", "disc"])
    comb = r.choice(["sum", "sum", "prod"])
    n, s = r.randint(2, 5), r.choice([1, 2, 3, 4, 9])
    inn, out = r.choice([1, 2, 5, 8]), r.choice([1, 3, 8])
    if r.random() < 0.25:
        inn, out = r.choice([(17, 1), (24, 2), (40, 1), (33, 3), (1, 40), (3, 20), (70, 1)])
    mag = r.choice(MAGS)
    kw = dict(n=n, in_features=inn, out_features=out)
    if kind != "poly":
        kw["segments"] = s
    if mag != (1, 1) or r.random() < 0.3:
        kw["weight_magnitude"] = mag[0] / mag[1]
    mode = r.choice(["default", "const", "uniform"])
    if mode == "const":
        kw["initialize"] = "constant_random"
    elif mode == "uniform":
        kw["initialize"] = "uniform"
    if r.random() < 0.3:
        kw["length"] = r.choice([1.0, 4.0])
    L = h.lib("construct", lambda: high_order_fc_layers(KIND_TYPE[kind, comb], **kw))
    K = {"poly": n, "cont": (n - 1) * s + 1, "disc": n * s}[kind]
    shape_ok(h, L.w, [out, inn, K])
    h.cover.add(f"fc {kind} {comb} {mode} mag={mag}")
    report(h, "uniform" if mode == "uniform" else "const", L.w.detach().double().numpy(), mag, inn)


def nd_init(h):
    """multi-dimensional layers"""
    from high_order_layers_torch.layers import high_order_fc_layers
    import high_order_layers_torch.PolynomialLayers as P

    r = h.rng
    seg = r.random() < 0.6
    dim = r.choice([1, 2, 3]) if seg else r.choice([2, 3, 4])
    same = r.random() < 0.5
    n = [r.randint(2, 3)] * dim if same else [r.randint(2, 3) for _ in range(dim)]
    s = [r.choice([1, 2, 3]) for _ in range(dim)] if seg else []
    inn, out = r.choice([(1, 1), (2, 3), (5, 3), (8, 2), (3, 12), (17, 2)])
    if np.prod(n) * np.prod(s or [1]) * inn * out > 1500:
        inn, out = 1, 2
    mag = r.choice(MAGS)
    kw = dict(n=n[0] if same else n, in_features=inn, out_features=out)
    if mag != (1, 1) or r.random() < 0.3:
        kw["weight_magnitude"] = mag[0] / mag[1]
    mode = r.choice(["default", "const", "uniform"])
    if mode != "default":
        kw["initialize"] = "constant_random" if mode == "const" else "uniform"
    if seg:
        kw.update(segments=s, dimensions=dim)
        L = h.lib("construct", lambda: high_order_fc_layers("continuous_nd", **kw))
        shape_ok(h, L.w, [inn, out, int(np.prod(n) * np.prod(s))])
        W = L.w.detach().double().transpose(0, 1).numpy()
    else:
        L = h.lib("construct", lambda: high_order_fc_layers(f"polynomial_{dim}d", **kw)
                  if r.random() < 0.5 else P.PolynomialND(dimensions=dim, **kw))
        shape_ok(h, L.w, [out, inn, int(np.prod(n))])
        W = L.w.detach().double().numpy()
    h.cover.add(f"nd dim={dim} seg={seg} {mode} mag={mag}")
    report(h, "uniform" if mode == "uniform" else "either" if seg else "const", W, mag, inn)


def conv_init(h):
    from high_order_layers_torch.layers import high_order_convolution_layers

    r = h.rng
    kind = r.choice(["poly", "cont", "disc"])
    n, s = r.randint(2, 4), r.choice([1, 2, 3])
    cin, cout, k = r.choice([1, 2, 3, 5, 9]), r.choice([1, 2, 5]), r.choice([1, 2, 3, 4])
    if cin > 3:
        cout, k = r.choice([1, 2]), r.choice([1, 2, 3])
    if r.random() < 0.1:
        cin, cout, k = 1, r.choice([9, 17, 40]), 1
    mag = r.choice(MAGS)
    kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=k)
    if kind != "poly":
        kw["segments"] = s
    if mag != (1, 1) or r.random() < 0.3:
        kw["weight_magnitude"] = mag[0] / mag[1]
    name = {"poly": "polynomial2d", "cont": "continuous2d", "disc": "discontinuous2d"}[kind]
    C = h.lib("construct", lambda: high_order_convolution_layers(name, **kw))
    K = {"poly": n, "cont": (n - 1) * s + 1, "disc": n * s}[kind]
    w = C.conv.weight
    shape_ok(h, w, [cout, cin * K, k, k])
    W = w.detach().double().numpy().reshape(cout, cin, K, k, k).transpose(0, 1, 3, 4, 2).reshape(cout, cin * k * k, K)
    h.cover.add(f"conv2d {kind} mag={mag} k={k}")
    report(h, "const", W, mag, cin * k * k)


def net_init(h):
    """default and requested initialisation of whole networks"""
    from high_order_layers_torch.networks import HighOrderMLP

    r = h.rng
    t = r.choice(["continuous", "discontinuous", "polynomial", "switch_continuous"])
    inw, hw, outw, hid = r.choice([1, 3]), r.choice([2, 5]), r.choice([1, 4]), r.choice([0, 1, 2])
    kw = dict(layer_type=t, n=r.randint(2, 4), in_width=inw, out_width=outw, hidden_layers=hid, hidden_width=hw,
              in_segments=2, out_segments=2, hidden_segments=2)
    mode = r.choice(["default", "constant_random", "uniform"])
    if t.startswith("switch"):
        mode = "default"
    if mode != "default":
        kw["initialization"] = mode
    net = h.lib("construct network", lambda: HighOrderMLP(**kw))
    h.cover.add(f"net {t} {mode}")
    objs = handles(net.model)
    per = 2 if t.startswith("switch") else 1
    if len(objs) != per * (hid + 2):
        h.fact(False, "network has the requested layers")
        raise Abort()
    for j, o in enumerate(objs):
        fan = inw if j < per else hw
        report(h, "uniform" if mode == "uniform" else "const", o.w.detach().double().numpy(), (1, 1), fan)


def line(h, L, kind, n, s, inn, out, half, slope, off, name):
    """slope, off: fractions bounding |a| and |b|"""
    r = h.rng
    w = L.w.detach().double().numpy()
    K = {"cont": (n - 1) * s + 1, "disc": n * s}[kind]
    shape_ok(h, w, [out, inn, K])
    sc = 1 << 12
    A, B = to_int(w[:, :, 0].tolist(), sc, 1 << 18), to_int(w[:, :, -1].tolist(), sc, 1 << 18)
    geo = dict(A=A, B=B, sc=sc, hn=half[0], hd=half[1])
    h.ev("line", an=slope[0], ad=slope[1], bn=off[0], bd=off[1], tol=6, **geo)
    D = 8
    lim = 8 * half[0] // half[1]
    X = [[r.randint(-lim, lim) for _ in range(inn)] for _ in range(10)]
    x = torch.tensor(np.array(X, dtype=float) / D, dtype=torch.float32)
    y = h.lib("forward", lambda: L(x))
    big = np.abs(w).max()
    tol = 2 + 2 * inn + int(big * sc * 3e-5 * inn)
    if 50 * tol > sc or sc * (big + 1) * inn * 8 * 8 * max(half) * 4 > 2 ** 31 - 1:
        return
    h.ev("eval", X=X, D=D, Y=to_int(listof(y), sc, 1 << 20), tol=tol, **geo)
    h.cover.add(name)


SLOPES = [(1, 1), (2, 1), (1, 2), (0, 1), (3, 2)]


def line_layer(h):
    from high_order_layers_torch.layers import high_order_fc_layers
    from high_order_layers_torch.PolynomialLayers import initialize_polynomial_layer

    r = h.rng
    kind = r.choice(["cont", "disc"])
    n, s, inn, out = r.randint(2, 5), r.choice([1, 2, 3, 5, 8, 13]), r.choice([1, 2, 6]), r.choice([1, 3, 6])
    if r.random() < 0.2:
        inn, out = r.choice([(12, 2), (20, 1), (40, 1), (1, 40), (2, 20)])
    half = r.choice([(1, 1), (2, 1), (1, 2), (4, 1)])
    L = h.lib("construct", lambda: high_order_fc_layers(KIND_TYPE[kind, "sum"], n=n, segments=s, in_features=inn,
                                                        out_features=out, length=2 * half[0] / half[1]))
    a, b = r.choice(SLOPES), r.choice(SLOPES)
    h.lib("initialize", lambda: initialize_polynomial_layer(L, max_slope=a[0] / a[1], max_offset=b[0] / b[1]))
    line(h, L, kind, n, s, inn, out, half, a, b, f"line layer {kind} s={s} half={half}")


def line_net(h):
    from high_order_layers_torch.networks import HighOrderMLP, initialize_network_polynomial_layers

    r = h.rng
    t = r.choice(["continuous", "discontinuous", "switch_continuous", "switch_discontinuous"])
    kind = "disc" if "disc" in t else "cont"
    inw, hw, outw, hid = r.choice([1, 2, 4]), r.choice([3, 5]), r.choice([1, 4]), r.choice([0, 1, 2, 1, 3, 6])
    n, s = r.randint(2, 4), r.choice([1, 2, 3, 7, 10])
    half = r.choice([(1, 1), (1, 1), (2, 1)])
    a, b = r.choice(SLOPES), r.choice(SLOPES)
    first = nn.Linear(2, inw)
    kw = dict(layer_type=t, n=n, in_width=inw, out_width=outw, hidden_layers=hid, hidden_width=hw,
              in_segments=s, out_segments=s, hidden_segments=s)
    if half != (1, 1):
        kw["scale"] = 2.0 * half[0]
    mlp = h.lib("construct network", lambda: HighOrderMLP(**kw))
    net = nn.Sequential(first, mlp)
    keep = {k: v.detach().clone() for k, v in first.state_dict().items()}
    mode = r.choice(["plain", "inverse"])
    if mode == "plain":
        h.lib("initialize", lambda: initialize_network_polynomial_layers(net, a[0] / a[1], b[0] / b[1]))
    else:
        h.lib("initialize", lambda: initialize_network_polynomial_layers(
            net, max_slope=a[0] / a[1], max_offset=b[0] / b[1], scale_slope=lambda w: 1.0 / w))
    h.fact(all(bool((v == first.state_dict()[k]).all()) for k, v in keep.items()),
           "linear initialisation touches polynomial layers only")
    objs = handles(mlp.model)
    per = 2 if t.startswith("switch") else 1
    if len(objs) != per * (hid + 2):
        h.fact(False, "network has the requested layers")
        raise Abort()
    for j, o in enumerate(objs):
        inn = inw if j < per else hw
        out = outw if j >= per * (hid + 1) else hw
        sl = a if mode == "plain" else (a[0], a[1] * inn)
        line(h, o, kind, n, s, inn, out, half, sl, b, f"line net {t} {mode}")


def c08(h):
    a = h.rng.random()
    if a < 0.1:
        nd_init(h)
    elif a < 0.33:
        fc_init(h)
    elif a < 0.5:
        conv_init(h)
    elif a < 0.65:
        net_init(h)
    elif a < 0.82:
        line_layer(h)
    else:
        line_net(h)
