"""C11 and C14: instances over time (Objects.tla)."""
import copy
import hashlib
import io
import math
import os
import pickle
import random
import signal
import struct

import torch
from torch import nn

from core import Abort, listof, to_int

NS = 5          # samples per configuration
TOP = 1 << 20   # outputs are scaled so that the largest is about this


def U(*shape):
    return torch.rand(*shape) * 1.9 - 0.95


def link(kind, n, s, links):
    return {"kind": kind, "n": n, "s": s, "links": links}


class Cfg:
    """one configuration: make() builds an instance, sample() one input"""

    def __init__(self, name, make, sample, groups=None, out=None, params=True, modes=True, nonzero=True, pick=None,
                 deep=False, plain=True):
        self.name, self.make, self.sample, self.groups = name, make, sample, groups
        self.params, self.modes, self.nonzero, self.deep = params, modes, nonzero, deep
        self.pick = pick or (lambda y: y)
        self.plain = plain      # copies and pickles like any module


def fc_cfg(r):
    from high_order_layers_torch.layers import high_order_fc_layers as F

    t = r.choice(["polynomial", "continuous", "discontinuous", "polynomial_prod", "continuous_prod", "discontinuous_prod",
                  "switch_continuous", "switch_discontinuous", "fourier", "product", "baseline", "baseline_relu"])
    n, s, i, o = r.randint(2, 6), r.choice([1, 2, 3, 5]), r.randint(1, 4), r.randint(1, 4)
    kw = dict(n=n, in_features=i, out_features=o)
    kind = {"p": "poly", "c": "cont", "d": "disc"}.get(t[0])
    if t.startswith("switch"):
        kind = "cont" if "_cont" in t else "disc"
    if t.startswith(("continuous", "discontinuous", "switch")):
        kw["segments"] = s
    if t.startswith(("polynomial", "continuous", "discontinuous")) and r.random() < 0.3:
        kw["periodicity"] = r.choice([1.0, 2.0])
    if not t.startswith(("product", "baseline", "switch")) and r.random() < 0.3:
        kw["length"] = r.choice([1.0, 3.0])
    if t == "product":
        b = r.random() < 0.5
        kw = dict(in_features=i, out_features=o, bias=b)
        g = [link("one", 1, 1, i * o + (o if b else 0))]
    elif t.startswith("baseline"):
        g = [link("one", 1, 1, i * o + o)]
    elif t == "fourier":
        g = [link("poly", n, 1, i * o)]
    else:
        g = [link(kind, n, s, i * o)] * (2 if t.startswith("switch") else 1)
    if t.startswith("baseline"):
        kw.update(segments=s)
    return Cfg(t, lambda: F(t, **kw), lambda: (U(i),), g, nonzero=t != "baseline_relu")


def nd_cfg(r):
    from high_order_layers_torch.layers import high_order_fc_layers as F

    d, i, o, n = r.choice([2, 3]), r.randint(1, 2), r.randint(1, 3), r.randint(2, 3)
    if r.random() < 0.5:
        kw = dict(n=n, in_features=i, out_features=o)
        return Cfg(f"polynomial_{d}d", lambda: F(f"polynomial_{d}d", **kw), lambda: (U(i, d),), [link("poly", n ** d, 1, i * o)])
    s = r.randint(1, 3)
    kw = dict(n=n, segments=s, in_features=i, out_features=o, dimensions=d)
    return Cfg("continuous_nd", lambda: F("continuous_nd", **kw), lambda: (U(i, d),), [link("poly", (n * s) ** d, 1, i * o)])


def conv_cfg(r):
    import high_order_layers_torch.layers as L

    tr = r.random() < 0.25
    t = "continuous" if tr else r.choice(["continuous", "discontinuous", "polynomial", "fourier"])
    dim = 2 if tr else r.choice([1, 2])
    g = r.choice([1, 1, 2])
    ci, co, n, s, k = g * r.randint(1, 2), g * r.randint(1, 2), r.randint(2, 4), r.choice([1, 2, 3]), r.randint(1, 3)
    kw = dict(n=n, in_channels=ci, out_channels=co, kernel_size=k)
    if t[0] in "cd":
        kw["segments"] = s
    if g > 1:
        kw["groups"] = g
    for q, vs in (("stride", [1, 2]), ("padding", [0, 1]), ("dilation", [1, 2]), ("rescale_output", [False, True])):
        if r.random() < 0.4:
            kw[q] = r.choice(vs)
    if t != "fourier" and r.random() < 0.3:
        kw["periodicity"] = 2.0
    f = L.high_order_convolution_transpose_layers if tr else L.high_order_convolution_layers
    kind = {"c": "cont", "d": "disc", "p": "poly", "f": "poly"}[t[0]]
    return Cfg(("transposed " if tr else "") + f"{t}{dim}d", lambda: f(f"{t}{dim}d", **kw),
               lambda: (U(ci, 6, 5) if dim == 2 else U(ci, 8),), [link(kind, n, s, ci // g * co * k ** dim)])


def norm_factory(r, dims=1):
    import high_order_layers_torch.layers as L

    return r.choice([None, None, L.MaxAbsNormalization, L.MaxCenterNormalization, L.L2Normalization,
                     L.MaxAbsNormalizationLast, L.MaxCenterNormalizationLast, L.MaxAbsNormalizationND])


def net_cfg(r):
    import high_order_layers_torch.networks as N
    from high_order_layers_torch.layers import SumLayer, high_order_fc_layers as F

    which = r.choice(["mlp", "mlp", "mlp", "list", "multi", "low", "transform", "tlow", "sum"])
    t = r.choice(["continuous", "continuous", "discontinuous", "polynomial", "continuous_prod", "switch_continuous",
                  "switch_discontinuous"])
    kind = "disc" if "disc" in t else ("poly" if t == "polynomial" else "cont")
    mult = 2 if t.startswith("switch") else 1
    i, o, w, hid = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3), r.choice([0, 1, 2])
    n, s = r.randint(2, 4), r.choice([1, 2, 3])
    if r.random() < 0.2:
        # one size beyond the usual
        big = r.randrange(5)
        if big == 0:
            hid = r.choice([3, 4, 5, 6])
        elif big == 1:
            w = r.choice([5, 8, 12])
        elif big == 2:
            i, o = (r.choice([5, 9]) if which not in ("transform", "tlow") else 4), r.choice([5, 9])
        elif big == 3:
            n = r.choice([5, 6, 8])
        else:
            s = r.choice([5, 8, 16])
    norm = norm_factory(r)
    nl = r.choice([None, None, nn.ReLU(), nn.Tanh()])
    L = lambda a, b, nn_=n, ss=s: [link(kind, nn_, ss, a * b)] * mult
    if which == "mlp":
        n3 = [r.randint(2, 4) for _ in range(3)]
        s3 = [r.choice([1, 2, 3]) for _ in range(3)]
        if n > 4 or s > 3:
            n3, s3 = [n] * 3, [s] * 3
        res = r.random() < 0.3
        kw = dict(layer_type=t, n=n3[1], n_in=n3[0], n_hidden=n3[1], n_out=n3[2], in_width=i, out_width=o,
                  hidden_layers=hid, hidden_width=w, in_segments=s3[0], hidden_segments=s3[1], out_segments=s3[2],
                  normalization=norm, non_linearity=nl)
        g = None
        if res:
            kw["resnet"] = True
        else:
            g = L(i, w, n3[0], s3[0]) + L(w, w, n3[1], s3[1]) * hid + L(w, o, n3[2], s3[2])
        return Cfg(f"mlp {t} resnet={res}", lambda: N.HighOrderMLP(**kw), lambda: (U(i),), g, deep=True,
                   nonzero=nl is None and norm is None and not res)
    if which == "list":
        depth = r.choice([1, 2, 3, 1, 2, 3, 5, 7])
        ws = [r.randint(1, 3) for _ in range(depth + 1)]
        ts = [r.choice(["continuous", "discontinuous", "polynomial"]) for _ in range(depth)]
        ns, ss = [r.randint(2, 4) for _ in range(depth)], [r.choice([1, 2, 3]) for _ in range(depth)]
        kd = {"continuous": "cont", "discontinuous": "disc", "polynomial": "poly"}
        g = [link(kd[ts[k]], ns[k], ss[k], ws[k] * ws[k + 1]) for k in range(depth)]
        return Cfg("mlp list", lambda: N.HighOrderMLPList(layer_type=ts, n=ns, width=ws, segments=ss), lambda: (U(ws[0]),), g,
                   deep=True)
    if which == "multi":
        t2 = r.choice(["continuous", "discontinuous", "polynomial"])
        kind = {"continuous": "cont", "discontinuous": "disc", "polynomial": "poly"}[t2]
        reps = r.choice([1, 2, 3, 1, 2, 3, 5, 6])
        kw = dict(layer_type=t2, n=n, replicas=reps, in_width=i, out_width=o, hidden_layers=min(hid, 1), hidden_width=w,
                  in_segments=s, hidden_segments=s, out_segments=s, normalization=norm)
        mult = 1
        g = [link(kind, n, s, i * w)] + [link(kind, n, s, w * w)] * ((min(hid, 1) + 2) * reps) + [link(kind, n, s, w * o)]
        return Cfg("multi mlp", lambda: N.HighOrderMultiMLP(**kw), lambda: (U(i),), g, deep=True, nonzero=norm is None)
    if which == "low":
        kw = dict(in_width=i, out_width=o, hidden_layers=hid, hidden_width=w, normalization=norm, non_linearity=nl)
        g = [link("one", 1, 1, (i + 1) * w + hid * (w + 1) * w + (w + 1) * o)]
        return Cfg("low mlp", lambda: N.LowOrderMLP(**kw), lambda: (U(i),), g, deep=True, nonzero=False)
    rot = r.choice([1, 2, 3])
    if which == "transform":
        iw = i + i * (i - 1) * (rot - 1)
        kind, mult = ("disc" if "disc" in t else "poly" if t == "polynomial" else "cont"), mult
        kw = dict(layer_type=t, in_width=i, out_width=o, hidden_width=w, hidden_layers=hid, n=n, n_in=n, n_hidden=n, n_out=n, in_segments=s,
                  hidden_segments=s, out_segments=s, rotations=rot, normalization=norm)
        g = L(iw, w) + L(w, w) * hid + L(w, o)
        return Cfg("rotated mlp", lambda: N.transform_mlp(**kw), lambda: (U(i),), g, deep=True, nonzero=norm is None)
    if which == "tlow":
        iw = i + i * (i - 1) * (rot - 1)
        kw = dict(in_width=i, out_width=o, hidden_width=w, hidden_layers=hid, non_linearity=nl, normalization=norm,
                  rotations=rot)
        g = [link("one", 1, 1, (iw + 1) * w + hid * (w + 1) * w + (w + 1) * o)]
        return Cfg("rotated low mlp", lambda: N.transform_low_mlp(**kw), lambda: (U(i),), g, deep=True, nonzero=False)
    mk = lambda: SumLayer(layer_list=[F("continuous", n=n, segments=s, in_features=i, out_features=o),
                                      F("polynomial", n=n, in_features=i, out_features=o)])
    return Cfg("sum layer", mk, lambda: (U(i),), [link("cont", n, s, i * o), link("poly", n, 1, i * o)])


def cnet_cfg(r):
    import high_order_layers_torch.networks as N
    import high_order_layers_torch.layers as L

    which = r.choice(["conv", "conv", "deconv", "tail"])
    dim = 1 if which == "tail" else (2 if which == "deconv" else r.choice([1, 2]))
    t = "continuous" if which == "deconv" else r.choice(["continuous", "discontinuous", "polynomial"])
    kind = {"c": "cont", "d": "disc", "p": "poly"}[t[0]]
    depth = r.choice([1, 2, 1, 2, 3, 4, 6])
    ch = [r.randint(1, 3) for _ in range(depth + 1)]
    n, s, k = r.randint(2, 3), r.choice([1, 2, 3]), r.choice([1, 2, 3] if depth < 3 else [1, 2])
    if depth > 2:
        ch = [min(c, 2) for c in ch]
    kw = dict(layer_type=f"{t}{dim}d", n=n, channels=ch, segments=s, kernel_size=[k] * depth,
              stride=r.choice([1, 2]) if depth < 3 else 1,
              padding=0 if depth > 2 and which == "deconv" else r.choice([0, 1]))
    if r.random() < 0.3:
        kw["periodicity"] = 2.0
    if r.random() < 0.4:
        kw["normalization"] = r.choice([lambda c: L.MaxAbsNormalization(), lambda c: L.MaxAbsNormalizationND(),
                                        lambda c: L.MaxCenterNormalizationND()])
    g = [link(kind, n, s, ch[j] * ch[j + 1] * k ** dim) for j in range(depth)]
    x = (lambda: (U(ch[0], 9, 8),)) if dim == 2 else (lambda: (U(ch[0], 14),))
    if which == "conv":
        kw["pooling"] = r.choice([None, f"{dim}d"])
        return Cfg("conv net", lambda: N.HighOrderFullyConvolutionalNetwork(**kw), x, g, deep=True, nonzero="normalization" not in kw)
    if which == "deconv":
        return Cfg("deconv net", lambda: N.HighOrderFullyDeconvolutionalNetwork(**kw), lambda: (U(ch[0], 6, 5),), g, deep=True, nonzero="normalization" not in kw)
    kw["focus"] = r.choice([1, 2])
    return Cfg("tail net", lambda: N.HighOrderTailFocusNetwork(**kw), x, g, deep=True, nonzero="normalization" not in kw)


def norm_cfg(r):
    import high_order_layers_torch.layers as L
    import high_order_layers_torch.utils as UU

    name = r.choice(["MaxAbsNormalization", "MaxAbsNormalizationLast", "MaxCenterNormalization",
                     "MaxCenterNormalizationLast", "MaxCenterNormalizationND", "MaxAbsNormalizationND", "L2Normalization",
                     "max_abs_normalization", "max_center_normalization", "max_center_normalization_nd", "l2_normalization",
                     "max_abs_normalization_nd", "max_abs_normalization_last", "max_center_normalization_last",
                     "make_periodic"])
    sh = [r.randint(1, 4) for _ in range(r.choice([1, 2, 3]))]
    sh[-1] = max(sh[-1], 2)
    if name[0] == "M" or name[0] == "L":
        return Cfg(name, lambda: getattr(L, name)(), lambda: (U(*sh),), params=False)
    if name == "make_periodic":
        return Cfg(name, lambda: Fn(lambda x: UU.make_periodic(x, 0.7)), lambda: (U(*sh) * 3,), params=False, plain=False)
    return Cfg(name, lambda: Fn(getattr(UU, name)), lambda: (U(*sh),), params=False, plain=False)


class Fn(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, *a):
        return self.f(*a)


class NoLast(nn.Module):
    """without an earlier alignment"""

    def __init__(self, m):
        super().__init__()
        self.m = m

    def forward(self, *a):
        return self.m(*a, None)


def att_cfg(r):
    import high_order_layers_torch.attentions as A

    which = r.choice(["sdp", "dot", "add", "mha", "mha", "rel", "rel", "loc", "mhl", "cust"])
    heads, dh, q, k = r.choice([1, 2, 3]), r.choice([1, 2, 4]), r.choice([1, 2, 3]), r.choice([1, 2, 4])
    d = heads * dh
    first = lambda y: y[0]
    mask = r.random() < 0.5

    def m(rows, cols):
        z = torch.rand(rows, cols) < 0.35
        z[:, 0] = False
        return z

    kw = dict(nonzero=False)
    if which == "sdp":
        mk = lambda: A.ScaledDotProductAttention(d)
        x = lambda: (U(q, d), U(k, d), U(k, d)) + ((m(q, k),) if mask else ())
        return Cfg("sdp", mk, x, params=False, pick=first)
    if which == "dot":
        return Cfg("dot", lambda: A.DotProductAttention(d), lambda: (U(q, d), U(k, d)), params=False, pick=first)
    if which == "add":
        return Cfg("additive", lambda: A.AdditiveAttention(d), lambda: (U(1, d), U(k, d), U(k, d)), pick=first, **kw)
    if which == "mha":
        return Cfg("multi-head", lambda: A.MultiHeadAttention(d, heads),
                   lambda: (U(q, d), U(k, d), U(k, d)) + ((m(q, k),) if mask else ()), pick=first, **kw)
    if which == "rel":
        return Cfg("relative multi-head", lambda: A.RelativeMultiHeadAttention(d, heads, 0.0),
                   lambda: (U(q, d), U(q, d), U(q, d), U(q, d)) + ((m(q, q),) if mask else ()), **kw)
    if which == "loc":
        return Cfg("location aware", lambda: A.LocationAwareAttention(d, r.random() < 2),
                   lambda: (U(1, d), U(k, d), U(k).abs()), pick=first, **kw)
    if which == "mhl":
        return Cfg("multi-head location aware", lambda: A.MultiHeadLocationAwareAttention(d, heads, 2),
                   lambda: (U(1, d), U(k, d), U(heads, k).abs()), pick=first, **kw)
    return Cfg("customizing", lambda: NoLast(A.CustomizingAttention(d, heads, 2)), lambda: (U(1, d), U(k, d)), pick=first, **kw)


def emb_cfg(r):
    import high_order_layers_torch.positional_embeddings as E
    from high_order_layers_torch.layers import fixed_rotation_layer

    which = r.choice(["classic", "fourier", "cont", "disc", "rot"])
    if which == "classic":
        d = 2 * r.randint(1, 4)
        return Cfg("sinusoidal embedding", lambda: E.ClassicSinusoidalEmbedding(d), lambda: (U(1)[0],), params=False)
    if which == "rot":
        n, rot = r.choice([1, 2, 3, 4, 5, 6, 8]), r.randint(1, 5)
        return Cfg("rotation", lambda: fixed_rotation_layer(n, rotations=rot)[0], lambda: (U(n),), [], params=False)
    n, s, o = r.randint(2, 4), r.randint(1, 3), r.randint(1, 4)
    if which == "fourier":
        return Cfg("fourier embedding", lambda: E.FourierSeriesEmbedding(in_features=1, out_features=o, n=n, length=2.0),
                   lambda: (U(1),), [link("poly", n, 1, o)])
    f = E.PiecewisePolynomialEmbedding if which == "cont" else E.PiecewiseDiscontinuousPolynomialEmbedding
    return Cfg(which + " embedding", lambda: f(in_features=1, out_features=o, n=n, segments=s), lambda: (U(1),),
               [link(which, n, s, o)])


KINDS = [fc_cfg, fc_cfg, fc_cfg, nd_cfg, conv_cfg, conv_cfg, net_cfg, net_cfg, net_cfg, cnet_cfg, att_cfg, emb_cfg]


def params(m):
    """parameters a user would train, without the unused one of Function"""
    return [(n, p) for n, p in m.named_parameters() if p.requires_grad and n.split(".")[-1] != "result"]


def bits(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def same_bits(a, m):
    b = m.state_dict()
    return list(a) == list(b) and all(a[k].shape == b[k].shape and a[k].dtype == b[k].dtype and
                                      bool(((a[k] == b[k]) | ((a[k] != a[k]) & (b[k] != b[k]))).all()) for k in a)


class World:
    """instances of one configuration, mirrored in the trace"""

    def __init__(self, h, cfg):
        self.h, self.r, self.cfg = h, h.rng, cfg
        self.obj, self.tok, self.next = {}, {}, 1
        self.scale = {}          # token -> (scale, tol, kept samples)
        self.snap = {}
        self.raw = {}            # token -> outputs
        self.x = [cfg.sample() for _ in range(NS)]
        h.cover.add(cfg.name)

    def new(self, i):
        self.obj[i] = self.h.lib("construct " + self.cfg.name, self.cfg.make)
        if self.cfg.modes and self.r.random() < 0.4:
            self.obj[i].eval()
        self.fresh(i)
        self.h.ev("new", id=i, cfg=self.cfg.name)

    def fresh(self, i):
        self.tok[i] = self.next
        self.next += 1

    def perturb(self, i, how=None):
        m = self.obj[i]
        ps = params(m)
        how = self.r.choice(["noise", "noise", "noise", "train", "data", "magnify"]) if how is None else how
        if not ps:
            return False
        mag = 2.0 ** self.r.choice([-6, 3, 8, 12, 14])
        if how == "train":
            def go():
                opt = self.r.choice([lambda q: torch.optim.SGD(q, lr=0.3), lambda q: torch.optim.Adam(q, lr=0.05)])(
                    [p for _, p in ps])
                y = self.cfg.pick(m(*self.stack(range(NS))))
                (y * torch.randn_like(y)).sum().backward()
                opt.step()
                opt.zero_grad()
            self.h.lib("training step " + self.cfg.name, go)
        else:
            with torch.no_grad():
                for _, p in ps:
                    d = torch.randn_like(p) * 0.2 / math.sqrt(max(1, p.shape[-1] if p.dim() else 1))
                    if how == "data":
                        p.data = p.data + d
                    elif how == "magnify":
                        p.copy_((p + d) * mag)
                    else:
                        p.add_(d)
        self.fresh(i)
        self.h.ev("perturb", id=i)
        return True

    def load(self, i, j):
        how = self.r.randrange(4)
        src, dst = self.obj[j], self.obj[i]

        def go():
            if how == 0:
                dst.load_state_dict(src.state_dict())
            elif how == 1:
                b = io.BytesIO()
                torch.save(src.state_dict(), b)
                b.seek(0)
                dst.load_state_dict(torch.load(b))
            elif how == 2:
                dst.load_state_dict({k: v.clone() for k, v in src.state_dict().items()}, assign=True)
            else:
                with torch.no_grad():
                    for p, q in zip(dst.parameters(), src.parameters()):
                        p.copy_(q)
                    for p, q in zip(dst.buffers(), src.buffers()):
                        p.copy_(q)
        self.h.lib("load " + self.cfg.name, go)
        self.tok[i] = self.tok[j]
        self.h.ev("load", id=i, src=j)

    def copy(self, i, j):
        src = self.obj[j]

        def go():
            if self.r.random() < 0.4:
                try:
                    b = pickle.dumps(src)
                except Exception:
                    b = None        # not every object can be pickled (lambdas as non-linearities)
                if b is not None:
                    return pickle.loads(b)
            return copy.deepcopy(src)
        self.obj[i] = self.h.lib("copy " + self.cfg.name, go)
        flags = lambda m: [(n, p.requires_grad) for n, p in m.named_parameters()]
        self.h.fact(flags(self.obj[i]) == flags(src), "a copy trains the same parameters: " + self.cfg.name)
        self.tok[i] = self.tok[j]
        self.h.ev("copy", id=i, src=j)

    def save(self, i):
        def go():
            if self.r.random() < 0.5:
                return copy.deepcopy(self.obj[i].state_dict())
            b = io.BytesIO()
            torch.save(self.obj[i].state_dict(), b)
            b.seek(0)
            return torch.load(b)
        self.snap["a"] = (self.h.lib("save " + self.cfg.name, go), self.tok[i])
        self.h.ev("save", id=i, name="a")

    def restore(self, i):
        sd, t = self.snap["a"]
        self.h.lib("restore " + self.cfg.name, lambda: self.obj[i].load_state_dict(sd))
        self.tok[i] = t
        self.h.ev("restore", id=i, name="a")

    # -- evaluation ------------------------------------------------------------
    def stack(self, sel, jitter=0.0):
        out = []
        for c in range(len(self.x[0])):
            t = torch.stack([self.x[s][c] for s in sel])
            if jitter and t.is_floating_point():
                t = t * (1 + jitter * torch.randn_like(t)) + jitter * torch.randn_like(t)
            out.append(t)
        return out

    def layout(self, t, lay):
        if lay == "strided" and t.dim() >= 2:
            return t.transpose(0, -1).contiguous().transpose(0, -1)
        if lay == "strided":
            big = torch.zeros((2 * t.shape[0],) + tuple(t.shape[1:]), dtype=t.dtype)
            big[::2] = t
            return big[::2]
        if lay == "offset":
            big = torch.zeros((t.shape[0] + 2,) + tuple(t.shape[1:]), dtype=t.dtype)
            big[1:-1] = t
            if t.dim() >= 2 and t.is_floating_point():
                wide = torch.full(tuple(big.shape[:-1]) + (big.shape[-1] + 1,), 9.0, dtype=t.dtype)
                wide[..., :-1] = big
                return wide[1:-1, ..., :-1]
            return big[1:-1]
        return t.clone()

    def flat(self, y):
        return y.reshape(y.shape[0], -1)

    def calibrate(self, i):
        """scale and tolerance for the current token; drops samples too close to a jump"""
        t = self.tok[i]
        if t in self.scale:
            return
        m, c = self.obj[i], self.cfg

        def run(j):
            with torch.no_grad():
                return self.flat(c.pick(m(*self.stack(range(NS), j)))).detach().clone()

        y = self.h.lib("forward " + c.name, lambda: run(0.0))
        if y.shape[0] != NS or not torch.is_tensor(y):
            self.h.fact(False, "one output per sample: " + c.name)
            raise Abort()
        self.raw[t] = y
        if y.numel() == 0:
            self.scale[t] = (1.0, 4, [])
            self.h.cover.add(c.name + ": empty")
            return
        var = torch.zeros(NS)
        for _ in range(6 if c.deep else 3):
            var = torch.maximum(var, (self.h.lib("forward " + c.name, lambda: run(1e-6)) - y).abs().max(1).values)
        big = float(y.abs().max())
        keep = []
        if not math.isfinite(big):
            self.scale[t] = (1.0, 4, [])
            self.h.cover.add(c.name + ": skipped")
            return
        if math.isfinite(big) and big < 1e12:
            big = max(big, 1e-3)
            keep = [s for s in range(NS) if float(var[s]) < 4e-4 * big]
        tol = max([float(var[s]) for s in keep], default=0.0) * 4 + 2e-5 * max(big, min(1.0, 10 * big))
        sc = TOP / big if keep else 1.0
        tol = int(math.ceil(tol * sc)) + 4
        if tol * 50 > TOP:
            keep = []
        self.scale[t] = (sc, tol, keep)
        self.h.cover.add(f"{c.name}: {'usable' if keep else 'skipped'}")

    def eval(self, i, sel=None, lay="plain", mode="nograd", what=""):
        self.calibrate(i)
        sc, tol, keep = self.scale[self.tok[i]]
        sel = [s for s in (range(NS) if sel is None else sel) if s in keep]
        if not sel:
            return None
        m, c, h = self.obj[i], self.cfg, self.h
        X = self.stack(sel)
        far = self.r.random() < 0.2
        if far:     # and a sample of quite other magnitude, whose own output is not looked at
            X = [torch.cat([t, t[:1] * (self.r.choice([-1, 1]) * 10.0 ** self.r.randint(1, 6)) if t.is_floating_point() else t[:1]])
                 for t in X]
        xs = [self.layout(t, lay) for t in X]
        before = [t.detach().clone() for t in xs]
        w = bits(m)
        if mode == "grad":
            xs = [t.requires_grad_(True) if t.is_floating_point() and t.is_leaf else t for t in xs]
        if mode in ("train", "eval") and c.modes:
            m.train(mode == "train")

        quiet = mode in ("train", "eval") and self.r.random() < 0.5
        frozen = [p for p in m.parameters() if p.requires_grad] if self.r.random() < (0.5 if mode in ("train", "eval") and not quiet else 0.2) else []
        for p in frozen:
            p.requires_grad_(False)
        asked = mode != "nograd" and not quiet

        def outer():
            with torch.set_grad_enabled(asked):
                y = m(*xs)
                return y, torch.is_grad_enabled()

        out, now = h.lib("forward " + c.name, outer)
        y = c.pick(out)
        h.fact(now == asked, "evaluation leaves torch's gradient mode alone: " + c.name)
        for p in frozen:
            p.requires_grad_(True)
        if self.r.random() < 0.05:      # whatever is drawn afterwards is still random
            st, after = torch.get_rng_state(), []
            for seed in (5, 6):
                torch.manual_seed(seed)
                h.lib("forward " + c.name, lambda: m(*[t.detach() for t in xs]))
                after.append(torch.get_rng_state())
            torch.set_rng_state(st)
            h.fact(not torch.equal(*after), "evaluation leaves the random generator alone: " + c.name)
        h.ev("same", ok=all(bool((a == b).all()) for a, b in zip(before, [t.detach() for t in xs])),
             what="evaluation leaves its input alone: " + c.name)
        h.ev("same", ok=same_bits(w, m), what="evaluation leaves the weights alone: " + c.name)
        if far:
            h.fact(y.shape[0] == len(sel) + 1, "one output per sample: " + c.name)
            if y.shape[0] != len(sel) + 1:
                return y
            y = y[:-1]
        Y, rows = self.flat(y), list(range(len(sel)))
        if len(sel) > 2 * NS:      # long batches: all sizes checked, some rows logged
            h.fact(Y.shape[0] == len(sel), "one output per sample: " + c.name)
            if Y.shape[0] != len(sel):
                return y
            rows = sorted(set(rows[:NS] + rows[-2 * NS:] + self.r.sample(rows, NS)))
            Y = Y[rows]
        h.ev("eval", id=i, S=[sel[k] + 1 for k in rows], Y=to_int(listof(Y), sc), tol=tol, top=TOP,
             what=c.name + (" after " + what if what else ""))
        return y

    def differ(self, a, b):
        if same_bits(bits(self.obj[a]), self.obj[b]):
            return      # drawn equal, for example constant initial weights
        if self.cfg.params and self.cfg.nonzero and self.scale.get(self.tok[a]) and self.scale.get(self.tok[b]) and self.tok[a] != self.tok[b]:
            sel = sorted(set(self.scale[self.tok[a]][2]) & set(self.scale[self.tok[b]][2]))
            if sel:
                A, B = self.raw[self.tok[a]][sel], self.raw[self.tok[b]][sel]
                sc = TOP / max(1e-3, float(A.abs().max()), float(B.abs().max()))
                self.h.ev("differ", a=a, b=b, A=to_int(listof(A), sc), B=to_int(listof(B), sc), what=self.cfg.name)


def static(W):
    """counts and gradients of a fresh instance"""
    c, h, r = W.cfg, W.h, W.r
    m = W.obj[1]
    ps = params(m)
    if not ps:
        if c.groups is not None:
            h.ev("count", got=0, groups=c.groups, what=c.name)
        return
    got = {n: [False, True, False] for n, _ in ps}
    W.perturb(1, "noise")
    for _ in range(4 if c.nonzero else 1):
        xs = [torch.stack([c.sample()[k] for _ in range(24)]) for k in range(len(W.x[0]))]
        m.zero_grad()
        y = c.pick(h.lib("forward " + c.name, lambda: m(*xs)))
        ok = y.requires_grad
        if ok:
            h.lib("backward " + c.name, lambda: (y * torch.randn_like(y)).sum().backward())
        for n, p in ps:
            if p.grad is not None:
                got[n][0] = True
                got[n][1] = got[n][1] and bool(torch.isfinite(p.grad).all())
                got[n][2] = got[n][2] or bool((p.grad != 0).any())
    m.zero_grad()
    if c.groups is not None:
        h.ev("count", got=sum(p.numel() for n, p in ps if got[n][0]), groups=c.groups, what=c.name)
    else:
        h.fact(all(v[0] for v in got.values()), "every parameter receives a gradient: " + c.name)
    h.ev("grads", G=[{"name": n, "has": v[0], "finite": v[1], "some": v[2]} for n, v in got.items()], nonzero=c.nonzero,
         what=c.name)


def pick_cfg(r, only=None):
    c = r.choice(only or KINDS)(r)
    return c


ROWS = []


def c11_replay(h):
    """one history of MCObjects on a random object"""
    r = h.rng
    c = pick_cfg(r)
    W = World(h, c)
    W.new(1)
    W.new(2)
    row = ROWS[int(str(h.idx).lstrip("rs")) % len(ROWS)] if ROWS else {"ops": []}
    look = lambda: [W.eval(i, what=what) for i in sorted(W.obj)]
    what = "construction"
    look()
    W.differ(1, 2)
    for op in row["ops"]:
        i, j = op["i"], op["j"]
        what = op["op"]
        if op["op"] == "perturb":
            old = W.tok[i]
            if W.perturb(i):
                W.calibrate(i)
                # the same weights in another new instance define the meaning
                k = 9
                W.new(k)
                W.load(k, i)
                W.eval(k, what="update")
        elif op["op"] == "load":
            W.load(i, j)
        elif op["op"] == "copy":
            W.copy(i, j)
        elif op["op"] == "save":
            W.save(i)
        else:
            W.restore(i)
        look()
        ids = sorted(q for q in W.obj if q != 9)
        for a in ids:
            for b in ids:
                if a < b:
                    W.differ(a, b)


def c11_static(h):
    r = h.rng
    c = pick_cfg(r)
    W = World(h, c)
    W.new(1)
    static(W)


def sel_of(name, r=random):
    if name == "many":
        return [k % NS for k in range(r.choice([17, 33, 65, 70, 129, 260, 520, 1030]))]
    return {"all": list(range(NS)), "reverse": list(range(NS))[::-1], "one": [0], "last": [NS - 1],
            "twice": list(range(NS)) * 2, "some": [1, 3]}[name]


# -- a process in which nothing happened before --------------------------------
def _send(fd, data):
    data = struct.pack("!Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def take(n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b
    n = take(8)
    return None if n is None else take(struct.unpack("!Q", n)[0])


class Pristine:
    """forked before the library was used; evaluates each request in a child of its own"""

    def __init__(self):
        a, self.out = os.pipe()
        self.inp, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                signal.alarm(3600)
                os.close(self.out)
                os.close(self.inp)
                while True:
                    q = _recv(a)
                    if q is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            signal.alarm(100)
                            _send(b, self.answer(q))
                        finally:
                            os._exit(0)
                    _, st = os.waitpid(pid, 0)
                    if st != 0:
                        _send(b, pickle.dumps(("err", "no answer", str(st))))
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    @staticmethod
    def answer(q):
        try:
            key, sd, xs = torch.load(io.BytesIO(q))
            h = hashlib.sha256(key.encode()).digest()
            torch.manual_seed(int.from_bytes(h[:4], "big") & 0x7FFFFFFF)
            c = pick_cfg(random.Random(h), KINDS14())
            m = c.make()
            if sd is not None:
                m.load_state_dict(sd)
            with torch.no_grad():
                y = c.pick(m(*xs))
            return pickle.dumps(("ok", listof(y.reshape(y.shape[0], -1)), ""))
        except Exception as ex:
            return pickle.dumps(("err", type(ex).__name__, str(ex)[:200]))

    def ask(self, key, sd, xs):
        b = io.BytesIO()
        torch.save((key, sd, xs), b)
        _send(self.out, b.getvalue())
        r = _recv(self.inp)
        return ("err", "no answer", "") if r is None else pickle.loads(r)


def warm():
    """import everything, use nothing of the library"""
    import high_order_layers_torch.attentions  # noqa: F401
    import high_order_layers_torch.layers  # noqa: F401
    import high_order_layers_torch.networks  # noqa: F401
    import high_order_layers_torch.positional_embeddings  # noqa: F401

    b = io.BytesIO()
    lin = nn.Sequential(nn.Linear(2, 2), nn.Conv1d(1, 1, 1))
    torch.save((copy.deepcopy(lin).state_dict(), [torch.ones(2)]), b)
    b.seek(0)
    lin.load_state_dict(torch.load(b)[0])
    with torch.no_grad():
        torch.einsum("ij,jk->ik", torch.ones(2, 2), torch.ones(2, 2))
        nn.MaxPool2d(1)(lin[0](torch.ones(1, 2, 2)))
    random.Random(1).choice([1])


PRISTINE = {}


def pristine():
    if os.getpid() not in PRISTINE:
        PRISTINE[os.getpid()] = Pristine()
    return PRISTINE[os.getpid()]


def KINDS14():
    return KINDS + [norm_cfg, norm_cfg, att_cfg]


def c14(h):
    """two calls under a pair of circumstances enumerated by MCCalls"""
    r = h.rng
    clean = pristine()
    c = pick_cfg(r, KINDS14())
    row = ROWS[h.calls] if hasattr(h, "calls") else ROWS[r.randrange(len(ROWS))]
    W = World(h, c)
    W.new(1)
    W.new(2)
    if c.params and r.random() < 0.7:
        W.perturb(1, r.choice(["noise", "noise", "magnify"]))
    W.eval(1)
    if r.random() < 0.15:
        # a long life before the calls that are looked at
        xs = W.stack(range(NS))

        def often():
            with torch.no_grad():
                for _ in range(r.choice([40, 110, 300])):
                    W.obj[1](*xs)
        h.lib("forward " + c.name, often)
    for call in list(row) + [ROWS[r.randrange(len(ROWS))][0]]:
        ev = call["ev"]
        if ev == "backward" and params(W.obj[1]):
            def back():
                y = c.pick(W.obj[1](*W.stack(range(NS))))
                (y * y).sum().backward()
            h.lib("backward " + c.name, back)
            if r.random() < 0.5:
                W.obj[1].zero_grad()
        elif ev == "other":
            if c.params:
                W.perturb(2)
            W.eval(2)
            # and one of another configuration of the same family
            o = type(c)  # noqa: F841
            d = pick_cfg(r)
            try:
                q = d.make()
                q(*[torch.stack([t] * 3) for t in d.sample()])
            except Exception:
                pass        # judged where that configuration is the subject
        elif ev == "update" and c.params:
            if W.perturb(1):
                W.new(3)
                W.load(3, 1)
                W.eval(3, what="update")
        W.eval(1, sel_of(call["sel"], r), call["lay"], call["mode"], what=ev)
    # the same weights and samples in a process that did nothing else
    W.calibrate(1)
    sc, tol, keep = W.scale[W.tok[1]]
    if keep:
        k, y, msg = clean.ask(h.key, W.obj[1].state_dict() if c.params else None, W.stack(keep))
        if k == "ok":
            h.ev("eval", id=1, S=[s + 1 for s in keep], Y=to_int(y, sc), tol=tol, top=TOP,
                 what=c.name + " in a new process")
        else:
            h.ev("err", op="evaluation in a new process: " + c.name, type=y, msg=msg)
    # one buffer, refilled in place
    W.calibrate(1)
    sc, tol, keep = W.scale[W.tok[1]]
    if len(keep) >= 2:
        a, b = keep[0], keep[1]
        buf = W.stack([a])
        nxt = W.stack([b])
        m = W.obj[1]
        for want in (a, b):
            with torch.no_grad():
                y = c.pick(h.lib("forward " + c.name, lambda: m(*buf)))
            h.ev("eval", id=1, S=[want + 1], Y=to_int(listof(W.flat(y)), sc), tol=tol, top=TOP,
                 what=c.name + " on a refilled buffer")
            with torch.no_grad():
                for t, u in zip(buf, nxt):
                    t.copy_(u)
