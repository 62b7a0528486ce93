"""Driver for Layers.tla: real layers paired with their abstract functions."""
import math

import numpy as np
import torch

import pp
from core import Abort, listof, to_int

KIND_TYPE = {("poly", "sum"): "polynomial", ("cont", "sum"): "continuous", ("disc", "sum"): "discontinuous",
             ("poly", "prod"): "polynomial_prod", ("cont", "prod"): "continuous_prod",
             ("disc", "prod"): "discontinuous_prod"}
HALVES = [(1, 1), (1, 1), (1, 1), (2, 1), (1, 2), (3, 2), (4, 1), (3, 1), (1, 4)]


def num(r, v):
    """a number as a user may write it: 3 or 3.0"""
    return int(v) if v == int(v) and r.random() < 0.5 else v


def frac(a, b):
    return a / b


def layouts(rng, x, allow_grad=True):
    """the same values in another memory layout"""
    m = rng.randrange(6)
    if m == 1 and x.dim() >= 2:
        return x.transpose(0, 1).contiguous().transpose(0, 1)
    if m == 2:
        big = torch.full((x.shape[0] * 2,) + tuple(x.shape[1:]), 7.25)
        big[::2] = x
        return big[::2]
    if m == 3:
        big = torch.full(tuple(x.shape[:-1]) + (x.shape[-1] + 3,), -3.5)
        big[..., 2:-1] = x
        return big[..., 2:-1]
    if m == 4 and allow_grad:
        return x.clone().requires_grad_(True)
    return x.clone()


def crowd(r, obj, x):
    """now and then: the samples among many others"""
    if r.random() < 0.03 and x.dim() >= 2 and 0 < x.shape[0] <= 200 and x[0].numel() <= 40:
        size = r.choice([130, 257, 260, 513, 1025] + ([2100, 4100] if x[0].numel() <= 6 else []))
        size = max(size, x.shape[0])
        at = sorted(r.sample(range(size), x.shape[0])) if r.random() < 0.7 else list(range(size - x.shape[0], size))
        big = (x.detach()[[r.randrange(x.shape[0]) for _ in range(size)]] * 0.9375).clone()
        big[at] = x
        return obj(big)[at]
    return None


def plain(obj):
    """nothing in it is meant to behave differently while training"""
    return not any(isinstance(m, (torch.nn.modules.dropout._DropoutNd, torch.nn.modules.batchnorm._NormBase))
                   for m in obj.modules())


def ask(r, obj, x):
    """evaluate; now and then in double precision, in the middle of a crowd, with frozen weights or
    after switching between training and evaluation mode"""
    y = crowd(r, obj, x)
    if y is not None:
        return y
    if isinstance(obj, torch.nn.Module) and r.random() < 0.08 and plain(obj):
        if r.random() < 0.7:
            obj.train(not obj.training)
        else:
            live = [p for p in obj.parameters() if p.requires_grad]
            for p in live:
                p.requires_grad_(False)
            try:
                return obj(x)
            finally:
                for p in live:
                    p.requires_grad_(True)
    if r.random() < 0.04 and isinstance(obj, torch.nn.Module) and x.dtype == torch.float32:
        obj.double()
        try:
            y = obj(x.double())
        finally:
            obj.float()
        return y.float() if y.dtype == torch.float64 else y.new_full(y.shape, math.nan)
    return obj(x)


class Layer:
    """a real layer, its id in the trace and what was written into it"""

    count = 0

    def __init__(self, h, kind, n, s, inn, out, comb="sum", half=(1, 1), per=None, build=None, obj=None,
                 units=False, ux=None, uy=None):
        from high_order_layers_torch.layers import high_order_fc_layers

        self.h, self.kind, self.comb, self.n, self.inn, self.out = h, kind, comb, n, inn, out
        self.s = 1 if kind == "poly" else s
        self.hn, self.hd = half
        self.half = half[0] / half[1]
        self.pn, self.pd = per if per else (0, 1)
        self.period = self.pn / self.pd if self.pn else None
        # the layer is built and used in other units than the trace speaks of: lengths
        # in units of ux, values in units of u (powers of two, so nothing is rounded)
        self.units = units and obj is None
        if ux is None:
            ux = 2.0 ** h.rng.randint(-8, 8) if self.units and h.rng.random() < 0.3 else 1.0
        self.ux, self.u, self.uy = ux, 1.0, uy
        Layer.count += 1
        self.id = Layer.count
        if obj is None:
            kw = dict(n=n, in_features=inn, out_features=out)
            if kind != "poly":
                kw["segments"] = s
            if half != (1, 1) or ux != 1 or h.rng.random() < 0.3:
                kw["length"] = num(h.rng, 2 * self.half * ux)
            if self.period is not None:
                kw["periodicity"] = num(h.rng, self.period * ux)
            build = build or (lambda: high_order_fc_layers(KIND_TYPE[kind, comb], **kw))
            obj = h.lib("construct", build, id=self.id)
        self.obj = obj
        h.ev("new", id=self.id, kind=kind, comb=comb, n=n, s=self.s, **{"in": inn}, out=out, hn=self.hn, hd=self.hd,
             pn=self.pn, pd=self.pd, w=list(obj.w.shape))
        h.cover.add(f"{comb}-{kind} n={n} s={self.s}")
        self.f = None
        self.werr = 0.0

    # -- state ---------------------------------------------------------------
    def rand_f(self, deg=None, cmax=3, fs=None):
        fs = self.s if fs is None else fs
        return [[pp.rand_func(self.h.rng, self.kind, self.n, fs, deg, cmax) for _ in range(self.inn)]
                for _ in range(self.out)]

    def new_unit(self):
        r = self.h.rng
        if self.uy is not None:     # prescribed, by the layer behind
            self.u = self.uy
            return self.u
        self.u = 2.0 ** r.randint(-14, 14) if self.units and self.comb == "sum" and r.random() < 0.4 else 1.0
        return self.u

    def set(self, f, d=1, how=None):
        h = self.h
        self.new_unit()
        self.f, self.d = f, d
        self.werr = 0.0
        self.deg = pp.layer_deg(f)
        self.fs = len(f[0][0])
        self.W = pp.all_weights(f, d, self.kind, self.n, self.s)
        w = torch.tensor(self.W * self.u, dtype=torch.float32)
        how = h.rng.randrange(5) if how is None else how
        obj = self.obj

        def put():
            if how == 0:
                with torch.no_grad():
                    obj.w.copy_(w)
            elif how == 1:
                obj.w.data = w.clone()
            elif how in (2, 4):
                sd = obj.state_dict()
                sd = {k: (w.clone() if k == "w" else v) for k, v in sd.items()}
                obj.load_state_dict(sd, assign=how == 4)
            else:
                with torch.no_grad():
                    for o in range(self.out):
                        obj.w[o] = w[o]

        if tuple(w.shape) == tuple(obj.w.shape):
            h.lib("set weights", put, id=self.id)
        h.ev("set", id=self.id, f=f, d=d)

    def adopt(self, other):
        """after a transfer the function is the other layer's"""
        V, S, E, sl, leb = pp.link_info(other.W, other.kind, other.n, other.s, other.half, None,
                                        np.repeat(np.linspace(-other.half, other.half, 41)[:, None], other.inn, 1))
        self.werr = float((E + other.werr * leb).max()) * 2 + 1e-6
        self.u = other.u
        self.f, self.d, self.deg, self.fs = other.f, other.d, other.deg, other.fs
        if self.s % self.fs == 0:
            self.W = pp.all_weights(self.f, self.d, self.kind, self.n, self.s)

    # -- units -----------------------------------------------------------------
    def loc_h(self, D, s=None):
        U = D * self.hn
        s = self.fs if s is None else s
        return U // s if U % s == 0 else U

    def csum(self):
        return max(sum(abs(v) for v in c) for fo in self.f for fi in fo for c in fi)

    def pick_D(self, tmax=1.0, cap=256, limit=2.0 ** 28):
        """denominator of the inputs: fine, but with room for the values"""
        b = max(1, self.csum()) * self.inn * max(1.0, tmax) ** self.deg
        Hb = cap
        mult = self.inn if self.comb == "prod" else 1

        def size(Hb):
            den = self.d * (Hb * self.hn) ** self.deg
            if mult > 1:
                return (den * (1 + max(1, self.csum()) * max(1.0, tmax) ** self.deg / self.d)) ** mult
            return b * (Hb * self.hn) ** self.deg

        while Hb > 1 and size(Hb) > limit:
            Hb //= 2
        D = self.fs * Hb
        if self.pn:
            k = 1
            while (self.pn * self.hd * D * k) % self.pd or (self.pn * self.hd * D * k // self.pd) % 2:
                k += 1
            D *= k
        return D

    def den(self, D):
        d = self.d * self.loc_h(D) ** self.deg
        return d ** self.inn if self.comb == "prod" else d

    def grid(self, D, lo=-1.0, hi=1.0):
        """random numerator with lo <= x/half <= hi"""
        a, b = math.ceil(lo * self.half * D), math.floor(hi * self.half * D)
        return self.h.rng.randint(a, b)

    def edges(self, D):
        """numerators exactly on segment edges, when representable"""
        out = []
        for j in range(self.s + 1):
            num = (2 * j - self.s) * self.hn * D
            if num % (self.s * self.hd) == 0:
                out.append(num // (self.s * self.hd))
        return out

    # -- observation ---------------------------------------------------------
    def bounds(self, X, D):
        """[batch, out] (size of value, rounding error)"""
        x = np.array(X, dtype=float) / D
        V, S, E, sl, leb = pp.link_info(self.W, self.kind, self.n, self.s, self.half, self.period, x)
        E = E + self.werr * leb
        if self.comb == "sum":
            size = S.sum(-1)
            return size.T, (E.sum(-1) + pp.EPS * 2 * self.inn * size).T
        if getattr(self, "const", False):
            # the same constant in every segment: the factors are known
            F = np.abs(1 + V) + E + pp.EPS * 8 * (1 + S)
            P = np.prod(F, axis=-1)
            rel = ((E + pp.EPS * 8 * (1 + S)) / F).sum(-1)
            return (P + 1).T, np.maximum(rel * P * 1.05, 1e-6).T
        P = np.prod(1 + S, axis=-1)
        err = (E / (1 + S)).sum(-1) * P + pp.EPS * 4 * self.inn * P
        return (P + 1).T, err.T

    def scale(self, X, D, fine=2.0 ** 22, den=None):
        """(sc, tol, rows kept): integer scale and tolerance of an observation"""
        size, err = self.bounds(X, D)
        den = self.den(D) if den is None else den
        top = 2 ** 30 // max(self.s, self.fs) - D * self.hn      # positions the specification can place
        keep = [b for b in range(len(X)) if err[b].max() < 0.004 and size[b].max() * den < 2 ** 29.5
                and max(abs(v) for v in X[b]) * self.hd < top]
        if not keep:
            return None
        size, err = size[keep].max(), err[keep].max()
        M = int(max(1, min(2.0 ** 29.5 / (max(size, 1.0) * den), fine / den)))
        sc = den * M
        return sc, int(math.ceil(err * sc)) + 1, keep

    def fwd(self, X, D, kind="fwd", x=None, extra=None, layout=True):
        h = self.h
        r = self.scale(X, D)
        if r is None:
            return False
        sc, tol, keep = r
        X = [X[b] for b in keep]
        long = None
        if h.rng.random() < 0.02:
            # the same rows many times over, some of them looked at
            size = h.rng.choice([130, 300, 520, 1030, 2050])
            long = [h.rng.randrange(len(X)) for _ in range(size)]
            at = sorted(set([0, size - 1] + [h.rng.randrange(size) for _ in range(10)]))
            Z, X = [X[b] for b in long], [X[long[b]] for b in at]
        x = torch.tensor(np.array(Z if long else X, dtype=float) / D * self.ux, dtype=torch.float32)
        if layout:
            x = layouts(h.rng, x)
        obj = self.obj
        if h.rng.random() < 0.25:
            def run():
                with torch.no_grad():
                    return ask(h.rng, obj, x)
        else:
            run = lambda: ask(h.rng, obj, x)
        y = h.lib("forward", run, id=self.id)
        if long:
            h.fact(len(y) == len(long), "one output per sample")
            y = y[at] if len(y) == len(long) else y
        h.ev(kind, id=self.id, X=X, D=D, Y=to_int(listof(y / self.u), sc), sc=sc, tol=tol, **(extra or {}))
        return True
