"""Driver for Conv.tla: convolutions (C09, C02/C04 parts) and their networks (C20)."""
import math

import numpy as np
import torch
from torch import nn

import pp
from core import Abort, listof, to_int
from lay import ask, HALVES, Layer, layouts, num

NAME = {"poly": "polynomial", "cont": "continuous", "disc": "discontinuous"}


def images(h, t):
    """another memory layout of the same batch of images"""
    r = h.rng
    m = r.randrange(5)
    if m == 1:
        return t.transpose(1, -1).contiguous().transpose(1, -1)
    if m == 2:
        big = torch.full((t.shape[0] * 2,) + tuple(t.shape[1:]), 5.5)
        big[1::2] = t
        return big[1::2]
    if m == 3:
        big = torch.full(tuple(t.shape[:-1]) + (t.shape[-1] + 2,), -2.5)
        big[..., 1:-1] = t
        return big[..., 1:-1]
    return t.clone()


class ConvL(Layer):
    def __init__(self, h, kind, n, s, cin, cout, dim=2, k=(1, 1), st=(1, 1), pad=(0, 0), dil=(1, 1), op=(0, 0), g=1,
                 tr=False, rs=False, half=(1, 1), per=None, obj=None, pm="zeros", units=False):
        from high_order_layers_torch.layers import (high_order_convolution_layers,
                                                    high_order_convolution_transpose_layers)

        self.h, self.kind, self.comb, self.n = h, kind, "sum", n
        self.s = 1 if kind == "poly" else s
        self.cin, self.cout, self.dim, self.g, self.tr, self.rs = cin, cout, dim, g, tr, rs
        if dim == 1:
            k, st, pad, dil, op = ((a, q[1]) for a, q in zip((1, 1, 0, 1, 0), (k, st, pad, dil, op)))
        self.k, self.st, self.pad, self.dil, self.op = (tuple(q) for q in (k, st, pad, dil, op))
        self.pm = pm
        self.inn, self.out = cin // g * self.k[0] * self.k[1], cout
        self.hn, self.hd = half
        self.half = half[0] / half[1]
        self.pn, self.pd = per if per else (0, 1)
        self.period = self.pn / self.pd if self.pn else None
        # other units for lengths and values, as in Layer
        r = h.rng
        self.units = units and obj is None
        self.ux = 2.0 ** r.randint(-8, 8) if self.units and r.random() < 0.3 else 1.0
        self.u, self.uy = 1.0, None
        self.K = {"poly": n, "cont": (n - 1) * self.s + 1, "disc": n * self.s}[kind]
        Layer.count += 1
        self.id = Layer.count
        if obj is None:
            pick = lambda q: q[1] if q[0] == q[1] or dim == 1 else tuple(q)
            kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=self.k[1])
            if kind != "poly":
                kw["segments"] = s
            for name, q, dflt in (("stride", self.st, (1, 1)), ("padding", self.pad, (0, 0)),
                                  ("dilation", self.dil, (1, 1)), ("output_padding", self.op, (0, 0))):
                v = pick(q)
                if v != dflt[1] or (r.random() < 0.3 and name != "output_padding"):
                    kw[name] = v
            if g != 1:
                kw["groups"] = g
            if rs or r.random() < 0.2:
                kw["rescale_output"] = rs
            if half != (1, 1) or self.ux != 1 or r.random() < 0.3:
                kw["length"] = num(r, 2 * self.half * self.ux)
            if self.period is not None:
                kw["periodicity"] = num(r, self.period * self.ux)
            if pm != "zeros" or r.random() < 0.1:
                kw["padding_mode"] = pm
            f = high_order_convolution_transpose_layers if tr else high_order_convolution_layers
            obj = h.lib("construct", lambda: f(NAME[kind] + f"{dim}d", **kw), id=self.id)
        self.obj = obj
        h.ev("conv", id=self.id, kind=kind, n=n, s=self.s, cin=cin, cout=cout, dim=dim, k=list(self.k),
             st=list(self.st), pad=list(self.pad), dil=list(self.dil), op=list(self.op), g=g, tr=tr, rs=rs, pm=pm,
             hn=self.hn, hd=self.hd, pn=self.pn, pd=self.pd, w=list(obj.conv.weight.shape))
        h.cover.add(f"{'tr' if tr else 'conv'}{dim} {kind} n={n} s={self.s} k={self.k[1]} st={self.st[1]} "
                    f"pad={self.pad[1]} dil={self.dil[1]} g={g} rs={rs} {pm}")
        self.f = None
        self.werr = 0.0

    def pack(self, W):
        """weights per link [o][q][K] in the layout of the kernel"""
        kh, kw = self.k
        cg = self.cin // self.g
        A = W.reshape(self.cout, cg, kh, kw, self.K).transpose(0, 1, 4, 2, 3)  # o c K kh kw
        if self.tr:
            og = self.cout // self.g
            w = np.zeros((self.cin, self.K, og, kh, kw))
            for grp in range(self.g):
                w[grp * cg:(grp + 1) * cg] = A[grp * og:(grp + 1) * og].transpose(1, 2, 0, 3, 4)
            w = w.reshape(self.cin * self.K, og, kh, kw)
        else:
            w = A.reshape(self.cout, cg * self.K, kh, kw)
        return w[:, :, 0] if self.dim == 1 else w

    def unpack(self, w):
        """the inverse of pack, as an index: [o][q][K] of the flat kernel"""
        idx = np.arange(self.out * self.inn * self.K, dtype=float).reshape(self.out, self.inn, self.K)
        at = self.pack(idx).astype(int).ravel()
        out = np.zeros(at.size)
        out[at] = np.asarray(w, dtype=float).ravel()
        return out.reshape(self.out, self.inn, self.K)

    def set(self, f, d=1, how=None):
        self.new_unit()
        self.f, self.d = f, d
        self.deg = pp.layer_deg(f)
        self.fs = len(f[0][0])
        self.W = pp.all_weights(f, d, self.kind, self.n, self.s)
        w = torch.tensor(np.ascontiguousarray(self.pack(self.W)) * self.u, dtype=torch.float32).contiguous()
        p = self.obj.conv.weight
        how = self.h.rng.randrange(4) if how is None else how

        def put():
            if how == 0:
                with torch.no_grad():
                    p.copy_(w)
            elif how == 1:
                p.data = w.clone()
            else:
                sd = self.obj.state_dict()
                self.obj.load_state_dict({q: (w.clone() if q == "conv.weight" else v) for q, v in sd.items()},
                                         assign=how == 3)

        if tuple(w.shape) == tuple(p.shape):
            self.h.lib("set weights", put, id=self.id)
        self.h.ev("set", id=self.id, f=f, d=d)

    def extent(self, a, size):
        if self.tr:
            return (size - 1) * self.st[a] - 2 * self.pad[a] + self.dil[a] * (self.k[a] - 1) + self.op[a] + 1
        return (size + 2 * self.pad[a] - self.dil[a] * (self.k[a] - 1) - 1) // self.st[a] + 1

    def window(self):
        return self.inn if self.rs else 1

    def cden(self, D):
        return self.d * self.loc_h(D) ** self.deg * self.window()

    def coarse(self, x):
        """(size, err) of one output, coarse; x: array of input values"""
        x = np.asarray(x, dtype=float).reshape(-1, 1)
        W = self.W.reshape(-1, 1, self.K)
        V, S, E, sl, leb = pp.link_info(W, self.kind, self.n, self.s, self.half, self.period, x)
        T = self.inn
        return S.max() * T / self.window(), (E.max() * T + pp.EPS * 2 * T * S.max() * T) / self.window(), sl.max()

    def cfwd(self, X, D):
        """X: nested lists of numerators [b][c][h][w]"""
        h = self.h
        size, err, _ = self.coarse(np.array(X, dtype=float) / D)
        den = self.cden(D)
        if err > 0.004 or size * self.window() * den > 2 ** 29.5:
            return False
        M = int(max(1, min(2.0 ** 29.5 / (max(size, 1.0) * den), 2.0 ** 22 / den)))
        sc = den * M
        tol = int(math.ceil(err * sc)) + 1
        if tol > 2 and 50 * tol > sc:
            return False
        x = images(h, self.tensor(X, D))
        y = self.as_image(h.lib("forward", lambda: ask(h.rng, self.obj, x), id=self.id))
        h.ev("cfwd", id=self.id, X=X, D=D, Y=to_int(listof(y / self.u), sc), sc=sc, tol=tol)
        return True

    def tensor(self, X, D):
        x = torch.tensor(np.array(X, dtype=float) / D * self.ux, dtype=torch.float32)
        return x[:, :, 0] if self.dim == 1 else x

    def as_image(self, y):
        return y.unsqueeze(2) if self.dim == 1 and y.dim() == 3 else y

    def slope(self, x):
        """largest sum of terms of a link's slope and rounding error of it, coarse"""
        x = pp.fold(np.asarray(x, dtype=float).reshape(-1, 1), self.period)
        k, t = pp.seg_t(x, self.half, self.s)
        st = {"poly": 0, "cont": self.n - 1, "disc": self.n}[self.kind]
        idx = (k * st)[..., None] + np.arange(self.n)
        w = np.abs(self.W.reshape(-1, 1, self.K)[:, np.zeros((1, 1, 1), int), idx])
        f = self.s / self.half
        A = np.einsum("bin,obin->obi", pp.basis_dabs(self.n, t), w) * f
        hh = 1e-3
        A2 = np.einsum("bin,obin->obi", np.abs(pp.basis_dabs(self.n, t + hh) - pp.basis_dabs(self.n, t - hh)) / (2 * hh), w) * f
        dx = (1 + np.abs(x) / self.half + (4 * self.period / self.half if self.pn else 0))[None] * (4 * self.s + 4)
        return float(A.max()), float((pp.EPS * (4 * (self.n + 4) * A + A2 * dx * 3)).max())

    def grads(self, X, D):
        """gradients of a random combination of the outputs"""
        h, r = self.h, self.h.rng
        H, W = self.extent(0, len(X[0][0])), self.extent(1, len(X[0][0][0]))
        if H < 1 or W < 1 or H * W * len(X) * self.cout * self.inn > 4000:
            return
        cot = [[[[r.choice([0, 0, 1, -1, 2, -3]) for _ in range(W)] for _ in range(H)] for _ in range(self.cout)] for _ in X]
        x = images(h, self.tensor(X, D)).requires_grad_(True)
        obj = self.obj

        def run():
            obj.zero_grad()
            y = self.as_image(obj(x))
            c = torch.tensor(cot, dtype=torch.float32)
            if tuple(c.shape) != tuple(y.shape):
                return None
            (y * c).sum().backward()
            return obj.conv.weight.grad.clone(), torch.zeros(x.shape) if x.grad is None else x.grad.clone()

        out = h.lib("backward", run, id=self.id)
        obj.zero_grad()
        if out is None:
            return h.fact(False, "output size of the convolution")
        gw, gx = out
        if tuple(gw.shape) != tuple(obj.conv.weight.shape) or tuple(gx.shape) != tuple(x.shape):
            return h.fact(False, "gradients have the shapes of weights and inputs")
        gx = self.as_image(gx) * (self.ux / self.u)
        G = self.unpack(gw)
        x64 = np.array(X, dtype=float) / D
        reads = float(np.abs(np.array(cot)).sum()) / self.cout + 3
        # weights, tested against a function
        g = [[pp.rand_func(r, self.kind, self.n, self.fs, r.choice([0, 1]), 2) for _ in range(self.inn)] for _ in range(self.out)]
        Wg = pp.all_weights(g, 1, self.kind, self.n, self.s)
        deg = pp.layer_deg(g)
        den = self.loc_h(D) ** deg * self.window()
        V, S, E, sl, leb = pp.link_info(Wg.reshape(-1, 1, self.K), self.kind, self.n, self.s, self.half, self.period,
                                        x64.reshape(-1, 1))
        size, err = S.max() * reads + 1, E.max() * reads + pp.EPS * 4 * reads * S.max() * reads + 1e-6
        if size * den * self.window() < 2 ** 29 and err < 0.01:
            M = max(1, min(int(2 ** 29 / (size * den)), int(2 ** 20 / den)))
            nz = [[int(v) for v in q] for q in np.argwhere(G != 0)]
            h.ev("cgrad", id=self.id, X=X, D=D, cot=cot, g=g, gd=1, Y=to_int((G * Wg).sum(-1).tolist(), den * M), nz=nz,
                 sc=den * M, tol=int(math.ceil(err * den * M)) + 2)
        # inputs
        N = max(self.deg - 1, 0)
        den = self.d * self.loc_h(D) ** N * self.hn * self.window()
        A, e1 = self.slope(x64)
        reads = 3.0 * self.cout * self.k[0] * self.k[1]
        size, err = A * reads + 1, e1 * reads + pp.EPS * 4 * reads * A * reads + 1e-6
        if size * den * self.window() < 2 ** 29 and err < 0.015 and len(X) * self.cin * len(X[0][0]) * len(X[0][0][0]) <= 60:
            M = max(1, min(int(2 ** 29 / (size * den)), int(2 ** 20 / den)))
            h.ev("cxgrad", id=self.id, X=X, D=D, cot=cot, Y=to_int(listof(gx), den * M), sc=den * M,
                 tol=int(math.ceil(err * den * M)) + 2)

    def poke(self, X, D):
        """one weight is moved a lot: outputs that do not read it must not notice"""
        h, r = self.h, self.h.rng
        size, err, _ = self.coarse(np.array(X, dtype=float) / D)
        den = self.cden(D)
        if err > 0.004 or size * self.window() * den > 2 ** 29.5:
            return
        M = int(max(1, min(2.0 ** 29.5 / (max(size, 1.0) * den), 2.0 ** 22 / den)))
        o, q, k = r.randrange(self.cout), r.randrange(self.inn), r.randrange(self.K)
        mark = np.zeros((self.cout, self.inn, self.K))
        mark[o, q, k] = 1
        p = self.obj.conv.weight
        mark = torch.tensor(self.pack(mark), dtype=torch.float32)
        if tuple(mark.shape) != tuple(p.shape):
            return
        old = p.detach().clone()
        x = images(h, self.tensor(X, D))

        def run():
            with torch.no_grad():
                p.add_(mark * (self.u * r.choice([100.0, -37.0, 1e6])))
                y = self.obj(x)
                p.copy_(old)
                return y

        y = self.as_image(h.lib("forward", run, id=self.id))
        h.ev("cpoke", id=self.id, X=X, D=D, o=o, q=q, k=k, Y=to_int(listof(y / self.u), den * M), sc=den * M,
             tol=int(math.ceil(err * den * M)) + 1)


def rand_conv(h, tr=None, dims=(1, 2), kinds=("poly", "cont", "disc"), per=False, maxn=6, plain=False, units=True):
    r = h.rng
    tr = r.random() < 0.25 if tr is None else tr
    dim = 2 if tr else r.choice(dims)
    kind = "cont" if tr else r.choice(kinds)
    n = r.randint(2, maxn)
    s = r.choice([1, 2, 3, 4, 5, 8])
    g = r.choice([1, 1, 1, 2, 3]) if not plain else 1
    cin, cout = g * r.choice([1, 1, 2, 3] if dim == 1 else [1, 1, 2]), g * r.choice([1, 1, 2])
    k = r.choice([1, 2, 3, 4] if dim == 1 else [1, 2, 3])
    big = r.random()
    if big < 0.2:
        # one dimension beyond the usual sizes
        if big < 0.04:
            n, s = r.choice([1, 1, 7, 8, 10]), r.choice([1, 2])
        elif big < 0.08:
            s, n = r.choice([9, 10, 16, 20, 32]), r.choice([2, 3])
        elif big < 0.12:
            cin, cout, k = g * r.choice([4, 5, 8]), g, r.choice([1, 2])
        elif big < 0.16:
            cin, cout, k = g, g * r.choice([4, 5, 8]), r.choice([1, 2])
        else:
            cin, cout, k = g, g, r.choice([4, 5, 7] if dim == 2 else [5, 7, 9])
    pair = lambda lst: (lambda a: (a, a) if r.random() < 0.7 or dim == 1 else (a, r.choice(lst)))(r.choice(lst))
    st = pair([1, 1, 2, 3])
    pad = pair([0, 0, 1, 2])
    dil = pair([1, 1, 2])
    op = (0, 0)
    if tr:
        op = tuple(r.choice([0, q]) if q < max(st[a], dil[a]) else 0 for a, q in enumerate((1, 1)))
        if op[0] != op[1] and r.random() < 0.5:
            op = (min(op), min(op))
    half = r.choice(HALVES)
    pm = "zeros"
    if not tr and max(pad) > 0 and r.random() < 0.35:
        pm = r.choice(["circular", "reflect", "replicate"])
    p = None
    if per and r.random() < 0.9:
        p = r.choice([(2 * half[0], half[1]), (half[0], half[1]), (2 * half[0], half[1])])
    return ConvL(h, kind, n, s, cin, cout, dim=dim, k=(k, k), st=st, pad=pad, dil=dil, op=op, g=g, tr=tr,
                 rs=r.random() < 0.25, half=half, per=p, pm=pm, units=units)


def rand_images(C, D, lo=-1.0, hi=1.0, edgy=0.0, b=None):
    """batch of images; sizes that exercise truncation of the last window"""
    r = C.h.rng
    size = []
    for a in (0, 1):
        if C.dim == 1 and a == 0:
            size.append(1)
            continue
        need = 1 if C.tr else max(1, C.dil[a] * (C.k[a] - 1) + 1 - 2 * C.pad[a])
        if C.pm != "zeros":     # no more padding than there are values to fill it with
            need = max(need, C.pad[a] + 1)
        size.append(need + r.choice([0, 1, 2, 3] if C.dim == 2 else [0, 1, 2, 4, 7]))
    if r.random() < 0.06 and C.inn * C.out <= 8:      # a long axis
        a = r.choice([0, 1]) if C.dim == 2 else 1
        size[a] += r.choice([14, 25, 33] if C.dim == 1 else [10, 17])
        b = b or 1
    if C.tr:
        for a in (0, 1):
            while C.extent(a, size[a]) < 1:
                size[a] += 1
    e = C.edges(D)
    # a discontinuous layer may take either value on an edge: few of those
    amb = 3 if C.kind == "disc" else 10 ** 6

    def px():
        nonlocal amb
        if e and amb > 0 and r.random() < edgy:
            amb -= 1
            v = r.choice(e)
            if C.kind == "cont" and r.random() < 0.5:
                v += r.choice([-1, 1])
            return v
        for _ in range(20):
            v = C.grid(D, lo, hi)
            if C.kind != "disc" or v not in e:
                return v
        return v

    return [[[[px() for _ in range(size[1])] for _ in range(size[0])] for _ in range(C.cin)]
            for _ in range(b or r.choice([1, 2, 2, 5]))]


def pick_cD(C, cap=128, tmax=1.0):
    """as pick_D, with room for the window"""
    return C.pick_D(tmax=tmax, cap=cap, limit=2.0 ** 27 / C.window())


def look_conv(C, edgy=0.1, far=True):
    r = C.h.rng
    D = pick_cD(C, r.choice([8, 32, 128]))
    C.cfwd(rand_images(C, D, edgy=edgy), D)
    if far and r.random() < 0.4 and not C.pn:
        D = pick_cD(C, 16, tmax=1 + 0.4 * C.s)
        C.cfwd(rand_images(C, D, -1.4, 1.4, b=1), D)


def c09(h):
    if h.rng.random() < 0.15:
        return c04_conv(h, plain=False)
    C = rand_conv(h)
    for _ in range(h.rng.choice([1, 1, 2])):
        C.set(C.rand_f(deg=h.rng.choice([None, 1, 2]), cmax=h.rng.choice([1, 3])), h.rng.choice([1, 2]))
        look_conv(C)


def c02_conv(h):
    """pixels on, just left of and just right of the edges of a continuous convolution"""
    C = rand_conv(h, kinds=("cont", "cont", "disc"), plain=True)
    C.set(C.rand_f(deg=h.rng.choice([None, 1, 2]), cmax=3), 1)
    D = pick_cD(C, h.rng.choice([16, 64, 128]))
    C.cfwd(rand_images(C, D, edgy=0.8), D)


def c04_conv(h, plain=True):
    C = rand_conv(h, per=True, plain=plain, maxn=4)
    r = h.rng
    C.set(C.rand_f(deg=r.choice([None, 1, 2]), cmax=2), 1)
    D = pick_cD(C, r.choice([4, 16, 64]))
    reach = r.choice([1.0, 2.0, 4.0, 9.0, 70.0])
    X = rand_images(C, D, -reach, reach)
    if C.kind == "disc":
        # keep every folded pixel off the edges
        P = C.pn * C.hd * D // C.pd if C.pn else 0
        U = D * C.hn

        def ok(v):
            x = v * C.hd
            if P:
                m = (x + P // 2) % (2 * P)
                x = (2 * P - m if m > P else m) - P // 2
            return not (-U < x < U and (C.s * (x + U)) % (2 * U) == 0)

        def fixv(v):
            for _ in range(50):
                if ok(v):
                    return v
                v += 1
            return v

        X = [[[[fixv(v) for v in row] for row in ch] for ch in img] for img in X]
    C.cfwd(X, D)


def c03_conv(h):
    """gradients of a convolution; pixels off the edges"""
    r = h.rng
    C = rand_conv(h, kinds=("poly", "cont", "disc"), maxn=5, per=r.random() < 0.3)
    C.set(C.rand_f(deg=r.choice([None, 1, 2]), cmax=2), r.choice([1, 2]))
    for _ in range(2):
        D = pick_cD(C, r.choice([8, 16, 32]))
        reach = 1.2 if not C.pn else r.choice([1.0, 2.0, 4.0])
        D = pick_cD(C, 16, tmax=1 + 0.2 * C.s) if reach == 1.2 else D
        X = rand_images(C, D, -reach, reach, b=r.choice([1, 1, 2]))
        X, ok = off_edges(C, X, D)
        if not ok:
            return
        if r.random() < 0.65:
            C.grads(X, D)
        else:
            C.poke(X, D)
    C.cfwd(X, D)


def off_edges(C, X, D):
    from fc import folded

    U, good = D * C.hn, True

    def fix(v):
        nonlocal good
        for _ in range(60):
            x = folded(C, v, D)
            if x is not None and not (-U < x < U and (C.s * (x + U)) % (2 * U) == 0):
                return v
            v += 1
        good = False
        return v

    X = [[[[fix(v) for v in row] for row in ch] for ch in img] for img in X]
    return X, good
