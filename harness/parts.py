"""C13 normalisations, C16 tensor-product layers, C17 Fourier/embeddings, C18 rotations."""
import itertools
import math

import numpy as np
import torch
from torch import nn

import pp
from core import Abort, listof, to_int
from lay import ask, crowd, HALVES, layouts
from conv import ConvL, images


def flat(t):
    try:
        return t.detach().reshape(-1).tolist()
    except Exception:
        return []


def shape_of(t):
    try:
        return list(t.shape)
    except Exception:
        return []


# ---------------------------------------------------------------------------
# C13
def norm_of(r, fn, x, ax):
    y = crowd(r, fn, x) if ax != 0 else None
    return fn(x) if y is None else y


def normaliser(h, mult=1.0):
    """(name, kind, axis(rank), callable, eps or None); eps is given in units of mult"""
    import high_order_layers_torch.layers as L
    import high_order_layers_torch.utils as U

    r = h.rng
    eps = r.choice([None, None, None, (1, 2), (1, 4), (3, 1), (1, 16), (0, 1)])
    e = None if eps is None else eps[0] / eps[1] * mult
    kw = {} if e is None else {"eps": e}
    pick = r.randrange(17)
    first = lambda rank: 1
    last = lambda rank: rank - 1
    whole = lambda rank: -1
    if pick == 0:
        return "max_abs", first, (2, 3, 4, 5), lambda x: U.max_abs_normalization(x, **kw), eps
    if pick == 1:
        d = r.choice([0, 1, 2])
        return "max_abs", lambda rank: d, (3, 4, 5), lambda x: U.max_abs_normalization(x, dim=d, **kw), eps
    if pick == 2:
        return "max_abs", last, (1, 2, 3, 4, 5), lambda x: U.max_abs_normalization_last(x, **kw), eps
    if pick == 3:
        return "max_center", first, (2, 3, 4, 5), lambda x: U.max_center_normalization(x, **kw), eps
    if pick == 4:
        d = r.choice([0, 1, 2])
        return "max_center", lambda rank: d, (3, 4, 5), lambda x: U.max_center_normalization(x, dim=d, **kw), eps
    if pick == 5:
        return "max_center", last, (1, 2, 3, 4, 5), lambda x: U.max_center_normalization_last(x, **kw), eps
    if pick == 6:
        return "max_center", whole, (2, 3, 4, 5), lambda x: U.max_center_normalization_nd(x, **kw), eps
    if pick == 7:
        return "l2", first, (2, 3, 4, 5), lambda x: U.l2_normalization(x, **kw), eps
    if pick == 8:
        return "max_abs", whole, (2, 3, 4, 5), lambda x: U.max_abs_normalization_nd(x, **kw), eps
    mods = {9: ("max_abs", first, (2, 3, 4, 5), "MaxAbsNormalization"),
            10: ("max_abs", last, (1, 2, 3, 4, 5), "MaxAbsNormalizationLast"),
            11: ("max_center", first, (2, 3, 4, 5), "MaxCenterNormalization"),
            12: ("max_center", last, (1, 2, 3, 4, 5), "MaxCenterNormalizationLast"),
            13: ("max_center", whole, (2, 3, 4, 5), "MaxCenterNormalizationND"),
            14: ("max_abs", whole, (2, 3, 4, 5), "MaxAbsNormalizationND"),
            15: ("l2", first, (2, 3, 4, 5), "L2Normalization")}
    if pick in mods:
        kind, ax, ranks, name = mods[pick]
        if name == "MaxAbsNormalization" and r.random() < 0.3:
            d = r.choice([0, 1, 2])
            m = h.lib("construct", lambda: L.MaxAbsNormalization(dim=d, **kw))
            return kind, (lambda rank: d), (3, 4, 5), m, eps
        reg = {"MaxAbsNormalization": "max_abs", "MaxCenterNormalization": "max_center", "L2Normalization": "l2"}
        if name in reg and r.random() < 0.3:
            key = reg[name]
            if key in U.norm_type and r.random() < 0.5:
                f = h.lib("registry", lambda: U.norm_type[key])
                return kind, ax, ranks, lambda x: f(x, **kw), eps
            m = h.lib("registry", lambda: L.normalization_layers[key](**kw))
        else:
            m = h.lib("construct", lambda: getattr(L, name)(**kw))
        return kind, ax, ranks, m, eps
    m = h.lib("registry", lambda: L.normalization_layers["layer_norm"](**({} if r.random() < 0.5 else
                                                                         {"bias": r.random() < 0.5})))
    return "layer_norm", last, (2, 3, 4, 5), m, None


def c13(h):
    r = h.rng
    unit = 2.0 ** r.choice([0, 0, 0, r.randint(-24, 24)])
    kind, axis, ranks, fn, eps = normaliser(h, unit)
    if eps == (0, 1):
        unit = 2.0 ** r.choice([-24, -20, -12, 0, 20])
    fixed = r.randint(2, 5)
    for _ in range(r.choice([1, 2])):
        rank = r.choice(ranks)
        shape = [r.choice([1, 2, 3, 4]) for _ in range(rank)]
        if rank == 5:
            shape = [min(v, 2) for v in shape]
        if r.random() < 0.15:
            shape[r.randrange(rank)] = r.choice([6, 9, 17])
        if math.prod(shape) > 200:
            continue
        if kind == "layer_norm":
            shape[-1] = fixed
        ax = axis(rank)
        num = math.prod(shape)
        big = r.choice([3, 12, 60])
        X = [r.randint(-big, big) for _ in range(num)]
        special = r.random()
        if special < 0.15:
            X = [0] * num
        elif special < 0.3:
            X = [r.randint(-big, big)] * num
        elif special < 0.4:
            X = [abs(v) + 1 for v in X]
        elif special < 0.5:
            X = [-abs(v) - 1 for v in X]
        elif special < 0.6:
            # one sample much larger than the others
            per = num // shape[0]
            b = r.randrange(shape[0])
            X = [v * (20 if p // per == b else 1) for p, v in enumerate(X)]
        if eps == (0, 1):       # defined where nothing vanishes
            if kind == "max_center":
                break
            X = [v or 1 for v in X]
        D = r.choice([1, 2, 8])
        mult = 1.0
        if eps is not None:
            mult = unit
        elif kind != "layer_norm":
            mult = r.choice([1.0, 1.0, 2.0 ** -3, 2.0 ** 10, 2.0 ** 20, 2.0 ** 30])
            if mult != 1.0:
                D = 1
        x = (torch.tensor(X, dtype=torch.float32) / D * mult).reshape(shape)
        x = layouts(r, x) if rank >= 2 else x
        k = 18
        y = h.lib("normalise", lambda: norm_of(r, fn, x, ax))
        en, ed = eps if eps else (0, 1)
        h.cover.add(f"{kind} axis={ax} rank={rank} eps={eps}")
        h.ev("norm", kind=kind, axis=ax, shape=shape, yshape=shape_of(y), X=X, D=D, en=en, ed=ed, k=k,
             tol=96 if kind == "layer_norm" else 24,
             Y=to_int(flat(y), 2.0 ** k, 1 << 27))


# ---------------------------------------------------------------------------
# C16
class TLayer:
    count = 0

    def __init__(self, h):
        from high_order_layers_torch.layers import high_order_fc_layers
        import high_order_layers_torch.PolynomialLayers as P

        r = h.rng
        self.h = h
        self.seg = r.random() < 0.6
        self.dim = dim = r.choice([1, 2, 2, 2, 3, 3, 4] if self.seg else [2, 2, 2, 3, 3, 4, 5])
        nmax = {1: 5, 2: 5, 3: 3, 4: 2, 5: 2}[dim]
        if r.random() < 0.15:
            nmax = {1: 9, 2: 7, 3: 4, 4: 3, 5: 3}[dim]
        same = r.random() < 0.4
        self.n = [r.randint(2 if nmax == 2 else 1 if r.random() < 0.1 else 2, nmax)] * dim if same else \
            [r.randint(2, nmax) for _ in range(dim)]
        self.inn, self.out = r.choice([1, 1, 2, 3, 5]), r.choice([1, 1, 2, 3, 6])
        self.hn, self.hd = r.choice(HALVES)
        self.half = self.hn / self.hd
        # built and used in units of ux (lengths) and u (values), see Layer
        self.ux = 2.0 ** r.randint(-8, 8) if r.random() < 0.3 else 1.0
        self.u = 1.0
        self.s = [1] * dim
        self.pn, self.pd = 0, 1
        kw = dict(in_features=self.inn, out_features=self.out)
        if (self.hn, self.hd) != (1, 1) or self.ux != 1 or r.random() < 0.3:
            kw["length"] = 2 * self.half * self.ux
        self.n_arg = self.n[0] if same and r.random() < 0.6 else list(self.n)
        if self.seg:
            smax = {1: 5, 2: 4, 3: 3, 4: 2}[dim]
            sames = r.random() < 0.3
            self.s = [r.randint(1, smax)] * dim if sames else [r.randint(1, smax) for _ in range(dim)]
            sa = self.s[0] if sames and r.random() < 0.6 else list(self.s)
            if isinstance(self.n_arg, int) or r.random() < 0.3:
                kw["dimensions"] = dim
            kw.update(n=self.n_arg, segments=sa)
            mk = r.choice([lambda: high_order_fc_layers("continuous_nd", **kw), lambda: P.PiecewiseND(**kw)])
        else:
            kw["n"] = self.n_arg
            if r.random() < 0.3:
                self.pn, self.pd = r.choice([(2 * self.hn, self.hd), (self.hn, self.hd), (3 * self.hn, self.hd)])
                kw["periodicity"] = self.pn / self.pd * self.ux
            mk = r.choice([lambda: high_order_fc_layers(f"polynomial_{dim}d", **kw),
                           lambda: getattr(P, f"Polynomial{dim}D")(**kw),
                           lambda: P.PolynomialND(dimensions=dim, **kw)])
        TLayer.count += 1
        self.id = TLayer.count
        self.obj = h.lib("construct", mk)
        self.nb = math.prod(self.n)
        self.blocks = math.prod(self.s)
        want = [self.inn, self.out, self.blocks * self.nb] if self.seg else [self.out, self.inn, self.nb]
        h.ev("tnew", id=self.id, w=list(self.obj.w.shape), want=want)
        if list(self.obj.w.shape) != want:
            raise Abort()
        h.cover.add(f"dim={dim} seg={self.seg} n={self.n} s={self.s} in={self.inn} out={self.out} per={self.pn > 0}")

    def rand_f(self):
        r = self.h.rng
        lim = r.choice([1, 2, 9])

        def block():
            ts = {}
            for _ in range(r.choice([1, 2, 3])):
                e = tuple(r.randint(0, min(n - 1, lim)) for n in self.n)
                ts[e] = r.choice([-3, -2, -1, 1, 2, 3])
            return [{"c": c, "e": list(e)} for e, c in ts.items()]

        return [[[block() for _ in range(self.blocks)] for _ in range(self.inn)] for _ in range(self.out)]

    def set(self, f, d=1):
        self.f, self.d = f, d
        self.deg = [max(t["e"][k] for fo in f for fi in fo for b in fi for t in b) for k in range(self.dim)]
        grid = list(itertools.product(*[pp.nodes(n) for n in self.n]))
        W = np.zeros((self.out, self.inn, self.blocks, self.nb))
        self.size = 0.0
        for o in range(self.out):
            for i in range(self.inn):
                for b in range(self.blocks):
                    ts = f[o][i][b]
                    W[o, i, b] = [sum(t["c"] * math.prod(x ** e for x, e in zip(g, t["e"])) for t in ts) / d
                                  for g in grid]
                    self.size = max(self.size, sum(abs(t["c"]) for t in ts) / d)
        W = W.reshape(self.out, self.inn, -1)
        self.u = 2.0 ** self.h.rng.randint(-14, 14) if self.h.rng.random() < 0.4 else 1.0
        w = torch.tensor(W * self.u, dtype=torch.float32)
        if self.seg:
            w = w.transpose(0, 1).contiguous()
        with torch.no_grad():
            self.obj.w.copy_(w)
        self.wmax = float(np.abs(W).max())
        self.h.ev("tset", id=self.id, L={"t": "tensor", "dim": self.dim, "s": self.s, "in": self.inn, "out": self.out,
                                         "hn": self.hn, "hd": self.hd, "pn": self.pn, "pd": self.pd}, f=f, d=d)

    def look(self, reach=1.0, edgy=False):
        h, r = self.h, self.h.rng
        tot = sum(self.deg)
        tm = [1 + (reach - 1) * s for s in self.s] if not self.pn else [1.0] * self.dim
        grow = math.prod(t ** g for t, g in zip(tm, self.deg))
        Hb = 64
        lim = 2.0 ** 27
        while Hb > 1 and self.size * self.d * grow * self.inn * float(Hb * self.hn) ** tot > lim:
            Hb //= 2
        D = Hb * math.lcm(*self.s)
        if self.pn:
            k = 1
            while (self.pn * self.hd * D * k) % self.pd or (self.pn * self.hd * D * k // self.pd) % 2:
                k += 1
            D *= k
        U = D * self.hn
        H = [U // s if U % s == 0 else U for s in self.s]
        den = self.d * math.prod(a ** g for a, g in zip(H, self.deg))
        size = self.size * grow * self.inn
        if size * den > 2 ** 29:
            return
        M = int(max(1, min(2.0 ** 29.3 / (max(size, 1) * den), 2.0 ** 22 / den)))
        sc = den * M
        # rounding: Lebesgue constants and slopes of the basis
        leb = 1.0
        slope = 0.0
        for n, t, s in zip(self.n, tm, self.s):
            pts = np.linspace(-t, t, 41)
            leb *= pp.basis_abs(n, pts).sum(-1).max()
            slope += s * pp.basis_dabs(n, pts).sum(-1).max()
        far = 4 * (1 + reach * (9 if self.pn else 1)) * max(self.s)
        err = pp.EPS * self.inn * self.wmax * leb * (6 * (sum(self.n) + 6) + self.nb) + \
            pp.EPS * far * self.inn * self.size * grow * max(1, max(self.deg)) ** 2 * self.dim * 2
        if err > 0.004:
            return
        tol = int(math.ceil(err * sc)) + 1
        if 50 * tol > sc and tol > 2:
            return
        edges = [[j for j in range(-U // self.hd, U // self.hd + 1) if -U < j * self.hd < U and
                  (s * (j * self.hd + U)) % (2 * U) == 0] for s in self.s]
        amb = 2

        def coord(k):
            nonlocal amb
            if edgy and edges[k] and amb and r.random() < 0.2:
                amb -= 1
                return r.choice(edges[k])
            rr = reach * (r.choice([1, 1, 3, 7]) if self.pn else 1)
            for _ in range(30):
                v = r.randint(math.ceil(-rr * self.half * D), math.floor(rr * self.half * D))
                if v not in edges[k]:
                    return v
            return v

        X = []
        for _ in range(r.choice([1, 2, 4, 9])):
            amb = 2
            X.append([[coord(k) for k in range(self.dim)] for _ in range(self.inn)])
        x = torch.tensor(np.array(X, dtype=float) / D * self.ux, dtype=torch.float32)
        x = layouts(r, x)
        y = h.lib("forward", lambda: ask(r, self.obj, x))
        h.ev("tfwd", id=self.id, X=X, D=D, Y=to_int(listof(y / self.u), sc), sc=sc, tol=tol)


def c16(h):
    r = h.rng
    T = TLayer(h)
    for _ in range(r.choice([1, 2])):
        T.set(T.rand_f(), r.choice([1, 2]))
        T.look(edgy=True)
        T.look(reach=r.choice([1.0, 1.25, 1.5]))


# ---------------------------------------------------------------------------
# C17
def c17_fc(h):
    from high_order_layers_torch.layers import high_order_fc_layers
    import high_order_layers_torch.PolynomialLayers as P
    import high_order_layers_torch.positional_embeddings as E

    r = h.rng
    n, inn, out = r.randint(1, 9), r.choice([1, 1, 2, 3]), r.choice([1, 2, 3])
    if r.random() < 0.2:
        n, inn, out = r.choice([(12, 1, 1), (17, 1, 2), (24, 1, 1), (3, 7, 2), (2, 3, 8), (4, 12, 1)])
    length = r.choice([1.0, 2.0, 2.0, 3.0, 0.5, 4.0, 7.0, 0.03125, 96.0, 1024.0])
    kw = dict(n=n, in_features=inn, out_features=out)
    if length != 2.0 or r.random() < 0.5:
        kw["length"] = length
    mk = r.choice([lambda: high_order_fc_layers("fourier", **kw), lambda: P.FourierSeries(**kw),
                   lambda: E.FourierSeriesEmbedding(**kw)])
    obj = h.lib("construct", mk)
    h.fact(list(obj.w.shape) == [out, inn, n], "a Fourier layer has one weight per link and component")
    if list(obj.w.shape) != [out, inn, n]:
        return
    for _ in range(r.choice([1, 2])):
        reach = r.choice([1, 1, 3, 10, 40])
        wm = 4 if reach < 10 else 1
        w = [[[r.randint(-wm, wm) for _ in range(n)] for _ in range(inn)] for _ in range(out)]
        u = 2.0 ** r.randint(-14, 14) if r.random() < 0.4 else 1.0
        with torch.no_grad():
            obj.w.copy_(torch.tensor(w, dtype=torch.float32) * u)
        M = r.choice([720, 24, 90, 16, 45, 8])
        X = [[r.randint(-reach * M, reach * M) for _ in range(inn)] for _ in range(r.choice([1, 3, 5]))]
        if r.random() < 0.3 and len(X) > 1:
            X[1] = [v + M for v in X[0]]       # one period on
        x = layouts(r, torch.tensor(np.array(X) * length / M, dtype=torch.float32))
        y = h.lib("forward", lambda: ask(r, obj, x))
        size = max(sum(abs(v) for i in o for v in i) for o in w) + 1
        tol = int(size * (2 + 1e6 * 3e-7 * (2 * math.pi * reach * (n + 1) / 2 + 2))) + 4
        if tol > 20000:
            continue
        h.cover.add(f"fc n={n} in={inn} length={length} reach={reach}")
        h.ev("fourier", w=w, X=X, M=M, tol=tol, Y=to_int(listof(y / u), 1e6))


def c17_conv(h):
    from high_order_layers_torch.layers import high_order_convolution_layers

    r = h.rng
    dim = r.choice([1, 2])
    n = r.randint(1, 6)
    g = r.choice([1, 1, 2])
    cin, cout = g * r.choice([1, 2]), g * r.choice([1, 2])
    k = r.choice([1, 2, 3])
    st, pad, dil = r.choice([1, 1, 2]), r.choice([0, 0, 1]), r.choice([1, 1, 2])
    rs = r.random() < 0.3
    length = r.choice([1.0, 2.0, 2.0, 3.0, 0.25, 48.0])
    kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=k)
    for name, v, d in (("stride", st, 1), ("padding", pad, 0), ("dilation", dil, 1), ("groups", g, 1),
                       ("rescale_output", rs, False), ("length", length, 2.0)):
        if v != d or r.random() < 0.2:
            kw[name] = v
    obj = h.lib("construct", lambda: high_order_convolution_layers(f"fourier{dim}d", **kw))
    kh = k if dim == 2 else 1
    p = obj.conv.weight
    cg = cin // g
    want = [cout, cg * n, k, k] if dim == 2 else [cout, cg * n, k]
    h.fact(list(p.shape) == want, "shape of the Fourier convolution's weight")
    if list(p.shape) != want:
        return
    W = np.array([[[[[r.randint(-3, 3) for _ in range(k)] for _ in range(kh)] for _ in range(n)] for _ in range(cg)]
                  for _ in range(cout)])
    t = torch.tensor(W.reshape(cout, cg * n, kh, k), dtype=torch.float32)
    with torch.no_grad():
        p.copy_(t if dim == 2 else t[:, :, 0])
    # [o][q][component], q = (c * kh + a) * k + b
    w = W.transpose(0, 1, 3, 4, 2).reshape(cout, cg * kh * k, n).tolist()
    M = r.choice([720, 24, 45, 8])
    need = max(1, dil * (k - 1) + 1 - 2 * pad)
    hh = 1 if dim == 1 else need + r.choice([0, 1, 2])
    ww = need + r.choice([0, 1, 3])
    X = [[[[r.randint(-M, M) for _ in range(ww)] for _ in range(hh)] for _ in range(cin)] for _ in range(r.choice([1, 2]))]
    x = torch.tensor(np.array(X) * length / M, dtype=torch.float32)
    if dim == 1:
        x = x[:, :, 0]
    x = images(h, x)
    y = h.lib("forward", lambda: ask(r, obj, x))
    if dim == 1 and y.dim() == 3:
        y = y.unsqueeze(2)
    mul = cg * kh * k if rs else 1
    size = np.abs(W).sum() / cout * 2 + 1
    tol = int(size * (2 + 1e6 * 3e-7 * (2 * math.pi * (n + 1) / 2 + 2))) + 4
    if tol > 20000:
        return
    h.cover.add(f"conv{dim} n={n} g={g} k={k} rs={rs}")
    h.ev("fconv", C={"cin": cin, "cout": cout, "g": g, "k": [kh, k], "st": [1 if dim == 1 else st, st],
                     "pad": [0 if dim == 1 else pad, pad], "dil": [1 if dim == 1 else dil, dil], "op": [0, 0], "pm": "zeros",
                     "tr": False, "rs": rs},
         w=w, X=X, M=M, mul=mul, tol=tol, Y=to_int(listof(y), 1e6 * mul))


def c17_embed(h):
    import high_order_layers_torch.positional_embeddings as E

    r = h.rng
    half = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 13]) if r.random() < 0.75 else r.choice([20, 33, 40, 64])
    emb = h.lib("construct", lambda: E.ClassicSinusoidalEmbedding(2 * half))
    far = r.choice([1900, 1900, 20000, 150000])
    X = [r.randint(-far, far) for _ in range(r.choice([1, 3, 6]))]
    if r.random() < 0.3:
        X[0] = 0
    x = torch.tensor([v * math.pi / 360 for v in X], dtype=torch.float32)
    if r.random() < 0.45:
        # any arrangement of the positions: one more axis behind them
        k = r.choice([d for d in range(1, len(X) + 1) if len(X) % d == 0])
        lead = r.choice([[1, len(X)], [k, len(X) // k], [len(X), 1], [k, 1, len(X) // k], [1, k, len(X) // k, 1],
                         [k, len(X) // k, 1]])
        z = x.reshape(lead)
        if r.random() < 0.3 and len(lead) == 2:
            z = z.t().contiguous().t()
        y = h.lib("forward", lambda: emb(z))
        ok = shape_of(y) == lead + [2 * half]
        h.fact(ok, "embedding of an input of several axes")
        if not ok:
            return
        y = y.reshape(len(X), 2 * half)
    else:
        y = h.lib("forward", lambda: emb(x))
    h.cover.add(f"embedding {2 * half}")
    if r.random() < 0.4:
        # positions given as whole numbers
        k = torch.tensor([r.randint(-50, 2000) for _ in range(5)], dtype=r.choice([torch.int64, torch.int32, torch.int16]))
        a, b = h.lib("forward", lambda: (emb(k), emb(k.to(torch.float32))))
        ok = a.shape == b.shape and bool((a.double() - b.double()).abs().max() < 1e-3)
        h.fact(ok, "embedding of integer positions")
    h.ev("embed", half=half, X=X, tol=300 + far // 40, Y=to_int(listof(y), 1e6))
    try:
        E.ClassicSinusoidalEmbedding(2 * half + 1)
        h.fact(False, "an odd embedding dimension is rejected")
    except ValueError:
        h.fact(True, "an odd embedding dimension is rejected")
    except Exception:
        h.fact(False, "an odd embedding dimension is rejected")


def c17(h):
    h.rng.choice([c17_fc, c17_conv, c17_embed])(h)


# ---------------------------------------------------------------------------
# C18
RS = [1, 2, 3, 4, 5, 6, 9, 10, 12]


def c18_rot(h):
    from high_order_layers_torch.layers import fixed_rotation_layer

    r = h.rng
    n, rot = r.randint(1, 5), r.choice(RS if r.random() < 0.5 else [1, 2, 3, 4])
    if n > 3 and rot > 6:
        rot = 3
    if r.random() < 0.12:
        n, rot = r.choice([(6, 2), (7, 2), (8, 2), (6, 3), (9, 1), (2, 15), (2, 18), (2, 20), (2, 30), (3, 15)])
    norm = r.random() < 0.6
    kw = {}
    if rot != 2 or r.random() < 0.5:
        kw["rotations"] = rot
    if not norm or r.random() < 0.5:
        kw["normalize"] = norm
    res = h.lib("construct", lambda: fixed_rotation_layer(n, **kw))
    layer, width = h.lib("unpack", lambda: (res[0], int(res[1])))
    M = h.lib("forward", lambda: layer(torch.eye(n)))
    rows = to_int(listof(M.t()), 2.0 ** 20, 1 << 24)
    h.cover.add(f"n={n} r={rot} norm={norm}")
    h.ev("rot", n=n, r=rot, norm=norm, width=width, M=rows, tol=20)
    D = r.choice([4, 32])
    X = [[r.randint(-D, D) for _ in range(n)] for _ in range(r.choice([1, 3]))]
    y = h.lib("forward", lambda: layer(torch.tensor(np.array(X) / D, dtype=torch.float32)))
    h.ev("rotx", X=X, D=D, M=rows, Y=to_int(listof(y), 2.0 ** 12), tol=4)
    try:
        fixed_rotation_layer(n, rotations=0)
        h.fact(False, "fewer than one rotation is rejected")
    except ValueError:
        h.fact(True, "fewer than one rotation is rejected")
    except Exception:
        h.fact(False, "fewer than one rotation is rejected")


def c18_mesh(h):
    from high_order_layers_torch.utils import positions_from_mesh

    r = h.rng
    w, hh, rot = r.randint(2, 8), r.randint(2, 8), r.choice([1, 2, 3, 4, 5, 6, 9])
    norm = r.random() < 0.5
    if r.random() < 0.15:
        w, hh = r.choice([(16, 3), (2, 18), (12, 12), (20, 5)])
        if norm:
            w, hh = r.choice([(32, 3), (2, 40), (17, 16), (28, 28)])
    kw = dict(width=w, height=hh, device="cpu")
    if rot != 1 or r.random() < 0.5:
        kw["rotations"] = rot
    if norm or r.random() < 0.5:
        kw["normalize"] = norm
    y = h.lib("mesh", lambda: positions_from_mesh(**kw))
    k = 14
    h.cover.add(f"mesh {w}x{hh} r={rot} norm={norm}")
    h.ev("mesh", w=w, h=hh, r=rot, norm=norm, k=k, tol=8,
         Y=[to_int(listof(t), 2.0 ** k) for t in (y if isinstance(y, (list, tuple)) else [])])


def c18(h):
    h.rng.choice([c18_rot, c18_rot, c18_mesh])(h)
