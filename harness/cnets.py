"""C20: convolutional, deconvolutional and tail-focus networks."""
import math

import numpy as np
import torch
from torch import nn

import pp
from conv import ConvL, NAME, images
from core import Abort, listof, to_int
from lay import ask, Layer
from net import LIM, Guard, Halve, Inc, Neg

NORM = {"halve": Halve, "neg": Neg, "inc": Inc}


def lim(v, d):
    if d > LIM or abs(v) > LIM:
        raise Guard()


def link(C, o, q, x, d):
    """numerator over C.d * H^deg, big integers; refuses what TLC could not hold"""
    U = d * C.hn
    X = x * C.hd
    lim(X * C.fs * 2, U * C.fs * 2)
    if C.pn:
        num = C.pn * C.hd * d
        if num % C.pd or (num // C.pd) % 2:
            raise Guard()
        P = num // C.pd
        lim(X + P, 2 * P)
        m = (X + P // 2) % (2 * P)
        X = (2 * P - m if m > P else m) - P // 2
    if C.kind == "disc" and -U < X < U and (C.s * (X + U)) % (2 * U) == 0:
        raise Guard()
    fs = C.fs
    k = min(max((fs * (X + U)) // (2 * U), 0), fs - 1)
    H = U // fs if U % fs == 0 else U
    T = (X + U) - (2 * k + 1) * (U // fs) if U % fs == 0 else fs * (X + U) - (2 * k + 1) * U
    lim(fs * (abs(X) + U), (2 * k + 1) * U)
    big = sum(abs(c) * abs(T) ** j * H ** (C.deg - j) for j, c in enumerate(C.f[o][q][k]))
    lim(2 * big, C.d * H ** C.deg * C.window())
    return sum(c * T ** j * H ** (C.deg - j) for j, c in enumerate(C.f[o][q][k]))


def source(C, a, y, t, size):
    if C.tr:
        num = y + C.pad[a] - t * C.dil[a]
        if num % C.st[a]:
            return -1
        i = num // C.st[a]
    else:
        i = y * C.st[a] - C.pad[a] + t * C.dil[a]
    return i if 0 <= i < size else -1


def conv_img(C, x, d):
    ch, H, W = len(x), len(x[0]), len(x[0][0])
    U = d * C.hn
    Hh = U // C.fs if U % C.fs == 0 else U
    den = C.d * Hh ** C.deg * C.window()
    lim(0, den)
    kh, kw = C.k
    out = []
    for o in range(C.cout):
        c0 = o // (C.cout // C.g) * (C.cin // C.g)
        plane = []
        for y in range(C.extent(0, H)):
            row = []
            for xx in range(C.extent(1, W)):
                acc = 0
                for q in range(C.inn):
                    c, a, b = q // (kh * kw), (q // kw) % kh, q % kw
                    i, j = source(C, 0, y, a, H), source(C, 1, xx, b, W)
                    if i >= 0 and j >= 0:
                        acc += link(C, o, q, x[c0 + c][i][j], d)
                        lim(acc, den)
                row.append(acc)
            plane.append(row)
        out.append(plane)
    return normal(out, den)


def normal(x, d):
    g = d
    for p in x:
        for r in p:
            for v in r:
                g = math.gcd(g, v)
    return [[[v // g for v in r] for r in p] for p in x], d // g


def step(st, x, d):
    op = st["op"]
    if op == "conv":
        return conv_img(st["C"], x, d)
    if op == "halve":
        lim(0, 2 * d)
        return x, 2 * d
    if op == "neg":
        return [[[-v for v in r] for r in p] for p in x], d
    if op == "inc":
        x = [[[v + d for v in r] for r in p] for p in x]
        for p in x:
            for r in p:
                for v in r:
                    lim(v, d)
        return x, d
    if op == "mean":
        k = len(x[0]) * len(x[0][0])
        s = [[[sum(sum(abs(v) for v in r) for r in p)]] for p in x]
        for p in s:
            lim(p[0][0], d * k)
        return [[[sum(sum(r) for r in p)]] for p in x], d * k
    raise KeyError(op)


def err_step(st, x, d, e):
    """error bound after a stage, x the exact input of it"""
    op = st["op"]
    v = np.array(x, dtype=float) / d
    if op == "conv":
        C = st["C"]
        _, err, sl = C.coarse(v)
        sl = max(sl, float(np.abs(np.diff(C.W, axis=-1)).max()) * C.s / C.half if C.K > 1 else 0)
        return err + sl * e * C.inn / C.window()
    return e + pp.EPS * (float(np.abs(v).max()) + 1)


def walk(stages, x, d):
    """list of (image, d, err) after each stage"""
    x, d = normal(x, d)
    out = [(x, d, 0.0)]
    for st in stages:
        e = err_step(st, x, d, out[-1][2])
        x, d = step(st, x, d)
        out.append((x, d, e))
    return out


def plain(st):
    return {"op": "conv", "id": st["C"].id} if st["op"] == "conv" else dict(st)


def convs_of(net):
    return [m for m in net.modules() if isinstance(getattr(m, "conv", None), nn.Module)
            and hasattr(m.conv, "weight")]


class Cfg:
    """a random architecture together with its keyword arguments"""

    def __init__(self, h, dim, tr=False):
        r = h.rng
        self.h, self.dim, self.tr = h, dim, tr
        self.depth = r.choice([1, 2, 2, 3, 1, 2, 2, 3, 4, 5])
        deep = self.depth > 3
        self.ch = [r.choice([1, 2, 2] if dim == 2 else [1, 2, 3]) for _ in range(self.depth + 1)]
        self.k = [r.choice([1, 2, 3] if dim == 1 else [1, 2, 2]) for _ in range(self.depth)]
        if r.random() < 0.3:
            self.k = [self.k[0]] * self.depth
        kinds = ["cont"] if tr else ["cont", "disc", "poly", "cont"]
        self.kind = [r.choice(kinds) for _ in range(self.depth)]
        if r.random() < 0.4:
            self.kind = [self.kind[0]] * self.depth
        self.n = [r.randint(2, 4) for _ in range(self.depth)]
        if r.random() < 0.4:
            self.n = [self.n[0]] * self.depth
        self.s = [r.choice([1, 2, 3, 4]) for _ in range(self.depth)]
        if r.random() < 0.4:
            self.s = [self.s[0]] * self.depth
        self.st = [r.choice([1, 1, 2, 3] if dim == 1 else [1, 1, 2]) for _ in range(self.depth)]
        m = r.random()
        if m < 0.3:
            self.st = [1] * self.depth
        elif m < 0.5:
            self.st = [self.st[0]] * self.depth
        if dim == 1 and not tr and self.depth < 3 and r.random() < 0.15:
            self.st[r.randrange(self.depth)] = r.choice([4, 5, 7])
        self.pad = r.choice([0, 0, 1])
        self.rs = r.random() < 0.25
        self.per = (2, 1) if r.random() < 0.25 else None
        self.norm = r.choice([None, "halve", "neg", "inc"])
        self.asked = []
        if deep:
            self.ch = [min(c, 2 if dim == 1 else 1) for c in self.ch]
            self.k = [min(k, 2) for k in self.k]
            self.st = [1] * self.depth
            self.rs = False

    def flat(self, q, name, kw, allow_none=None):
        r = self.h.rng
        if allow_none is not None and all(v == allow_none for v in q) and r.random() < 0.5:
            return
        if len(set(q)) == 1 and r.random() < 0.6:
            kw[name] = q[0]
        else:
            kw[name] = list(q)

    def kwargs(self):
        kw = dict(channels=list(self.ch), kernel_size=list(self.k), padding=self.pad)
        if self.pad == 0 and self.h.rng.random() < 0.5:
            del kw["padding"]
        self.flat([NAME[q] + f"{self.dim}d" for q in self.kind], "layer_type", kw)
        self.flat(self.n, "n", kw)
        self.flat(self.s, "segments", kw)
        self.flat(self.st, "stride", kw, allow_none=1)
        if self.rs:
            kw["rescale_output"] = True
        if self.per:
            kw["periodicity"] = 2.0
        if self.norm:
            def make(ch):
                self.asked.append(ch)
                return NORM[self.norm]()

            kw["normalization"] = make
        return kw

    def layers(self, net):
        objs = convs_of(net)
        if len(objs) != self.depth:
            self.h.fact(False, f"network has {self.depth} convolutions, found {len(objs)}")
            raise Abort()
        if self.norm:
            self.h.fact(self.asked == self.ch[1:], "one normalisation per layer, for its channels")
        out = []
        for j, o in enumerate(objs):
            C = ConvL(self.h, self.kind[j], self.n[j], self.s[j], self.ch[j], self.ch[j + 1], dim=self.dim,
                      k=(self.k[j],) * 2, st=(self.st[j],) * 2, pad=(self.pad,) * 2, tr=self.tr, rs=self.rs,
                      per=self.per, obj=o)
            r = self.h.rng
            C.set(C.rand_f(deg=1 if r.random() < 0.8 else 2, cmax=r.choice([1, 1, 2])), r.choice([1, 2]))
            out.append(C)
        return out

    def levels(self, Cs):
        return [[{"op": "conv", "C": C}] + ([{"op": self.norm}] if self.norm else []) for C in Cs]

    def sizes(self, Cs, size):
        """extents along the chain, or None"""
        for C in Cs:
            size = [C.extent(a, size[a]) for a in (0, 1)]
            if min(size) < 1:
                return None
        return size

    def in_size(self, Cs, extra):
        r = self.h.rng
        for base in range(1, 40):
            size = [1 if self.dim == 1 else base, base]
            got = self.sizes(Cs, size)
            if got and min(got) >= 1:
                break
        size = [size[0] if self.dim == 1 else size[0] + r.randint(0, extra), size[1] + r.randint(0, extra)]
        return size if self.sizes(Cs, size) else None


def run_net(h, id_, net, stages_seq, X, D, finish, dim):
    """stages_seq: list of stages; finish(walk) -> flat list of (num, den, err)"""
    rows, want = [], []
    for img in X:
        try:
            w = walk(stages_seq, img, D)
            flat = finish(w)
            if max(abs(a / b) for a, b, _ in flat) < 200:
                rows.append(img)
                want.append(flat)
        except Guard:
            pass
    if not rows:
        return None
    err = max(e for fl in want for _, _, e in fl)
    big = max(abs(a / b) for fl in want for a, b, _ in fl)
    if err > 0.004:
        return None
    k = 20
    while big * 2 ** k > 2 ** 29:
        k -= 1
    tol = int(math.ceil(err * 2 ** k)) + 3
    if 50 * tol > 2 ** k:
        return None
    x = torch.tensor(np.array(rows, dtype=float) / D, dtype=torch.float32)
    if dim == 1:
        x = x[:, :, 0]
    x = images(h, x)
    y = h.lib("network forward", lambda: ask(h.rng, net, x), id=id_)
    h.ev("nimg", id=id_, X=rows, D=D, Y=to_int(listof(y.reshape(y.shape[0], -1)), 2 ** k), k=k, tol=tol)
    return y


def flat_of(w):
    x, d, e = w
    return [(v, d, e) for p in x for r in p for v in r]


def rand_imgs(cfg, size, D, b):
    r = cfg.h.rng
    return [[[[r.randint(-D, D) for _ in range(size[1])] for _ in range(size[0])] for _ in range(cfg.ch[0])]
            for _ in range(b)]


def fully(h, tr=False):
    from high_order_layers_torch.networks import HighOrderFullyConvolutionalNetwork, HighOrderFullyDeconvolutionalNetwork

    r = h.rng
    dim = 2 if tr else r.choice([1, 2])
    cfg = Cfg(h, dim, tr)
    kw = cfg.kwargs()
    pool = None
    if not tr:
        pool = r.choice([None, f"{dim}d", f"{dim}d"])
        if not (pool == "2d" and r.random() < 0.4):
            kw["pooling"] = pool
    cls = HighOrderFullyDeconvolutionalNetwork if tr else HighOrderFullyConvolutionalNetwork
    net = h.lib("construct network", lambda: cls(**kw))
    Cs = cfg.layers(net)
    st = [s for lv in cfg.levels(Cs) for s in lv] + ([{"op": "mean"}] if pool else [])
    Layer.count += 1
    nid = Layer.count
    h.ev("net", id=nid, stages=[plain(s) for s in st])
    h.cover.add(f"{'de' if tr else ''}conv net {dim}d depth={cfg.depth} pool={pool} norm={cfg.norm} pad={cfg.pad} "
                f"rs={cfg.rs} per={bool(cfg.per)}")
    done = 0
    for _ in range(8):
        size = cfg.in_size(Cs, 3 if dim == 1 else 2)
        if size is None:
            return
        D = r.choice([1, 2, 3, 4, 8])
        y = run_net(h, nid, net, st, rand_imgs(cfg, size, D, r.choice([1, 2])), D, lambda w: flat_of(w[-1]), dim)
        if y is not None:
            done += 1
            if not tr:
                h.ev("shape", id=nid, flat=True, **{"in": [cfg.ch[0]] + size}, out=list(y.shape[1:]))
            else:
                h.ev("shape", id=nid, flat=False, **{"in": [cfg.ch[0]] + size}, out=list(y.shape[1:]))
        if done >= 2:
            break
    if not tr and pool:
        h.fact(net.output_size == cfg.ch[-1], "reported size of the pooled output")
    if tr:
        h.fact(net.in_channels == cfg.ch[0], "reported number of input channels")


def tail(h):
    from high_order_layers_torch.networks import HighOrderTailFocusNetwork

    r = h.rng
    cfg = Cfg(h, 1)
    kw = cfg.kwargs()
    focus = [r.choice([1, 1, 2, 3]) for _ in range(cfg.depth)]
    if r.random() < 0.3:
        focus = [focus[0]] * cfg.depth
    kw["focus"] = focus[0] if len(set(focus)) == 1 and r.random() < 0.6 else list(focus)
    net = h.lib("construct network", lambda: HighOrderTailFocusNetwork(**kw))
    Cs = cfg.layers(net)
    lv = cfg.levels(Cs)
    Layer.count += 1
    nid = Layer.count
    h.ev("tail", id=nid, levels=[[plain(s) for s in q] for q in lv], focus=focus, convs=[C.id for C in Cs])
    h.cover.add(f"tail depth={cfg.depth} norm={cfg.norm} pad={cfg.pad} focus={focus} st={cfg.st} rs={cfg.rs}")
    st = [s for q in lv for s in q]
    ends = [0]
    for q in lv:
        ends.append(ends[-1] + len(q))
    done = 0
    for _ in range(8):
        size = None
        for base in range(1, 60):
            w = [base]
            for C in Cs:
                w.append(C.extent(1, w[-1]) if w[-1] > 0 else 0)
            if w[-1] >= 1 and all(a >= f for a, f in zip(w, focus)):
                size = base
                break
        if size is None:
            return
        size += r.randint(0, 4)
        if cfg.depth == 1 and sum(cfg.ch) < 4 and r.random() < 0.3:
            size += r.choice([40, 100, 150])
        w = [size]
        for C in Cs:
            w.append(C.extent(1, w[-1]))
        if w[-1] < 1 or not all(a >= f for a, f in zip(w, focus)):
            continue

        def finish(walked):
            out = []
            for j, f in enumerate(focus):
                x, d, e = walked[ends[j]]
                out += [(v, d, e) for p in x for row in p for v in row[-f:]]
            return out + flat_of(walked[-1])

        D = r.choice([1, 2, 3, 4, 8])
        y = run_net(h, nid, net, st, rand_imgs(cfg, [1, size], D, r.choice([1, 2])), D, finish, 1)
        if y is not None:
            done += 1
            ws, os_ = h.lib("compute_sizes", lambda: net.compute_sizes(size), id=nid)
            h.ev("sizes", id=nid, size=size, widths=[int(v) for v in ws], sizes=[int(v) for v in os_],
                 got=int(y.shape[1]))
        if done >= 2:
            break


def c20(h):
    a = h.rng.random()
    if a < 0.4:
        fully(h)
    elif a < 0.6:
        fully(h, tr=True)
    else:
        tail(h)
