"""Driver for networks: configuration -> expected stages, real network ->
handles of its layers.  The composition expected comes from the configuration
only; the library's structure is used for nothing but writing weights."""
import math
from fractions import Fraction

import numpy as np
import torch
from torch import nn

import pp
from core import Abort, listof, to_int
from lay import ask, HALVES, KIND_TYPE, Layer, layouts, num


class Halve(nn.Module):
    def forward(self, x):
        return x * 0.5


class Relu(nn.Module):
    def forward(self, x):
        return torch.relu(x)


class Neg(nn.Module):
    def forward(self, x):
        return -x


class Inc(nn.Module):
    def __init__(self, by=1.0):
        super().__init__()
        self.by = by

    def forward(self, x):
        return x + self.by


NORMS = {"halve": Halve, "neg": Neg, "inc": Inc, "relu": Relu}
NONLIN = {"relu": Relu, "neg": Neg, "inc": Inc}


def norm_of(name, ux=1.0):
    def make():
        m = Inc(ux) if name == "inc" else NORMS[name]()
        m.is_norm = True
        return m

    return make


def own_norms(h, model, want):
    """every place has a normalisation of its own (it may keep statistics)"""
    h.fact(sum(getattr(m, "is_norm", False) for m in model.modules()) == want,
           "every layer has a normalisation of its own")


def nl_of(name, ux=1.0):
    return Inc(ux) if name == "inc" else NONLIN[name]()


TYPE_KIND = {"polynomial": ("poly", "sum"), "continuous": ("cont", "sum"), "discontinuous": ("disc", "sum"),
             "polynomial_prod": ("poly", "prod"), "continuous_prod": ("cont", "prod"),
             "discontinuous_prod": ("disc", "prod"), "switch_continuous": ("cont", "switch"),
             "switch_discontinuous": ("disc", "switch")}


def handles(model):
    """the polynomial layers of a sequential model, in order"""
    return [m for m in model.modules() if isinstance(getattr(m, "w", None), nn.Parameter)]


def linears(model):
    return [m for m in model.modules() if isinstance(m, nn.Linear)]


class Guard(Exception):
    """the exact value would not fit TLC's integers: pick something smaller"""


LIM = 2 ** 29


def norm_row(x, d):
    g = d
    for v in x:
        g = math.gcd(g, v)
    return [v // g for v in x], d // g


class Net:
    """list of stages as understood by StageRows; layer stages carry Layer objects"""

    def __init__(self, h, stages, run, ux=1.0):
        """ux: the unit, a power of two, in which the real network works"""
        self.h, self.stages, self.run, self.ux = h, stages, run, ux
        Layer.count += 1
        self.id = Layer.count
        h.ev("net", id=self.id, stages=[self.plain(s) for s in stages])

    def plain(self, s):
        if s["op"] == "layer":
            return {"op": "layer", "id": s["L"].id}
        if s["op"] == "switch":
            return {"op": "switch", "ids": [L.id for L in s["Ls"]]}
        if s["op"] == "sum":
            return {"op": "sum", "nets": [[self.plain(t) for t in n] for n in s["nets"]]}
        return {k: v for k, v in s.items()}

    # guard: the same homogeneous arithmetic as the specification, big integers
    def guard_stage(self, s, x, d):
        if s["op"] == "layer":
            return self.guard_layer(s["L"], x, d)
        if s["op"] == "switch":
            rows = [self.guard_layer(L, x, d) for L in s["Ls"]]
            x, d = rows[0]
            for y, e in rows[1:]:
                x, d = [a * b for a, b in zip(x, y)], d * e
                self.lim(x, d)
                x, d = norm_row(x, d)
            return x, d
        if s["op"] == "sum":
            rows = [self.guard(n, x, d) for n in s["nets"]]
            x, d = rows[0]
            for y, e in rows[1:]:
                m = d * e // math.gcd(d, e)
                x, d = [a * (m // d) + b * (m // e) for a, b in zip(x, y)], m
                self.lim(x, d)
                x, d = norm_row(x, d)
            return x, d
        if s["op"] == "linear":
            y = [sum(a * b for a, b in zip(row, x)) + bb * d for row, bb in zip(s["m"], s["b"])]
            m = max(sum(abs(a * b) for a, b in zip(row, x)) + abs(bb * d) for row, bb in zip(s["m"], s["b"]))
            self.lim([m], d * s["d"])
            return norm_row(y, d * s["d"])
        if s["op"] == "halve":
            self.lim(x, 2 * d)
            return x, 2 * d
        if s["op"] == "relu":
            return [max(v, 0) for v in x], d
        if s["op"] == "neg":
            return [-v for v in x], d
        if s["op"] == "inc":
            self.lim([v + d for v in x], d)
            return [v + d for v in x], d
        raise KeyError(s["op"])

    def lim(self, x, d):
        if d > LIM or any(abs(v) > LIM for v in x):
            raise Guard()

    def guard_layer(self, L, x, d):
        fs = L.fs
        U = d * L.hn
        P = 0
        if L.pn:
            if (L.pn * L.hd * d) % L.pd or (L.pn * L.hd * d // L.pd) % 2:
                raise Guard()
            P = L.pn * L.hd * d // L.pd
        H = U // fs if U % fs == 0 else U
        den = L.d * H ** L.deg
        out, big = [], 0
        for o in range(L.out):
            acc, prod = 0, 1
            for i in range(L.inn):
                X = x[i] * L.hd
                self.lim([X * fs * 2, U * fs * 2], 1)
                if P:
                    m = (X + P // 2) % (2 * P)
                    X = (2 * P - m if m > P else m) - P // 2
                if L.kind == "disc" and -U < X < U and (L.s * (X + U)) % (2 * U) == 0:
                    raise Guard()  # two admissible values; layers alone are probed there
                k = min(max((fs * (X + U)) // (2 * U), 0), fs - 1)
                T = (X + U) - (2 * k + 1) * (U // fs) if U % fs == 0 else fs * (X + U) - (2 * k + 1) * U
                self.lim([fs * (X + U), (2 * k + 1) * U], 1)
                c = L.f[o][i][k]
                v = sum(cj * T ** j * H ** (L.deg - j) for j, cj in enumerate(c))
                big = sum(abs(cj) * abs(T) ** j * H ** (L.deg - j) for j, cj in enumerate(c))
                self.lim([2 * big], den)
                acc += v
                self.lim([acc], den)
                if L.comb == "prod":
                    prod *= den + v
                    self.lim([prod], den ** L.inn)
            out.append(acc if L.comb == "sum" else prod - den ** L.inn)
        D = den if L.comb == "sum" else den ** L.inn
        self.lim(out, D)
        return norm_row(out, D)

    def guard(self, stages, x, d):
        x, d = norm_row(x, d)
        for s in stages:
            x, d = self.guard_stage(s, x, d)
        return x, d

    # float64 propagation of values and error bounds
    def prop(self, stages, v, e):
        for s in stages:
            v, e = self.prop_stage(s, v, e)
        return v, e

    def prop_layer(self, L, v, e):
        V, S, E, sl, leb = pp.link_info(L.W, L.kind, L.n, L.s, L.half, L.period, v)
        # an input that moves by e may see the slope of a neighbouring segment
        sl = np.maximum(sl, np.abs(np.diff(L.W, axis=-1)).max() * L.s / L.half if L.W.shape[-1] > 1 else 0)
        E = E + L.werr * leb + sl * e[None]
        if L.comb == "sum":
            return V.sum(-1).T, (E.sum(-1) + pp.EPS * 2 * L.inn * S.sum(-1)).T
        P = np.prod(1 + S, axis=-1)
        return (np.prod(1 + V, axis=-1) - 1).T, (((E / (1 + S)).sum(-1)) * P * 1.01 + pp.EPS * 4 * L.inn * P).T

    def prop_stage(self, s, v, e):
        op = s["op"]
        if op == "layer":
            return self.prop_layer(s["L"], v, e)
        if op == "switch":
            v0, e0 = self.prop_layer(s["Ls"][0], v, e)
            for L in s["Ls"][1:]:
                v1, e1 = self.prop_layer(L, v, e)
                v0, e0 = v0 * v1, np.abs(v0) * e1 + np.abs(v1) * e0 + e0 * e1 + pp.EPS * np.abs(v0 * v1)
            return v0, e0
        if op == "sum":
            v0, e0 = 0, 0
            for n in s["nets"]:
                v1, e1 = self.prop(n, v, e)
                v0, e0 = v0 + v1, e0 + e1 + pp.EPS * (np.abs(v0) + np.abs(v1))
            return v0, e0
        if op == "linear":
            M = np.array(s["m"], dtype=float) / s["d"]
            b = np.array(s["b"], dtype=float) / s["d"]
            return v @ M.T + b, e @ np.abs(M.T) + pp.EPS * 4 * len(s["m"][0]) * (np.abs(v) @ np.abs(M.T) + np.abs(b))
        f = {"halve": lambda a: a / 2, "relu": lambda a: np.maximum(a, 0), "neg": lambda a: -a,
             "inc": lambda a: a + 1}[op]
        return f(v), e + pp.EPS * (np.abs(v) + 1)

    def fwd(self, X, D, layout=True):
        h = self.h
        rows = []
        for row in X:
            try:
                x, d = self.guard(self.stages, row, D)
                if abs(max(x, key=abs)) / d < 200:
                    rows.append(row)
            except Guard:
                pass
        if not rows:
            return False
        v = np.array(rows, dtype=float) / D
        V, E = self.prop(self.stages, v, np.zeros_like(v))
        keep = [b for b in range(len(rows)) if E[b].max() < 0.004]
        if not keep:
            return False
        rows = [rows[b] for b in keep]
        k = 20
        while np.abs(V[keep]).max() * 2 ** k > 2 ** 29:
            k -= 1
        sc = 2 ** k
        tol = int(math.ceil(E[keep].max() * sc)) + 3
        if 50 * tol > sc:
            return False
        x = torch.tensor(np.array(rows, dtype=float) / D * self.ux, dtype=torch.float32)
        if layout:
            x = layouts(h.rng, x)
        y = h.lib("network forward", lambda: ask(h.rng, self.run, x), id=self.id)
        h.ev("nfwd", id=self.id, X=rows, D=D, Y=to_int(listof(y / self.ux), sc), k=k, tol=tol)
        return True

    def layers(self, stages=None):
        out = []
        for s in self.stages if stages is None else stages:
            if s["op"] == "layer":
                out.append(s["L"])
            elif s["op"] == "switch":
                out += s["Ls"]
            elif s["op"] == "sum":
                for n in s["nets"]:
                    out += self.layers(n)
        return out


def wrap(h, objs, kind, comb, n, s, inn, out, half, per, want):
    """pair the found layers with what was asked for"""
    if len(objs) != want:
        h.fact(False, f"network has {want} polynomial layers")
        raise Abort()
    return [Layer(h, kind, n, s, inn, out, comb="sum" if comb == "switch" else comb, half=half, per=per, obj=o)
            for o in objs]


def mlp_cfg(h, types=None, maxw=3, depth=None, norm=True, scale=True, per=False, inw=None, units=True):
    r = h.rng
    t = r.choice(types or list(TYPE_KIND))
    kind, comb = TYPE_KIND[t]
    if comb in ("prod", "switch"):
        maxw = min(maxw, 2)
    hid = r.choice([0, 1, 2]) if depth is None else depth
    deep = depth is None and comb == "sum" and (r.random() < 0.12 or per == "deep")
    if deep:
        # many narrow layers
        hid, maxw = r.choice([3, 4, 5, 6]), 2
    wide = depth is None and comb == "sum" and not deep and r.random() < 0.12
    half = r.choice([(1, 1), (1, 1), (2, 1), (1, 2)]) if scale else (1, 1)
    c = dict(t=t, kind=kind, comb=comb, hid=hid, inw=inw or r.randint(1, maxw), outw=r.randint(1, maxw),
             hw=r.randint(1, maxw), half=half, norm=r.choice([None, "halve", "neg", "inc"]) if norm else None,
             nl=r.choice([None, "relu", "neg", "inc"]) if norm else None)
    if wide:
        for k in ("inw", "hw", "outw"):
            if not (k == "inw" and inw):
                c[k] = r.choice([1, 2, 4, 6, 9, 12])
    lo = 2
    c["n"] = [r.randint(lo, 4) for _ in range(3)]
    c["s"] = [r.choice([1, 2, 3, 4]) for _ in range(3)]
    if kind == "poly":
        c["s"] = [1, 1, 1]
    # everything in units of ux: lengths, values, what the norms add
    c["ux"] = 2.0 ** r.randint(-8, 8) if units and scale and comb == "sum" and r.random() < 0.3 else 1.0
    c["per"] = None
    if per and comb != "switch" and r.random() < (1 if per in ("always", "deep") else 0.6 if deep else 0.3):
        c["per"] = (2 * half[0], half[1])
    return c


def common(c, r=None):
    """the arguments for lengths, norms and period"""
    kw = {}
    if c["half"] != (1, 1) or c["ux"] != 1:
        kw["scale"] = 2 * c["half"][0] / c["half"][1] * c["ux"]
        kw["scale"] = num(r, kw["scale"]) if r else kw["scale"]
    if c["norm"]:
        kw["normalization"] = norm_of(c["norm"], c["ux"])
    if c["nl"]:
        kw["non_linearity"] = nl_of(c["nl"], c["ux"])
    if c["per"]:
        kw["periodicity"] = c["per"][0] / c["per"][1] * c["ux"]
    return kw


def build_mlp(h, c, resnet=False, dropout=False):
    from high_order_layers_torch.networks import HighOrderMLP

    r = h.rng
    kw = dict(layer_type=c["t"], n=c["n"][1], in_width=c["inw"], out_width=c["outw"], hidden_layers=c["hid"],
              hidden_width=c["hw"], n_in=c["n"][0], n_hidden=c["n"][1], n_out=c["n"][2])
    # orders that are not given fall back to the base order
    base = r.choice(c["n"] + [5])
    kw["n"] = base
    for k, v in zip(("n_in", "n_hidden", "n_out"), c["n"]):
        if v == base and r.random() < 0.7:
            if r.random() < 0.3:
                kw[k] = None
            else:
                del kw[k]
    if c["kind"] != "poly":
        kw.update(in_segments=c["s"][0], hidden_segments=c["s"][1], out_segments=c["s"][2])
    kw.update(common(c, r))
    if resnet:
        kw["resnet"] = True
    if dropout:     # without effect outside of training
        kw["dropout"] = r.choice([0.25, 0.5, 0.9])
        return h.lib("construct network", lambda: HighOrderMLP(**kw).eval())
    return h.lib("construct network", lambda: HighOrderMLP(**kw))


def mlp_layers(h, c, model):
    """Layers of one HighOrderMLP in order of application, grouped per stage"""
    per = 2 if c["comb"] == "switch" else 1
    objs = handles(model)
    want = per * (c["hid"] + 2)
    if len(objs) != want:
        h.fact(False, f"network has {want} polynomial layers, found {len(objs)}")
        raise Abort()
    groups = []
    for j in range(c["hid"] + 2):
        w = 0 if j == 0 else (2 if j == c["hid"] + 1 else 1)
        inn = c["inw"] if j == 0 else c["hw"]
        out = c["outw"] if j == c["hid"] + 1 else c["hw"]
        groups.append([Layer(h, c["kind"], c["n"][w], c["s"][w], inn, out,
                             comb="prod" if c["comb"] == "prod" else "sum", half=c["half"], per=c["per"], obj=o,
                             ux=c["ux"], uy=c["ux"])
                       for o in objs[j * per:(j + 1) * per]])
    return groups


def between(c):
    out = []
    if c["norm"]:
        out.append({"op": c["norm"]})
    if c["nl"]:
        out.append({"op": c["nl"]})
    return out


def stages_of(c, groups):
    st = []
    for j, g in enumerate(groups):
        if j:
            st += between(c)
        st.append({"op": "switch", "Ls": g} if c["comb"] == "switch" else {"op": "layer", "L": g[0]})
    return st


def fill(c, groups, deg2=0.25, r=None):
    """functions small enough to be composed exactly"""
    steep = True if c.get("steep") else None
    for g in groups:
        for L in g:
            r = L.h.rng
            if steep is None:
                # folding keeps values small: deep periodic networks may leave the period in every layer
                steep = bool(c.get("per")) and c.get("hid", 0) >= 2 and r.random() < 0.6
            if steep:
                L.set(L.rand_f(deg=1, cmax=r.choice([1, 2, 3])), 1)
                continue
            deg = 2 if (r.random() < deg2 and L.n > 2) else 1
            L.set(L.rand_f(deg=deg, cmax=r.choice([1, 1, 2])), r.choice([1, 2, 4]))


def probe(net, inw, half, tries=6, want=2, reach=1.25):
    h = net.h
    r = h.rng
    done = 0
    for _ in range(tries):
        D = r.choice([1, 2, 4, 8]) * half[1] * (2 if r.random() < 0.5 else 1)
        lim = math.floor(reach * half[0] * D / half[1])
        X = [[r.randint(-lim, lim) for _ in range(inw)] for _ in range(r.choice([1, 3, 6]))]
        done += bool(net.fwd(X, D))
        if done >= want:
            break
    return done
