"""C21 autoencoder, C22 registries, model selection and training wrappers."""
import math

import numpy as np
import torch
from torch import nn

import pp
from att import T, ints, put
from conv import ConvL, NAME
from core import Abort, listof, to_int
from lay import KIND_TYPE, Layer, layouts
from net import Net, TYPE_KIND, fill, handles, linears, mlp_cfg, mlp_layers, probe, stages_of

LN2 = math.log(2)
SC = 4096.0


# ---------------------------------------------------------------------------
# C21
class Enc(nn.Module):
    def __init__(self, size):
        super().__init__()
        self.size = size

    @property
    def output_size(self):
        return self.size

    def forward(self, x):
        return 2 * x - 1


class Dec(nn.Module):
    def __init__(self, ch):
        super().__init__()
        self.ch = ch

    @property
    def in_channels(self):
        return self.ch

    def forward(self, u):
        if tuple(u.shape[1:]) != (self.ch, 1, 1):
            raise RuntimeError(f"decoder got {tuple(u.shape)}")
        return torch.cat([3 * u + 1, -u], dim=2)


def rows(t):
    return listof(t.reshape(t.shape[0], -1))


class V:
    count = 0

    def __init__(self, h):
        from high_order_layers_torch.networks import VanillaVAE

        r = self.r = h.rng
        self.h = h
        self.shape = (r.choice([1, 2]), r.choice([1, 2]), r.choice([1, 2, 3]))
        self.f = math.prod(self.shape)
        self.k, self.ch = r.choice([1, 2, 3, 4, 4, 8]), r.choice([1, 2, 3, 3, 6])
        self.obj = h.lib("construct", lambda: VanillaVAE(self.k, Enc(self.f), Dec(self.ch)) if r.random() < 0.5 else
                         VanillaVAE(latent_dim=self.k, encoder=Enc(self.f), decoder=Dec(self.ch)))
        V.count += 1
        self.id = V.count
        self.set()

    def set(self):
        r, h = self.r, self.h
        self.Wm, self.bm = ints(r, (self.k, self.f), 2), ints(r, (self.k,), 2)
        self.Wv, self.bv = ints(r, (self.k, self.f), 1, 0.75), ints(r, (self.k,), 1)
        self.Wd, self.bd = ints(r, (self.ch, self.k), 2), ints(r, (self.ch,), 2)
        o = self.obj
        put(h, o.fc_mu.weight, self.Wm), put(h, o.fc_mu.bias, self.bm)
        put(h, o.fc_var.weight, self.Wv, 2 * LN2), put(h, o.fc_var.bias, self.bv, 2 * LN2)
        put(h, o.decoder_input.weight, self.Wd), put(h, o.decoder_input.bias, self.bd)
        h.ev("vae", id=self.id, Wm=self.Wm, bm=self.bm, Wv=self.Wv, bv=self.bv, Wd=self.Wd, bd=self.bd)

    def logs(self, x):
        e = 2 * np.array(x) - 1
        return e @ np.array(self.Wv).T + np.array(self.bv)

    def input(self, b):
        r = self.r
        X = []
        for _ in range(200):
            x = [r.randint(-2, 2) for _ in range(self.f)]
            l = self.logs(x)
            if l.min() >= -4 and l.max() <= 3:
                X.append(x)
                if len(X) == b:
                    return X
        return X or None


def c21_stub(h):
    r = h.rng
    v = V(h)
    m = v.obj
    if r.random() < 0.3:
        v.set()
    X = v.input(r.choice([1, 2, 3, 3, 9]))
    if X is None:
        return
    B = len(X)
    x = layouts(r, T(X).reshape(B, *v.shape), allow_grad=False)
    h.cover.add(f"latent={v.k} features={v.f} channels={v.ch} batch={B}")
    if r.random() < 0.5:        # sampling is the same in and out of training
        m.eval()
    mu, lv = h.lib("encode", lambda: m.encode(x))
    h.ev("enc", id=v.id, X=X, MU=to_int(listof(mu), SC), LV=to_int(listof(lv / (2 * LN2)), SC), sc=4096, tol=4, tolv=4)
    # sampling, noise measured at the prior with the same random state
    seed = r.randrange(1 << 30)

    def noise(rows_):
        torch.manual_seed(seed)
        return m.reparameterize(torch.zeros(rows_, v.k), torch.zeros(rows_, v.k))

    E = h.lib("reparameterize", lambda: noise(B))
    MU, L = ints(r, (B, v.k), 6), ints(r, (B, v.k), r.choice([3, 3, 8, 14]))

    def draw():
        torch.manual_seed(seed)
        return m.reparameterize(T(MU), T(L, 2 * LN2))

    Z = h.lib("reparameterize", draw)
    h.ev("sample", MU=MU, L=L, E=to_int(listof(E), SC, 1 << 22), Z=to_int(listof(Z), SC, 1 << 30), sc=4096)
    # decoding
    Z = ints(r, (r.choice([1, 2, 3]), v.k), 4)
    D = r.choice([1, 2, 4])
    y = h.lib("decode", lambda: m.decode(T(Z, 1 / D)))
    h.fact(tuple(y.shape[1:]) == (v.ch, 2, 1), "shape of the decoded batch")
    h.ev("dec", id=v.id, Z=to_int((T(Z, 1 / D)).tolist(), SC), Y=to_int(rows(y), SC, 1 << 26), sc=4096)

    # whole pass
    def whole():
        torch.manual_seed(seed)
        return m(x)

    out = h.lib("forward", whole)
    ok = isinstance(out, (list, tuple)) and len(out) == 4
    h.fact(ok, "forward returns reconstruction, input, mean and log-variance")
    if not ok:
        return
    h.fact(out[1] is x or (out[1].shape == x.shape and bool((out[1] == x).all())), "the input itself is returned")
    Ei = to_int(listof(E), SC, 1 << 22)
    h.ev("pass", id=v.id, X=X, E=Ei, Y=to_int(rows(out[0]), SC, 1 << 26), sc=4096,
         what="reconstruction decodes a sample of the encoded distribution")
    h.ev("enc", id=v.id, X=X, MU=to_int(listof(out[2]), SC), LV=to_int(listof(out[3] / (2 * LN2)), SC), sc=4096, tol=4,
         tolv=4)

    def gen():
        torch.manual_seed(seed)
        return m.generate(x)

    y = h.lib("generate", gen)
    h.ev("pass", id=v.id, X=X, E=Ei, Y=to_int(rows(y), SC, 1 << 26), sc=4096, what="generate returns a reconstruction")
    n = r.choice([1, 2, 5])
    y = h.lib("sample", lambda: m.sample(n))
    h.fact(tuple(y.shape) == (n, v.ch, 2, 1), "sample returns the requested number of decodings")
    # a second pass differs: fresh noise, same mean
    a, b = h.lib("forward", lambda: (m(x), m(x)))
    h.fact(bool((a[2] == b[2]).all()) and bool((a[3] == b[3]).all()), "encoding is deterministic")
    if any(any(w) for w in v.Wd):
        h.fact(not bool((a[0] == b[0]).all()), "every pass draws fresh noise")


def c21_loss(h):
    r = h.rng
    v = V(h)
    for _ in range(3):
        B, P, k = r.choice([1, 2, 3, 5]), r.choice([1, 2, 4]), v.k
        D = r.choice([1, 2, 4])
        A, Bb = ints(r, (B, P), 9), ints(r, (B, P), 9)
        MU, L = ints(r, (B, k), r.choice([6, 6, 14])), ints(r, (B, k), 3)
        if r.random() < 0.3:        # very small variances
            L = [[q if q > 0 or r.random() < 0.5 else -r.randint(4, 8) for q in row] for row in L]
        if r.random() < 0.2:
            MU, L = ints(r, (B, k), 0), ints(r, (B, k), 0)
        wn, wd = r.choice([(0, 1), (1, 1), (1, 2), (1, 8), (3, 1), (1, 64)])
        if r.random() < 0.2:        # a very large variance
            L = [[min(q, 1) for q in row] for row in L]
            L[r.randrange(B)][r.randrange(k)] = r.choice([4, 5, 6])
            wn, wd = r.choice([(1, 1), (1, 2), (1, 64)])
        sh = r.choice([(B, P), (B, P, 1, 1), (B, 1, 1, P)])
        res = h.lib("loss_function", lambda: v.obj.loss_function(T(A, 1 / D).reshape(sh), T(Bb, 1 / D).reshape(sh), T(MU),
                                                                 T(L, 2 * LN2), M_N=wn / wd))
        h.cover.add(f"loss batch={B} weight={wn}/{wd}")
        h.ev("loss", A=A, B=Bb, D=D, MU=MU, L=L, wn=wn, wd=wd, loss=to_int(float(res["loss"]), 1024.0, 1 << 29),
             rec=to_int(float(res["Reconstruction_Loss"]), 1024.0, 1 << 29))
        # trainable through every argument
        t = [q.requires_grad_(True) for q in (T(A, 1 / D), T(MU), T(L, 2 * LN2))]
        loss = h.lib("loss_function", lambda: v.obj.loss_function(t[0], T(Bb, 1 / D), t[1], t[2], M_N=wn / wd)["loss"])
        h.lib("backward", lambda: loss.backward())
        ga = (2 / (B * P) * (T(A, 1 / D) - T(Bb, 1 / D))).tolist()
        gm = (T(MU) * (wn / wd / B)).tolist()
        gl = ((torch.exp(T(L, 2 * LN2)) - 1) * (0.5 * wn / wd / B)).tolist()
        for g, q, what in ((ga, t[0], "reconstruction"), (gm, t[1], "mean"), (gl, t[2], "log-variance")):
            got = listof(q.grad) if q.grad is not None else [[0.0] * len(g[0])] * B
            h.ev("rows", A=to_int(g, 1e4), B=to_int(got, 1e4), sc=10000, tol=40, what="gradient of the loss in the " + what)


def c21_noise(h):
    r = h.rng
    from high_order_layers_torch.networks import VanillaVAE

    m = h.lib("construct", lambda: VanillaVAE(4, Enc(2), Dec(4)))
    if r.random() < 0.5:
        b = r.choice([1024, 1024, 8, 16, 32, 64])       # one large batch or many small ones
        z = torch.zeros(b, 4)
        E = h.lib("reparameterize", lambda: torch.cat([m.reparameterize(z, z) for _ in range(1024 // b)]))
    else:
        put(h, m.decoder_input.weight, [[int(i == j) for j in range(4)] for i in range(4)])
        put(h, m.decoder_input.bias, [0] * 4)
        y = h.lib("sample", lambda: m.sample(1024))
        if tuple(y.shape) != (1024, 4, 2, 1):
            h.fact(False, "sample returns the requested number of decodings")
            return
        E = -y[:, :, 1, 0]
    h.ev("noise", E=to_int(listof(E), 1024.0, 12000))
    if r.random() < 0.15:
        b = r.choice([1500, 3000, 6000])
        put(h, m.decoder_input.weight, [[int(i == j) for j in range(4)] for i in range(4)])
        y = h.lib("sample", lambda: m.sample(b))
        h.fact(tuple(y.shape) == (b, 4, 2, 1) and len({tuple(v) for v in listof(y[:, :, 1, 0])}) == b,
               "every decoding comes from a noise of its own")
    if r.random() < 0.2:
        z = torch.zeros(50000, 4)
        e = h.lib("reparameterize", lambda: m.reparameterize(z, z))
        # 46 draws are expected beyond 3.5 on either side, and 0.2 beyond 5
        h.fact(float(e.max()) > 3.5 and float(e.min()) < -3.5, "the noise has the tails of a normal distribution")
        h.fact(float(e.abs().max()) < 7.5, "the noise has the tails of a normal distribution")


def c21_real(h):
    """real convolutional encoder and decoder: the pieces fit together"""
    from high_order_layers_torch.networks import (HighOrderFullyConvolutionalNetwork,
                                                  HighOrderFullyDeconvolutionalNetwork, VanillaVAE)

    r = h.rng
    ch = [r.choice([1, 3]), r.choice([2, 4])]
    enc = h.lib("construct", lambda: HighOrderFullyConvolutionalNetwork(
        layer_type="continuous2d", n=r.choice([2, 3]), channels=ch, segments=2, kernel_size=[3], stride=[2], padding=1,
        pooling="2d"))
    dch = [r.choice([2, 4]), 3, ch[0]]
    dec = h.lib("construct", lambda: HighOrderFullyDeconvolutionalNetwork(
        layer_type="continuous2d", n=2, channels=dch, segments=2, kernel_size=[3, 2], stride=2))
    k = r.randint(1, 4)
    m = h.lib("construct", lambda: VanillaVAE(latent_dim=k, encoder=enc, decoder=dec))
    B = r.choice([1, 2, 3])
    x = torch.rand(B, ch[0], 6, 6) * 2 - 1
    seed = r.randrange(1 << 30)

    def parts():
        mu, lv = m.fc_mu(enc(x).flatten(1)), m.fc_var(enc(x).flatten(1))
        torch.manual_seed(seed)
        e = m.reparameterize(torch.zeros_like(mu), torch.zeros_like(lv))
        z = mu + torch.exp(lv / 2) * e
        return mu, lv, dec(m.decoder_input(z).reshape(B, dch[0], 1, 1))

    def whole():
        torch.manual_seed(seed)
        return m(x)

    mu, lv, y = h.lib("parts", parts)
    o = h.lib("forward", whole)
    for a, b, what in ((mu, o[2], "mean of a real encoder"), (lv, o[3], "log-variance of a real encoder"),
                       (y, o[0], "reconstruction through real networks")):
        h.ev("rows", A=to_int(rows(a), SC), B=to_int(rows(b), SC), sc=4096, tol=12, what=what)
    h.cover.add("real encoder and decoder")
    loss = h.lib("loss", lambda: m.loss_function(o[0], torch.rand_like(o[0]), o[2], o[3], M_N=0.5)["loss"])
    h.lib("backward", lambda: loss.backward())
    h.fact(all(p.grad is not None and bool(torch.isfinite(p.grad).all()) for p in m.parameters()),
           "every parameter of the autoencoder is trained by the loss")


def c21(h):
    a = h.rng.random()
    if a < 0.5:
        c21_stub(h)
    elif a < 0.85:
        c21_loss(h)
    elif a < 0.9:
        c21_noise(h)
    else:
        c21_real(h)


# ---------------------------------------------------------------------------
# C22
FC = ["baseline_relu", "baseline", "continuous", "continuous_prod", "discontinuous", "discontinuous_prod", "polynomial",
      "polynomial_prod", "product", "fourier", "switch_continuous", "switch_discontinuous", "polynomial_2d",
      "polynomial_3d", "polynomial_4d", "polynomial_5d", "continuous_nd"]
CONV = ["continuous2d", "continuous1d", "discontinuous2d", "discontinuous1d", "polynomial2d", "polynomial1d", "fourier2d",
        "fourier1d"]
CONVT = ["continuous2d"]


def refused(h, fn, names, what):
    try:
        fn()
    except ValueError as ex:
        msg = str(ex)
        h.fact(all(n in msg for n in names), f"{what}: the error names the alternatives")
    except Exception as ex:
        h.fact(False, f"{what} raises ValueError, not {type(ex).__name__}")
    else:
        h.fact(False, f"{what} is rejected")


def unknown(h):
    import high_order_layers_torch.layers as L

    r = h.rng
    which = r.randrange(3)
    names, f = [(FC, L.high_order_fc_layers), (CONV, L.high_order_convolution_layers),
                (CONVT, L.high_order_convolution_transpose_layers)][which]
    base = r.choice(names)
    bad = r.choice([base.upper(), base + "_", base[:-1], "", "x" + base, base.replace("_", "-") + " ", "linear",
                    r.choice(CONV) if which == 0 else r.choice(FC), "None", base + base])
    if bad in names or bad in ("product2d", "continuous_prod2d", "discontinuous_prod2d", "polynomial_prod2d"):
        bad = "no such layer"
    kw = r.choice([{}, dict(n=3, in_features=2, out_features=2, segments=2)])
    h.cover.add(f"unknown {which}")
    refused(h, lambda: f(bad, **kw), names, "an unknown layer name")


def widths(h):
    """every name: requested widths, evaluates, finite"""
    import high_order_layers_torch.layers as L

    r = h.rng
    B = r.choice([1, 2, 5])
    if r.random() < 0.65:
        name = r.choice(FC)
        inn, out, n = r.randint(1, 5), r.randint(1, 5), r.randint(2, 5)
        kw = dict(in_features=inn, out_features=out, n=n)
        if name in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "switch_continuous",
                    "switch_discontinuous") or (name == "continuous_nd"):
            kw["segments"] = r.randint(1, 6)
        elif name.startswith("baseline") and r.random() < 0.5:
            kw["segments"] = r.randint(1, 6)
        x = torch.rand(B, inn) * 2 - 1
        if name == "product":
            kw.pop("n")
        if name == "continuous_nd":
            d = r.choice([1, 2, 3])
            kw.update(n=r.randint(2, 3), dimensions=d, segments=r.randint(1, 3))
            x = torch.rand(B, inn, d) * 2 - 1
        elif name[-2:] == "5d" or name[-2:] in ("2d", "3d", "4d"):
            d = int(name[-2])
            kw["n"] = r.randint(1, 3) + 1 if d < 4 else 2
            x = torch.rand(B, inn, d) * 2 - 1
        items = list(kw.items())
        r.shuffle(items)
        m = h.lib(f"construct {name}", lambda: L.high_order_fc_layers(name, **dict(items)) if r.random() < 0.5 else
                  L.high_order_fc_layers(layer_type=name, **dict(items)))
        y = h.lib(f"forward {name}", lambda: m(x))
        h.fact(tuple(y.shape) == (B, out) and bool(torch.isfinite(y).all()), f"{name} has the requested widths")
    else:
        tr = r.random() < 0.2
        name = r.choice(CONVT if tr else CONV)
        dim = int(name[-2])
        cin, cout, n, k = r.randint(1, 3), r.randint(1, 4), r.randint(2, 4), r.randint(1, 3)
        kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=k)
        if name.startswith(("cont", "disc")):
            kw["segments"] = r.randint(1, 5)
        x = torch.rand(*([B, cin, 6, 5] if dim == 2 else [B, cin, 7])) * 2 - 1
        f = L.high_order_convolution_transpose_layers if tr else L.high_order_convolution_layers
        m = h.lib(f"construct {name}", lambda: f(name, **kw))
        y = h.lib(f"forward {name}", lambda: m(x))
        sz = [(q + k - 1) if tr else (q - k + 1) for q in x.shape[2:]]
        h.fact(tuple(y.shape) == (B, cout, *sz) and bool(torch.isfinite(y).all()), f"{name} has the requested channels")
    h.cover.add("name " + name)


def c22_names(h):
    """values of the layers obtained by name (TraceLayers)"""
    from high_order_layers_torch.layers import high_order_fc_layers
    from nets import lin_stage, switch
    import fc

    r = h.rng
    a = r.random()
    if a < 0.2:
        return unknown(h)
    if a < 0.5:
        return widths(h)
    if a < 0.65:
        name = r.choice(["baseline", "baseline_relu"])
        inn, out = r.randint(1, 4), r.randint(1, 4)
        kw = dict(in_features=inn, out_features=out)
        if r.random() < 0.7:
            kw.update(n=r.randint(2, 5), segments=r.randint(1, 5))
        m = h.lib("construct", lambda: high_order_fc_layers(name, **kw))
        ls = linears(m)
        h.fact(len(ls) == 1 and tuple(ls[0].weight.shape) == (out, inn), f"{name} is one linear map of the requested widths")
        if len(ls) != 1:
            return
        st = [lin_stage(h, ls[0])] + ([{"op": "relu"}] if name == "baseline_relu" else [])
        h.cover.add("values " + name)
        return probe(Net(h, st, m), inn, (1, 1))
    if a < 0.75:
        return switch(h)
    kind, comb = r.choice(list(KIND_TYPE))
    L = Layer(h, kind, r.randint(2, 5), r.choice([1, 2, 3, 5]), r.randint(1, 2 if comb == "prod" else 3), r.randint(1, 3),
              comb=comb)
    L.set(L.rand_f(deg=r.choice([1, 2])), r.choice([1, 2]))
    D = L.pick_D(cap=32)
    L.fwd([[L.grid(D) for _ in range(L.inn)] for _ in range(3)], D)


def settle(h, model, x):
    """materialise lazy parts and make every batch normalisation halve its input"""
    h.lib("first evaluation", lambda: model(x))
    bns = [m for m in model.modules() if isinstance(m, nn.modules.batchnorm._BatchNorm)]
    for m in bns:
        with torch.no_grad():
            m.running_mean.zero_()
            m.running_var.fill_(4.0 - m.eps)
            if m.weight is not None:
                m.weight.fill_(1.0)
                m.bias.zero_()
    model.eval()
    return len(bns)


def conf(d, r):
    from omegaconf import OmegaConf

    c = OmegaConf.create(d)
    if r.random() < 0.5:
        OmegaConf.set_struct(c, True)
    return c


def high_order_cfg(h, c, norm):
    n = c["n"]
    net = dict(model_type="high_order", layer_type=c["t"], normalize=norm, n=n[1], n_in=n[0], n_hidden=n[1], n_out=n[2],
               input=dict(width=c["inw"], segments=c["s"][0]), output=dict(width=c["outw"], segments=c["s"][2]),
               hidden=dict(width=c["hw"], layers=c["hid"], segments=c["s"][1]))
    if len(set(n)) == 1 and h.rng.random() < 0.5:
        net.update(n_in=None, n_hidden=None, n_out=None)
    return net


def wrapper(h, net, extra=None):
    """the model of a configuration, bare or inside a training wrapper"""
    from high_order_layers_torch.modules import ClassificationNet, RegressionNet, select_network

    r = h.rng
    cfg = conf(dict(net=net, data=dict(classes=3), optimizer=dict(name="adam", lr=0.01, scheduler="none"), **(extra or {})),
               r)
    w = r.randrange(3)
    if w == 0:
        m = h.lib("select_network", lambda: select_network(cfg))
        return m, m
    cls = ClassificationNet if w == 1 else RegressionNet
    m = h.lib("construct wrapper", lambda: cls(cfg))
    return m.model, m


def c22_mlp(h):
    r = h.rng
    norm = r.random() < 0.5
    if r.random() < 0.6:
        c = mlp_cfg(h, types=["continuous", "discontinuous", "polynomial", "continuous_prod", "switch_continuous"],
                    norm=False, scale=False)
        if c["kind"] == "poly":
            c["s"] = [r.randint(1, 3) for _ in range(3)]
        model, run = wrapper(h, high_order_cfg(h, c, norm))
        if c["kind"] == "poly":
            c["s"] = [1, 1, 1]
        k = settle(h, run, torch.rand(4, c["inw"]))
        h.fact(k == (c["hid"] + 1 if norm else 0), "normalisation between the layers iff configured")
        c["norm"] = "halve" if norm else None
        g = mlp_layers(h, c, model.model)
        fill(c, g)
        h.cover.add(f"selected high_order {c['t']} hid={c['hid']} norm={norm}")
        probe(Net(h, stages_of(c, g), run), c["inw"], c["half"])
        return
    # only the input layer is high order
    from nets import lin_stage

    t = r.choice(["continuous", "discontinuous", "polynomial"])
    kind, comb = TYPE_KIND[t]
    n, s = r.randint(2, 4), r.choice([1, 2, 3])
    inw, hw, outw, hid = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3), r.choice([1, 2, 3, 3, 5, 7])
    net = dict(model_type="high_order_input", layer_type=t, normalize=norm, n=n, input=dict(width=inw, segments=s),
               output=dict(width=outw), hidden=dict(width=hw, layers=hid))
    model, run = wrapper(h, net)
    k = settle(h, run, torch.rand(4, inw))
    h.fact(k == (hid + 1 if norm else 0), "normalisation between the layers iff configured")
    objs, ls = handles(model), linears(model)
    want = [(hw, hw)] * hid + [(outw, hw)]
    h.fact(len(objs) == 1 and [tuple(q.weight.shape) for q in ls] == want, "one high order layer, then linear ones")
    if len(objs) != 1 or [tuple(q.weight.shape) for q in ls] != want:
        return
    L = Layer(h, kind, n, s, inw, hw, obj=objs[0])
    L.set(L.rand_f(deg=1, cmax=2), r.choice([1, 2]))
    half = [{"op": "halve"}] if norm else []
    st = [{"op": "layer", "L": L}] + half
    for j, m in enumerate(ls):
        if j:
            st += half + [{"op": "relu"}]
        st.append(lin_stage(h, m))
    h.cover.add(f"selected high_order_input {t} hid={hid} norm={norm}")
    probe(Net(h, st, run), inw, (1, 1))


def c22_conv(h):
    """convolutional and tail-focus models: the convolutional part by value, then the linear head"""
    from cnets import Cfg, flat_of, plain, rand_imgs, run_net

    r = h.rng
    cfg = Cfg(h, 1)
    cfg.pad, cfg.rs, cfg.norm = 0, False, "halve"
    tail = r.random() < 0.5
    focus = [r.choice([1, 1, 2]) for _ in range(cfg.depth)]
    kw = cfg.kwargs()
    net = dict(model_type="high_order_tail_focus" if tail else "high_order_conv", normalize=r.random() < 0.5,
               layer_type=kw["layer_type"], n=kw["n"], channels=kw["channels"], segments=kw["segments"],
               kernel_size=kw["kernel_size"], stride=kw.get("stride", 1), periodicity=kw.get("periodicity"),
               out_features=r.randint(1, 4))
    if tail:
        net["focus"] = focus
    # a width that the stack can take
    base = 1
    for st, k in zip(reversed(cfg.st), reversed(cfg.k)):
        base = (max(base, 2) - 1) * st + k
    size = base + r.randint(1, 5)
    net["features"] = size
    model, run = wrapper(h, net)
    x = torch.rand(3, cfg.ch[0], size)
    k = settle(h, run, x)
    h.fact(k == cfg.depth, "one normalisation per convolution")
    lin = [m for m in model.modules() if isinstance(m, nn.Linear)]
    h.fact(len(lin) == 1 and lin[0].weight.shape[0] == net["out_features"], "one linear head of the configured width")
    cfg.asked = cfg.ch[1:]
    if len(lin) != 1:
        return
    Cs = cfg.layers(model)
    lv = cfg.levels(Cs)
    st = [s for q in lv for s in q]
    Layer.count += 1
    nid = Layer.count
    ws = [size]
    for C in Cs:
        ws.append(C.extent(1, ws[-1]))
    if tail:
        if not all(a >= f for a, f in zip(ws, focus)):
            return
        h.ev("tail", id=nid, levels=[[plain(s) for s in q] for q in lv], focus=focus, convs=[C.id for C in Cs])
    else:
        h.ev("net", id=nid, stages=[plain(s) for s in st])
    h.cover.add(f"selected {net['model_type']} depth={cfg.depth}")
    ends = [0]
    for q in lv:
        ends.append(ends[-1] + len(q))

    def finish(walked):
        if not tail:
            return flat_of(walked[-1])
        out = []
        for j, f in enumerate(focus):
            a, d, e = walked[ends[j]]
            out += [(v, d, e) for p in a for row in p for v in row[-f:]]
        return out + flat_of(walked[-1])

    # read the features through the head: one basis vector at a time would be
    # slow, so the head is replaced by the identity
    width = lin[0].weight.shape[1]
    with torch.no_grad():
        lin[0].weight = nn.Parameter(torch.eye(width))
        lin[0].bias = nn.Parameter(torch.zeros(width))
    for _ in range(4):
        D = r.choice([1, 2, 3, 4, 8])
        if run_net(h, nid, run, st, rand_imgs(cfg, [1, size], D, r.choice([1, 2])), D, finish, 1) is not None:
            break


class Lin(nn.Module):
    def __init__(self, W, f=1.0):
        super().__init__()
        self.weight = nn.Parameter(T(W))
        self.f = f

    def forward(self, x):
        return x.reshape(x.shape[0], -1) @ self.weight.t() * self.f


SMALL = dict(model_type="high_order", layer_type="continuous", normalize=False, n=2, n_in=None, n_hidden=None, n_out=None,
             input=dict(width=2, segments=2), output=dict(width=3, segments=2), hidden=dict(width=2, layers=1, segments=2))


def crowd(h, m, W, inn, out, logs, idx):
    """a large batch: the fraction of correct labels, the mean of the losses of its samples"""
    r = h.rng
    B = r.choice([20, 33, 50, 64, 100, 128, 200])
    rows = [row for row in ints(r, (4 * B, inn), 2)
            if sorted(a := (np.array(W) @ np.array(row)).tolist())[-1] > sorted(a)[-2]][:B]
    if len(rows) < 20:
        return
    lab = [r.randrange(out) for _ in rows]
    kind = r.choice(["train", "val", "test"])
    step = {"train": m.training_step, "val": m.validation_step, "test": m.test_step}[kind]
    x, y = T(rows), torch.tensor(lab)
    logs.clear()
    loss = h.lib("step", lambda: step((x, y), idx()))
    lg = f"{kind}_loss" in logs and f"{kind}_acc" in logs
    h.fact(lg, "the step logs loss and accuracy under its own name")
    if not lg:
        return
    acc, logged = float(logs[f"{kind}_acc"]), float(logs[f"{kind}_loss"])
    h.ev("acc", W=W, X=rows, lab=lab, acc=to_int(acc, 65536.0))
    one = h.lib("step", lambda: [float(step((x[b:b + 1], y[b:b + 1]), idx())) for b in range(len(rows))])
    h.ev("rows", A=[to_int([sum(one) / len(one)] * 2, 65536.0, 1 << 29)], B=[to_int([float(loss), logged], 65536.0, 1 << 29)],
         sc=65536, tol=300, what="the loss of a batch is the mean of the losses of its samples")
    h.cover.add(f"{kind} step classification crowd")


def steps(h):
    """training, validation and test steps with a stand-in model"""
    from high_order_layers_torch.modules import ClassificationNet, RegressionNet

    r = h.rng
    cls = r.random() < 0.5
    inn, out = r.choice([1, 2, 3, 3, 7]), r.choice([2, 3, 4, 4, 11])
    cfg = conf(dict(net=SMALL, data=dict(classes=out), optimizer=dict(name="adam", lr=0.01, scheduler="none")), r)
    m = h.lib("construct wrapper", lambda: (ClassificationNet if cls else RegressionNet)(cfg))
    W = ints(r, (out, inn), 2 if not cls else 1)
    m.model = Lin(W, LN2 if cls else 1.0)
    logs = {}
    m.log = lambda name, value, *a, **k: logs.__setitem__(name, value)
    m.log_dict = lambda d, *a, **k: logs.update(d)
    idx = lambda: r.choice([0, 1, 2, 7, 99, 100, 512, 4097])
    if cls and r.random() < 0.3:
        crowd(h, m, W, inn, out, logs, idx)
    for _ in range(2):
        B = r.choice([1, 2, 3, 5] if cls else [1, 2, 4, 20, 70])
        X = ints(r, (B, inn), 2 if cls else 3)
        kind = r.choice(["train", "val", "test"])
        step = {"train": m.training_step, "val": m.validation_step, "test": m.test_step}[kind]
        logs.clear()
        for p in m.parameters():
            p.grad = None
        x = T(X) if r.random() < 0.6 else T(X).reshape(B, 1, inn)
        h.cover.add(f"{kind} step {'classification' if cls else 'regression'} batch={B}")
        if cls:
            A = np.array(X) @ np.array(W).T
            # avoid ties of the largest score
            if any((row == row.max()).sum() > 1 for row in A):
                continue
            if np.prod([(2.0 ** (row - A.min())).sum() for row in A]) > 150000:
                continue
            lab = [r.randrange(out) for _ in range(B)]
            if r.random() < 0.4:
                lab = [int(np.argmax(row)) for row in A]
            y = torch.tensor(lab)
            y = y if r.random() < 0.5 else y.reshape(B, 1)
            loss = h.lib("step", lambda: step((x, y), idx()))
            f = lambda v: to_int(2.0 ** min(float(v) * B / LN2, 24.0), 256.0)
            lg = f"{kind}_loss" in logs and f"{kind}_acc" in logs
            h.fact(lg, "the step logs loss and accuracy under its own name")
            h.ev("ce", W=W, X=X, lab=lab, R=f(loss), logged=lg, RL=f(logs[f"{kind}_loss"]) if lg else 0,
                 acc=to_int(float(logs[f"{kind}_acc"]), 1024.0) if lg else 0)
        else:
            Y = ints(r, (B, out), 6)
            y = T(Y) if r.random() < 0.6 else T(Y).reshape(B, 1, out)
            loss = h.lib("step", lambda: step((x, y), idx()))
            h.lib("backward", lambda: loss.backward())
            g = m.model.weight.grad
            lg = f"{kind}_loss" in logs
            h.fact(lg, "the step logs its loss under its own name")
            h.ev("mse", W=W, X=X, B=Y, loss=to_int(float(loss), 1024.0, 1 << 29), logged=lg,
                 lossL=to_int(float(logs[f"{kind}_loss"]), 1024.0, 1 << 29) if lg else 0,
                 G=to_int(listof(g), 64.0, 1 << 24) if g is not None else [])


def optimizers(h):
    """the configured optimizer trains every parameter with the configured rate"""
    from high_order_layers_torch.modules import ClassificationNet, RegressionNet
    from lion_pytorch import Lion

    r = h.rng
    name = r.choice(["adam", "lion", "lion", "sgd", "Adam"])
    sched = r.choice(["plateau", "exponential", "none", None])
    lr, gamma, pat, fac = r.choice([1.0, 0.1, 0.001, 1e-4, 1e-6]), r.choice([0.05, 0.5, 0.9, 0.999]), r.choice([0, 2, 5, 50]), r.choice([0.01, 0.1, 0.5, 0.97])
    net = r.choice([SMALL, dict(SMALL, normalize=True), dict(SMALL, model_type="high_order_input"),
                    dict(SMALL, hidden=dict(width=2, layers=r.choice([5, 20, 45]), segments=2))])
    cfg = conf(dict(net=net, data=dict(classes=3),
                    optimizer=dict(name=name, lr=lr, scheduler=sched, gamma=gamma, patience=pat, factor=fac)), r)
    m = h.lib("construct wrapper", lambda: r.choice([ClassificationNet, RegressionNet])(cfg))
    if r.random() < 0.5:
        # a model with parameters of every rank
        m.model = nn.Sequential(nn.Conv2d(1, 2, 2), nn.BatchNorm2d(2), nn.Flatten(), nn.PReLU(1), nn.Linear(2, 3))
        m.model.gain = nn.Parameter(torch.tensor(1.0))
    h.cover.add(f"optimizer {name} {sched}")
    if name not in ("adam", "lion"):
        try:
            m.configure_optimizers()
            h.fact(False, "an unknown optimizer is rejected")
        except ValueError:
            h.fact(True, "an unknown optimizer is rejected")
        except Exception:
            h.fact(False, "an unknown optimizer is rejected with ValueError")
        return
    res = h.lib("configure_optimizers", m.configure_optimizers)
    if sched in ("plateau", "exponential"):
        ok = isinstance(res, (tuple, list)) and len(res) == 2 and len(res[0]) == 1 and len(res[1]) == 1
        h.fact(ok, "optimizer with its scheduler")
        if not ok:
            return
        opt, sd = res[0][0], res[1][0]
        s = sd["scheduler"] if isinstance(sd, dict) else sd
        S = torch.optim.lr_scheduler
        if sched == "plateau":
            h.fact(isinstance(s, S.ReduceLROnPlateau) and s.patience == pat and abs(s.factor - fac) < 1e-9
                   and sd.get("reduce_on_plateau") is True, "plateau scheduler as configured")
            h.fact(sd.get("monitor") == "train_loss", "the scheduler watches the training loss")
            ref = torch.optim.SGD([nn.Parameter(torch.zeros(1))], lr=lr)
            rs = S.ReduceLROnPlateau(ref, patience=pat, factor=fac)
            ok, loss, down = True, 1.0, r.choice([0.0, 1e-5, 1e-3, 0.1])
            for _ in range(3 * pat + 6):
                loss *= 1 - r.choice([0, down, down, -down])
                h.lib("scheduler step", lambda: s.step(loss))
                rs.step(loss)
                now = ref.param_groups[0]["lr"]
                ok = ok and all(abs(g["lr"] - now) <= 1e-6 * lr for g in opt.param_groups)
            h.fact(ok, "the rate drops when the loss stalls as configured")
            for g in opt.param_groups:
                g["lr"] = lr
        else:
            h.fact(isinstance(s, S.ExponentialLR) and abs(s.gamma - gamma) < 1e-9, "exponential scheduler as configured")
        h.fact(s.optimizer is opt, "the scheduler drives the optimizer")
    else:
        opt = res
    h.fact(isinstance(opt, torch.optim.Adam if name == "adam" else Lion), "optimizer of the configured kind")
    got = [id(p) for g in opt.param_groups for p in g["params"]]
    h.fact(sorted(got) == sorted(id(p) for p in m.parameters()), "the optimizer trains every parameter once")
    h.fact(all(abs(g["lr"] - lr) < 1e-12 for g in opt.param_groups), "learning rate as configured")
    like = type(opt)([nn.Parameter(torch.zeros(1))], lr=lr).param_groups[0]
    h.fact(all(g[k] == v for g in opt.param_groups for k, v in like.items() if k not in ("params", "initial_lr")),
           "the other settings are the optimizer's own")


def c22_model(h):
    from high_order_layers_torch.modules import select_network

    r = h.rng
    a = r.random()
    if a < 0.1:
        bad = r.choice(["", "high", "HIGH_ORDER", "high_order_", "mlp", "conv"])
        cfg = conf(dict(net=dict(SMALL, model_type=bad)), r)
        refused(h, lambda: select_network(cfg), ["high_order", "high_order_input", "high_order_conv",
                                                 "high_order_tail_focus"], "an unknown model type")
    elif a < 0.75:
        steps(h)
    else:
        optimizers(h)
