"""Histories on fully connected layers: C02, C03, C04, C07 (layers), C15."""
import math

import numpy as np
import torch

import pp
from c01 import SEGS, batch, helpers, observe, rand_layer
from core import listof, to_int
from lay import ask, HALVES, Layer, layouts


def put_weights(L, W):
    """arbitrary real weights; the layer's abstract function is then unknown"""
    w = torch.tensor(W, dtype=torch.float32)
    L.new_unit()

    def put():
        with torch.no_grad():
            L.obj.w.copy_(w * L.u)

    L.h.lib("set weights", put, id=L.id)
    return w.double().numpy()


def node_probe(L, W, edges_only, rows):
    """inputs on nodes of the mesh, from the left, exactly, from the right"""
    h, r = L.h, L.h.rng
    X = pp.nodes(L.n)
    J, xs = [], []
    for _ in range(rows):
        row, xr = [], []
        for i in range(L.inn):
            k = r.randrange(L.s)
            m = r.choice([0, L.n - 1]) if edges_only else r.randrange(L.n)
            side = r.choice([-1, 0, 1]) if m in (0, L.n - 1) else 0
            if L.n == 1:
                # a constant per segment: any point inside it is its node
                side, m = 0, 0
            x = -L.half + L.half * (2 * k + 1 + X[m]) / L.s
            if side:
                x += side * L.half * 4e-6
            row.append([k, m, side])
            xr.append(x)
        J.append(row)
        xs.append(xr)
    xf = np.array(xs)
    sz, err = np.zeros(len(J)), np.zeros(len(J))
    for d in (-8e-6, 0, 8e-6):
        V, S, E, sl, leb = pp.link_info(W, L.kind, L.n, L.s, L.half, None, xf + d * L.half)
        e = (E + sl * L.half * 6e-6).sum(-1) + pp.EPS * 2 * L.inn * S.sum(-1)
        sz = np.maximum(sz, S.sum(-1).max(0))
        err = np.maximum(err, e.max(0))
    keep = [b for b in range(len(J)) if err[b] < 0.015]
    if not keep:
        return
    sc = 1 << 20
    while sc * sz[keep].max() > 2 ** 29:
        sc //= 2
    x = layouts(r, torch.tensor(xf[keep] * L.ux, dtype=torch.float32))
    y = h.lib("forward", lambda: ask(h.rng, L.obj, x), id=L.id) / L.u
    h.ev("node", id=L.id, J=[J[b] for b in keep], W=to_int(W.tolist(), sc), Y=to_int(listof(y), sc), sc=sc,
         tol=int(math.ceil(err[keep].max() * sc)) + L.inn + 1)


def rand_weights(h, shape, mag):
    g = np.random.default_rng(h.rng.getrandbits(48))
    return g.uniform(-mag, mag, size=shape)


def c02(h):
    r = h.rng
    for _ in range(r.choice([1, 2, 3])):
        L = rand_layer(h, kinds=("cont", "cont", "disc"), maxn=10, maxw=4)
        K = L.obj.w.shape[-1]
        W = put_weights(L, rand_weights(h, (L.out, L.inn, K), r.choice([0.5, 1.0, 3.0])))
        node_probe(L, W, True, 10)
        if r.random() < 0.4:
            # neighbour's weights must not leak: rewrite one segment only
            k = r.randrange(L.s)
            st = L.n - 1 if L.kind == "cont" else L.n
            W2 = W.copy()
            W2[:, :, k * st:k * st + L.n] = rand_weights(h, (L.out, L.inn, L.n), 2.0)
            W = put_weights(L, W2)
            node_probe(L, W, True, 8)
        if r.random() < 0.5:
            # values close to the edges, from the exact function
            L.set(L.rand_f(deg=2), 1)
            D = L.fs * r.choice([16, 64])
            e = L.edges(D)
            rows = [[r.choice(e) + r.choice([-1, 0, 1]) if r.random() < 0.8 else L.grid(D) for _ in range(L.inn)]
                    for _ in range(6)]
            if e and L.csum() * L.inn * (D * L.hn / L.fs + 2) ** L.deg < 2 ** 28:
                L.fwd(rows, D)


def c01_nodes(h):
    """arbitrary weights, inputs on the nodes of the mesh"""
    r = h.rng
    for _ in range(2):
        L = rand_layer(h, kinds=("poly", "cont", "disc"), maxn=10, maxw=4)
        W = put_weights(L, rand_weights(h, tuple(L.obj.w.shape), r.choice([0.5, 1.0, 3.0])))
        node_probe(L, W, False, 10)


# -- gradients ------------------------------------------------------------------
def folded(L, v, D):
    """numerator after reflection, times hd; None at a turning point"""
    x = v * L.hd
    if L.pn:
        P = L.pn * L.hd * D // L.pd
        m = (x + P // 2) % (2 * P)
        if m % P == 0:
            return None
        x = (2 * P - m if m > P else m) - P // 2
    return x


def interior(L, D, size):
    """rows whose coordinates avoid the edges (none when the grid has only edges)"""
    U = D * L.hn
    ok = lambda v: (lambda x: x is not None and ((L.s * (x + U)) % (2 * U) != 0 or not -U < x < U))(folded(L, v, D))
    lim = 1.3 if not L.pn else L.h.rng.choice([1, 2, 4]) * L.period / L.half

    def pick():
        for _ in range(300):
            v = L.grid(D, -lim, lim)
            if ok(v):
                return v
        return None

    rows = [[pick() for _ in range(L.inn)] for _ in range(size)]
    return [] if any(v is None for row in rows for v in row) else rows


def grads(L, rows=None, double=False):
    h, r = L.h, L.h.rng
    D = L.pick_D(cap=32, tmax=max(1.0, (L.period / 2 / L.half) * L.s + 1) if L.pn else 1.0)
    X = rows or interior(L, D, r.choice([1, 1, 2, 4, max(1, min(40, 300 // (L.inn * L.out * L.n)))]))
    if not X:
        return
    prod = L.comb == "prod"
    cot = [[r.randint(-3, 3) for _ in range(L.out)] for _ in X]
    x = torch.tensor(np.array(X, dtype=float) / D * L.ux, dtype=torch.float32)
    x = layouts(r, x, allow_grad=False).requires_grad_(True)
    uc = 2.0 ** r.randint(-14, 14) if L.units and r.random() < 0.3 else 1.0
    c = torch.tensor(cot, dtype=torch.float32) * uc
    obj = L.obj

    def run():
        obj.zero_grad()
        if double:
            # two backward passes accumulate
            (obj(x) * c).sum().backward(retain_graph=True)
            obj.w.grad = None
            x.grad = None
            a = len(X) // 2
            for part in (slice(0, a), slice(a, len(X))):
                if part.start != part.stop:
                    (obj(x[part]) * c[part]).sum().backward()
        else:
            (obj(x) * c).sum().backward()
        # constants do not depend on x at all: autograd then leaves None
        return obj.w.grad.clone(), torch.zeros(x.shape) if x.grad is None else x.grad.clone()

    gw, gx = h.lib("backward", run, id=L.id)
    gw, gx = gw / uc, gx / uc * (L.ux / L.u)
    obj.w.grad = None
    # weight gradient tested against a function
    fs = L.fs
    g = [[pp.rand_func(r, L.kind, L.n, fs, r.choice([0, 1, 2]), 2) for _ in range(L.inn)] for _ in range(L.out)]
    gd = 1
    deg = pp.layer_deg(g)
    H = L.loc_h(D, fs)
    oden = (L.d * L.loc_h(D) ** L.deg) ** (L.inn - 1) if prod else 1
    den = gd * H ** deg * oden
    Wg = pp.all_weights(g, gd, L.kind, L.n, L.s)
    ok = tuple(gw.shape) == Wg.shape
    V, S, E, sl, leb = pp.link_info(Wg, L.kind, L.n, L.s, L.half, L.period, np.array(X, dtype=float) / D)
    ca = np.abs(np.array(cot, dtype=float)).T[:, :, None]
    O = OE = 0.0
    if prod:        # the other factors: size and relative error
        _, fS, fE, _, _ = pp.link_info(L.W, L.kind, L.n, L.s, L.half, L.period, np.array(X, dtype=float) / D)
        O = np.prod(1 + fS, axis=-1, keepdims=True) / (1 + fS)
        OE = (fE / (1 + fS)).sum(-1, keepdims=True) + pp.EPS * 4 * L.inn
        E, S = (E + S * OE) * O, S * O
    err = float((ca * E).sum(1).max()) * 2 + 1e-6
    size = float((ca * S).sum(1).max()) + 1
    M = int(min(2 ** 29 / (size * den), max(1, 2 ** 20 / den)))
    csum = max(sum(abs(v) for v in c_) for fo in g for fi in fo for c_ in fi)
    x64 = pp.fold(np.array(X, dtype=float) / D, L.period)
    tmax = max(1.0, float(np.abs(x64).max() / L.half) * L.s + 1)
    omax = float(np.max(O)) * oden if prod else 1.0
    if M >= 1 and err < 0.01 and csum * 3 * len(X) * (H * tmax) ** deg * omax < 2 ** 29 and ok:
        sc = den * M
        Y = (gw.double().numpy() * Wg).sum(-1)
        nz = [[int(a) for a in q] for q in torch.nonzero(gw).tolist()]
        h.ev("grad", id=L.id, X=X, D=D, cot=cot, g=g, gd=gd, Y=to_int(Y.tolist(), sc), nz=nz, sc=sc,
             tol=int(err * sc) + 2)
    elif not ok:
        h.fact(False, "weight gradient has the shape of the weights")
    # input gradient
    if True:
        N = max(L.deg - 1, 0)
        H = L.loc_h(D)
        den = L.d * H ** N * L.hn * oden
        k, t = pp.seg_t(x64, L.half, L.s)
        st = {"poly": 0, "cont": L.n - 1, "disc": L.n}[L.kind]
        idx = (k * st)[..., None] + np.arange(L.n)
        w = np.abs(L.W[:, np.arange(L.inn)[None, :, None], idx])
        A = np.einsum("bin,obin->obi", pp.basis_dabs(L.n, t), w) * L.s / L.half
        hh = 1e-3
        A2 = np.einsum("bin,obin->obi", np.abs(pp.basis_dabs(L.n, t + hh) - pp.basis_dabs(L.n, t - hh)) / (2 * hh), w)
        A2 = A2 * L.s / L.half
        dx = 1 + np.abs(x64) / L.half
        if L.pn:
            dx = dx + 2 * (np.abs(np.array(X, dtype=float) / D) + 2 * L.period) / L.half
        dx = dx[None] * (4 * L.s + 4)
        E = pp.EPS * (4 * (L.n + 4) * A + A2 * dx * 3)
        if prod:
            E, A = (E + A * OE) * O, A * O
        err = float((ca * E).sum(0).max()) + 1e-6
        size = float((ca * A).sum(0).max()) + 1
        M = int(min(2 ** 29 / (size * den), max(1, 2 ** 20 / den)))
        lim = L.csum() * max(1, L.deg) * 3 * L.out * (H * tmax) ** N * L.fs * L.hd * omax
        if M >= 1 and err < 0.015 and lim < 2 ** 29:
            sc = den * M
            h.ev("xgrad", id=L.id, X=X, D=D, cot=cot, Y=to_int(listof(gx), sc), sc=sc, tol=int(err * sc) + 2)


def poke(L):
    """a weight is moved a lot; rows that do not use it must not notice"""
    h, r = L.h, L.h.rng
    D = L.pick_D(cap=32)
    X = batch(L, D, r.choice([2, 4]), -1.2, 1.2)
    sc_ = L.scale(X, D)
    if sc_ is None:
        return
    sc, tol, keep = sc_
    X = [X[b] for b in keep]
    o, i, k = r.randrange(L.out), r.randrange(L.inn), r.randrange(L.obj.w.shape[-1])
    old = L.obj.w.detach().clone()
    x = torch.tensor(np.array(X, dtype=float) / D * L.ux, dtype=torch.float32)

    def run():
        with torch.no_grad():
            L.obj.w[o, i, k] += L.u * r.choice([100.0, -37.0, 1000.0, 1e8, 1e20])
        return L.obj(x)

    y = h.lib("forward", run, id=L.id)
    h.ev("poke", id=L.id, X=X, D=D, o=o, i=i, k=k, Y=to_int(listof(y / L.u), sc), sc=sc, tol=tol)
    with torch.no_grad():
        L.obj.w.copy_(old)


def c03(h):
    r = h.rng
    for _ in range(r.choice([1, 2])):
        m = r.random()
        if m < 0.2:
            L = rand_layer(h, kinds=("poly", "cont", "disc"), comb="prod", maxn=5, maxw=3, maxs=8)
            L.set(L.rand_f(deg=r.choice([1, 1, 2]), cmax=1), 1)
        else:
            half = r.choice(HALVES)
            per = r.choice([(2 * half[0], half[1]), (half[0], half[1]), (4 * half[0], half[1])]) if m < 0.4 else None
            L = rand_layer(h, kinds=("poly", "cont", "disc"), maxn=8, maxw=4, maxs=16, half=half, per=per)
            L.set(L.rand_f(deg=r.choice([None, 1, 2, 3] if not per else [1, 2])), r.choice([1, 2]))
        for _ in range(3):
            a = r.random()
            if a < 0.5:
                grads(L, double=r.random() < 0.3)
            elif a < 0.85:
                poke(L)
            else:
                observe(L, outside=0)
        observe(L, inside=3, outside=0)


# -- periodicity ------------------------------------------------------------------
PERIODS = [(2, 1), (1, 1), (4, 1), (3, 1), (1, 2), (3, 2), (6, 1), (5, 2)]


def fold_event(h):
    from high_order_layers_torch.utils import make_periodic

    r = h.rng
    pn, pd = r.choice(PERIODS)
    D = 2 * pd * r.choice([1, 2, 4, 5])
    P = pn * D // pd
    reach = r.choice([2, 5, 20, 300])
    X = [r.randint(-reach * P, reach * P) for _ in range(8)] + [P // 2, -P // 2, 3 * P // 2, -3 * P // 2, 0, 2 * P]
    x = torch.tensor([v / D for v in X], dtype=torch.float32)
    shape = r.choice([(14,), (7, 2), (2, 7), (1, 14, 1), (2, 1, 7, 1)])
    x = x.reshape(shape)
    y = h.lib("make_periodic", lambda: make_periodic(layouts(r, x), pn / pd))
    sc = D * max(1, (1 << 20) // D)
    ok = tuple(y.shape) == shape
    h.ev("fold", X=X, D=D, P=P, Y=to_int(listof(y.flatten()), sc) if ok else [], sc=sc,
         tol=int(sc * pp.EPS * 8 * (reach + 2) * pn / pd) + 2)


def prod_layer(h, per=False):
    """the plain product layer"""
    from high_order_layers_torch.layers import high_order_fc_layers

    r = h.rng
    inn, out = r.randint(1, 4), r.randint(1, 4)
    bias = r.random() < 0.6
    an, ad = r.choice([(1, 1), (1, 1), (0, 1), (1, 2), (3, 4), (2, 1)])
    kw = dict(in_features=inn, out_features=out)
    if not bias or r.random() < 0.5:
        kw["bias"] = bias
    if (an, ad) != (1, 1):
        kw["alpha"] = an / ad
    pn, pd = (0, 1)
    if per:
        pn, pd = r.choice(PERIODS)
        kw["periodicity"] = pn / pd
    if r.random() < 0.3:
        kw["n"] = 3
        kw["segments"] = 2
    L = h.lib("construct", lambda: high_order_fc_layers("product", **kw))
    h.cover.add(f"product in={inn} bias={bias} alpha={an}/{ad} periodic={per}")
    wd, bd = r.choice([1, 2, 4]), r.choice([1, 2])
    D = 2 * pd * r.choice([1, 2]) if per else r.choice([1, 2, 4, 5])
    whole = not per and ad == 1 and r.random() < 0.4       # whole numbers: large products are exact too
    if whole:
        wd = bd = D = 1
    while (wd * D) ** inn * ad * bd > 2 ** 20 and wd > 1:
        wd //= 2
    while (wd * D) ** inn * ad * bd > 2 ** 20 and not per and D > 1:
        D = max(1, D // 2)
    W = [[r.randint(-3, 3) for _ in range(inn)] for _ in range(out)]
    b = [r.randint(-3, 3) if bias else 0 for _ in range(out)]
    lim = 3 * D * (3 if per else 1) if not whole else r.choice([3, 6, 9] if inn < 4 else [3, 6])
    X = [[r.randint(-lim, lim) for _ in range(inn)] for _ in range(r.choice([1, 2, 5]))]
    if whole and r.random() < 0.5:      # large factors
        W = [[r.choice([-3, -2, 2, 3]) for _ in range(inn)] for _ in range(out)]
        X = [[r.choice([-lim, lim, 1 - lim, lim - 1]) for _ in range(inn)] for _ in range(4)]
    den = (wd * D) ** inn * ad * bd
    xm = (pn / pd / 2 if per else lim / D)
    big = (1 + 3 / wd * xm) ** inn + abs(1 - an / ad) * 3 / wd * xm * inn + 3
    if den * big > 2 ** 29 or big > (3e5 if whole else 2000):
        return

    def put():
        with torch.no_grad():
            L.weight.copy_(torch.tensor(W, dtype=torch.float32) / wd)
            if bias:
                L.bias.copy_(torch.tensor(b, dtype=torch.float32) / bd)

    h.fact(bias == (L.bias is not None), "product layer has a bias exactly when asked")
    h.lib("set weights", put)
    x = layouts(r, torch.tensor(X, dtype=torch.float32) / D)
    y = h.lib("forward", lambda: ask(r, L, x))
    sc = den * max(1, min(int(2 ** 29 / (den * big)), (1 << 20) // den))
    tol = int(sc * pp.EPS * 40 * big) + 2
    if whole:
        tol = min(tol, sc // 50)
    h.ev("prod", W=W, wd=wd, b=b, bd=bd, an=an, ad=ad, X=X, D=D, P=pn * D // pd, Y=to_int(listof(y), sc), sc=sc,
         tol=tol)


def embedded(h, per=True):
    """the embedding constructors return the corresponding layers"""
    import high_order_layers_torch.positional_embeddings as E

    r = h.rng
    kind = r.choice(["cont", "disc"])
    n, s, half = r.randint(2, 5), r.choice([1, 2, 3, 5]), r.choice(HALVES)
    per = r.choice(PERIODS + [(2 * half[0], half[1])]) if per and r.random() < 0.8 else None
    inn, out = r.randint(1, 3), r.randint(1, 6)
    kw = dict(n=n, in_features=inn, out_features=out, segments=s)
    if half != (1, 1) or r.random() < 0.5:
        kw["length"] = 2 * half[0] / half[1]
    if per:
        kw["periodicity"] = per[0] / per[1]
    mag = r.choice([(1, 1), (3, 1), (1, 2)])
    if mag != (1, 1):
        kw["weight_magnitude"] = mag[0] / mag[1]
    f = E.PiecewisePolynomialEmbedding if kind == "cont" else E.PiecewiseDiscontinuousPolynomialEmbedding
    L = Layer(h, kind, n, s, inn, out, half=half, per=per, build=lambda: f(**kw))
    w = L.obj.w.detach()
    top = mag[0] / mag[1] / inn
    h.fact(bool((w >= 0).all() and (w <= top * 1.00001).all()) and (inn * out < 9 or bool((w > top / 16).any())),
           "an embedding starts within the requested magnitude")
    L.set(L.rand_f(deg=r.choice([None, 1, 2]), cmax=2), 1)
    D = L.pick_D(tmax=max(1.0, (L.period / 2 / L.half) * L.s + 1) if per else 1.0, cap=16)
    p = L.period / L.half if per else 1
    for reach in (0.5, 2.0, 5.0) if per else (1.0,):
        L.fwd([[L.grid(D, -reach * p, reach * p) for _ in range(L.inn)] for _ in range(5)], D)


def c04(h):
    r = h.rng
    fold_event(h)
    if r.random() < 0.25:
        prod_layer(h, per=True)
    comb = r.choice(["sum", "sum", "prod"])
    half = r.choice(HALVES)
    if r.random() < 0.15:
        return embedded(h)
    if r.random() < 0.4:
        per = (2 * half[0], half[1])
    else:
        per = r.choice(PERIODS)
    L = rand_layer(h, comb=comb, maxn=5, maxs=6, maxw=2 if comb == "prod" else 3, half=half, per=per)
    dg = r.choice([1, 2]) if comb == "prod" else r.choice([None, 1, 2, 3])
    L.set(L.rand_f(deg=dg, cmax=2), 1)
    D = L.pick_D(tmax=max(1.0, (L.period / 2 / L.half) * L.s + 1), cap=16 if comb == "sum" else 4)
    p = L.period / L.half
    for reach in (0.5, 2.0, r.choice([4.0, 9.0, 33.0, 120.0, 500.0])):
        L.fwd([[L.grid(D, -reach * p, reach * p) for _ in range(L.inn)] for _ in range(5)], D)
    if L.kind != "poly" and L.comb == "sum":
        helpers(L)
    # partners: x, x + 2p, x - 2p, p - x and 3p - x meet the same value
    P = L.pn * D // L.pd
    if P * L.pd == L.pn * D:
        x0 = [L.grid(D, -p, p) for _ in range(L.inn)]
        m = r.choice([r.randint(1, 5), r.randint(6, 400)])
        L.fwd([x0, [v + 2 * m * P for v in x0], [v - 2 * m * P for v in x0], [P - v for v in x0],
               [(2 * m + 1) * P - v for v in x0], [-(2 * m - 1) * P - v for v in x0]], D)


# -- smoothing ----------------------------------------------------------------------
FACTORS = [(1, 2), (1, 4), (1, 1), (0, 1), (3, 4), (1, 3), (1, 5), (1, 8), (1, 10), (3, 2), (2, 1), (-1, 2)]


def smooth_call(L, fa, fb):
    from high_order_layers_torch.PolynomialLayers import smooth_discontinuous_layer

    L.h.lib("smooth", lambda: smooth_discontinuous_layer(L.obj, factor=fa / fb)
            if L.h.rng.random() < 0.5 else smooth_discontinuous_layer(L.obj, fa / fb), id=L.id)


def smooth_weights(L, fa, fb, W, call):
    """arbitrary weights before and after"""
    h = L.h
    V0 = put_weights(L, W)
    call()
    sc = 1 << 16
    h.ev("smoothw", id=L.id, fa=fa, fb=fb, W=to_int(V0.tolist(), sc), V=to_int(listof(L.obj.w / L.u), sc), sc=sc, tol=8)


def smooth_numbers(L, fa, fb):
    """mirror of the weights for tolerances; the specification has its own"""
    W = L.W.copy()
    n, s = L.n, L.s
    for k in range(s - 1):
        a, b = W[:, :, k * n + n - 1].copy(), W[:, :, (k + 1) * n].copy()
        j = (a - b) * fa / fb / 2
        W[:, :, k * n + n - 1] = a - j
        W[:, :, (k + 1) * n] = b + j
    L.W = W
    if s > 1:
        L.deg = n - 1
        L.d *= 4 * fb * (n - 1)


def c07(h):
    r = h.rng
    if r.random() < 0.5:
        L = rand_layer(h, kinds=("disc",), maxn=9, minn=2, maxw=4)
        for _ in range(2):
            fa, fb = r.choice(FACTORS)
            W = rand_weights(h, tuple(L.obj.w.shape), r.choice([1.0, 4.0]))
            smooth_weights(L, fa, fb, W, lambda: smooth_call(L, fa, fb))
        return
    comb = r.choice(["sum", "sum", "sum", "prod"])
    L = rand_layer(h, kinds=("disc",), comb=comb, maxn=5, minn=2, maxs=6, maxw=2 if comb == "prod" else 3)
    other = rand_layer(h, kinds=("disc", "cont"), maxn=4, maxs=4, maxw=3)
    other.set(other.rand_f(deg=2), 1)
    L.set(L.rand_f(deg=r.choice([1, 2, None]), cmax=2, fs=L.s), 1)
    for _ in range(r.choice([1, 1, 2])):
        fa, fb = r.choice(FACTORS[:5])
        if L.d * 4 * fb * (L.n - 1) * 8 ** (L.n - 1) * 12 > 2 ** 27 or (comb == "prod" and L.d > 1):
            break
        smooth_call(L, fa, fb)
        # coefficients grow by the new denominator
        grow = 4 * fb * (L.n - 1)
        cs = L.csum() * grow * 3 + 4 * fa * 2 ** (L.n - 1) * L.csum()
        smooth_numbers(L, fa, fb)
        h.ev("smooth", id=L.id, fa=fa, fb=fb)
        m = L.inn if comb == "prod" else 1
        for Hb in (8, 4, 2, 1):
            D = L.s * Hb
            if (L.d * (Hb * L.hn) ** L.deg) ** m < 2 ** 24 and cs * L.inn * (Hb * L.hn * 1.5) ** L.deg < 2 ** 29:
                if m > 1 and (cs * (Hb * L.hn) ** L.deg * 2) ** m > 2 ** 29:
                    continue
                L.fwd(batch(L, D, 6), D)
                break
        # keep csum meaningful for a second round
        L.f = [[[[cs]] for _ in range(L.inn)] for _ in range(L.out)]
        if L.s > 1:
            L.fs = L.s
    observe(other, inside=3, outside=0)


def many_factors(h):
    """long products (signs and zeros included) of constants and lines; many outputs"""
    r = h.rng
    kind = r.choice(["poly", "cont", "disc"])
    n, s = r.randint(2, 5), r.choice([1, 1, 2, 3, 5])
    inn, out = (r.choice([4, 5, 6, 8, 10, 14, 20, 33, 50]), r.randint(1, 3)) if r.random() < 0.8 else (r.randint(1, 3), r.choice([5, 9, 17, 33]))
    L = Layer(h, kind, n, s, inn, out, comb="prod", half=r.choice([(1, 1), (1, 1), (2, 1)]))
    s = L.s
    deg = 1 if inn <= 6 and s == 1 and r.random() < 0.6 else 0
    # factors 1 + c: mostly -1, 1, 2 and -2, sometimes 0
    f = [[[[r.choice([-2, -2, 0, 1, -3, -1 if r.random() < 0.1 else 0]) if q == 0 else
            r.choice([0, 0, 0, 1, -1]) for q in range(deg + 1)]
           for _ in range(L.s)] for _ in range(inn)] for _ in range(out)]
    if inn > 8:
        # a long product of signs, a few factors 2 and -2
        f = [[[[r.choice([-2, 0])]] for _ in range(inn)] for _ in range(out)]
        for row in f:
            for i in r.sample(range(inn), r.randint(0, 6)):
                row[i] = [[r.choice([1, -3])]]
            if r.random() < 0.15:
                row[r.randrange(inn)] = [[-1]]
        f = [[[list(g[0]) for _ in range(L.s)] for g in row] for row in f]
        L.const = True
    elif kind == "cont" or deg or inn > 6:
        f = [[[list(g[0]) for _ in g] for g in row] for row in f]
    L.set(f, 1)
    for cap in (4, 2, 1):
        D = L.pick_D(cap=cap)
        if L.scale(batch(L, D, 4), D):
            break
    L.fwd(batch(L, D, 4), D)


def c15(h):
    r = h.rng
    if r.random() < 0.4:
        prod_layer(h)
        prod_layer(h)
    for _ in range(2):
        L = rand_layer(h, comb="prod", maxn=6, maxs=8, maxw=r.choice([2, 3, 3]))
        L.set(L.rand_f(deg=r.choice([0, 1, 1, 2, 3]), cmax=r.choice([1, 2, 3])), r.choice([1, 2]))
        for cap in (16, 8, 4, 2, 1):
            D = L.pick_D(cap=cap)
            if L.scale(batch(L, D, 4), D):
                break
        L.fwd(batch(L, D, r.choice([1, 4])), D)
        if r.random() < 0.4:
            L.fwd(batch(L, D, 2, -1.5, 1.5), D)
        if r.random() < 0.5:
            many_factors(h)
        # arbitrary weights, one input: the product unit is the link itself
        if r.random() < 0.4:
            k = r.choice(["poly", "cont", "disc"])
            n, s = r.randint(2, 8), r.choice([1, 2, 3, 8])
            A = Layer(h, k, n, s, 1, r.randint(1, 3), comb="prod", half=r.choice(HALVES))
            A.set(A.rand_f(deg=None, cmax=2), 1)
            D = A.pick_D(cap=16)
            A.fwd(batch(A, D, 5), D)
