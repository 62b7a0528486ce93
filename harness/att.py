"""C19: attention."""
import math

import numpy as np
import torch

from core import Abort, listof, to_int
from lay import layouts

LN2 = math.log(2)
BIGK = 16.0


def ints(r, shape, m, zero=0.2):
    if not shape:
        return 0 if r.random() < zero else r.randint(-m, m)
    return [ints(r, shape[1:], m, zero) for _ in range(shape[0])]


def T(v, f=1.0):
    return torch.tensor(np.array(v, dtype=float) * f, dtype=torch.float32)


def put(h, p, v, f=1.0):
    t = T(v, f)
    if tuple(p.shape) != tuple(t.shape):
        h.fact(False, f"parameter of shape {tuple(t.shape)} expected, found {tuple(p.shape)}")
        raise Abort()
    with torch.no_grad():
        p.copy_(t)


def masks(r, b, q, k, forms):
    form = r.choice(forms)
    if form == "none":
        return None
    rows = q if form == "full" else 1
    dens = r.choice([0.4, 0.4, 0.9])
    M = [[[1 if r.random() < dens else 0 for _ in range(k)] for _ in range(rows)] for _ in range(b)]
    for mb in M:
        for row in mb:
            if all(row):
                row[r.randrange(k)] = 0
    return M


def call(h, kind, heads, S, fn, amap, cmap, vs=1.0, **par):
    """fn() -> (context, attention or None); amap/cmap bring them to [b][h][q][k] / [b][q][d]"""
    c, a = h.lib("forward", fn)
    has = a is not None
    try:
        C = to_int(listof(cmap(c) / vs), 1024.0, 1 << 27)
    except Exception:
        C = []
    A = []
    if has:
        try:
            A = to_int(listof(amap(a)), 65536.0, 1 << 27)
        except Exception:
            A = []
    h.cover.add(f"{kind} heads={heads} b={len(S)} q={len(S[0]['Q'])} k={len(S[0]['V'])} mask={S[0].get('mask') != []}")
    h.ev("att", kind=kind, heads=heads, S=S, C=C, A=A, hasA=has, **par)
    return c, a


def dims(r, b=(1, 2, 3), q=(1, 2, 4), k=(1, 2, 5)):
    """batch, queries, keys; now and then one of them beyond the usual"""
    B, Q, K = r.choice(b), r.choice(q), r.choice(k)
    m = r.random()
    if m < 0.12:
        B = r.choice([4, 5, 7])
    elif m < 0.19 and len(q) > 1:
        Q = r.choice([5, 8, 11])
    elif m < 0.29:
        K = r.choice([8, 9, 12, 17, 17, 30, 41])
        B, Q = (min(B, 2), min(Q, 2)) if K > 20 else (B, Q)
    return B, Q, K


def unit(r):
    return 2.0 ** r.randint(-12, 12) if r.random() < 0.3 else 1.0


def samples(**kw):
    b = len(kw["Q"])
    return [{k: (v[i] if v is not None else []) for k, v in kw.items()} for i in range(b)]


def sdp(h):
    from high_order_layers_torch.attentions import ScaledDotProductAttention

    r = h.rng
    b, q, k = dims(r)
    d, dv = r.choice([1, 2, 3, 4, 9]), r.choice([1, 2, 3])
    m = h.lib("construct", lambda: ScaledDotProductAttention(d))
    for _ in range(2):
        big = r.choice([2, 2, 2, 8])
        Q, K, V = ints(r, (b, q, d), big), ints(r, (b, k, d), big), ints(r, (b, k, dv), r.choice([5, 200]))
        vu = unit(r)
        M = masks(r, b, q, k, ["none", "full"])
        tq, tk, tv = layouts(r, T(Q)), layouts(r, T(K, LN2 * math.sqrt(d))), layouts(r, T(V, vu))
        mt = None if M is None else torch.tensor(M, dtype=torch.bool)
        call(h, "sdp", 1, samples(Q=Q, K=K, V=V, mask=M), lambda: m(tq, tk, tv, mt) if mt is not None or r.random() < .5
             else m(tq, tk, tv), lambda a: a.unsqueeze(1), lambda c: c, vs=vu)


def dot(h):
    from high_order_layers_torch.attentions import DotProductAttention

    r = h.rng
    b, q, k = dims(r)
    d = r.choice([1, 2, 3, 6])
    m = h.lib("construct", lambda: DotProductAttention(d))
    Q, V = ints(r, (b, q, d), r.choice([2, 2, 20])), ints(r, (b, k, d), 4)
    vu = unit(r)
    tq, tv = layouts(r, T(Q, LN2 / vu)), layouts(r, T(V, vu))
    call(h, "dot", 1, samples(Q=Q, K=V, V=V, mask=None), lambda: m(tq, tv), lambda a: a.unsqueeze(1), lambda c: c, vs=vu)


def mha(h):
    from high_order_layers_torch.attentions import MultiHeadAttention

    r = h.rng
    heads, dh = r.choice([1, 2, 3]), r.choice([1, 2, 4])
    b, q, k = dims(r, q=(1, 2, 3), k=(1, 2, 4))
    if max(b, q, k) < 5 and r.random() < 0.1:
        heads, dh = r.choice([(4, 2), (6, 1), (5, 2), (8, 1)])
    d = heads * dh
    vu = unit(r)
    m = h.lib("construct", lambda: MultiHeadAttention(d, heads))
    Wq, Wk, Wv = (ints(r, (d, d), 1, 0.5) for _ in range(3))
    bq, bk, bv = (ints(r, (d,), 1) for _ in range(3))
    f = LN2 * math.sqrt(dh)
    put(h, m.query_proj.weight, Wq), put(h, m.query_proj.bias, bq)
    put(h, m.key_proj.weight, Wk, f), put(h, m.key_proj.bias, bk, f)
    put(h, m.value_proj.weight, Wv), put(h, m.value_proj.bias, bv, vu)
    for _ in range(2):
        Q, K, V = ints(r, (b, q, d), r.choice([1, 1, 4])), ints(r, (b, k, d), 2), ints(r, (b, k, d), 9)
        M = masks(r, b, q, k, ["none", "full", "full"])
        mt = None if M is None else torch.tensor(M, dtype=torch.bool)
        tq, tk, tv = layouts(r, T(Q)), layouts(r, T(K)), layouts(r, T(V, vu))
        call(h, "mha", heads, samples(Q=Q, K=K, V=V, mask=M), lambda: m(tq, tk, tv, mt) if mt is not None
             else m(tq, tk, tv), lambda a: a.reshape(heads, b, q, k).transpose(0, 1) if a.dim() == 3 else a, lambda c: c, vs=vu,
             dh=dh, Wq=Wq, Wk=Wk, Wv=Wv, bq=bq, bk=bk, bv=bv)


def rel(h):
    from high_order_layers_torch.attentions import RelativeMultiHeadAttention

    r = h.rng
    heads, dh = r.choice([1, 2, 3]), r.choice([1, 2])
    d = heads * dh
    b, n = r.choice([1, 2, 3, 1, 2, 3, 5]), r.choice([1, 2, 3, 4, 1, 2, 3, 4, 7, 9])
    vu = unit(r)
    m = h.lib("construct", lambda: RelativeMultiHeadAttention(d, heads, 0.0) if r.random() < 0.5 else
              RelativeMultiHeadAttention(d, heads).eval())
    Wq, Wk, Wv, Wp, Wo = (ints(r, (d, d), 1, 0.5) for _ in range(5))
    bq, bk, bv, bo = (ints(r, (d,), 1) for _ in range(4))
    ub, vb = ints(r, (heads, dh), 1), ints(r, (heads, dh), 1)
    f = LN2 * math.sqrt(d)
    put(h, m.query_proj.weight, Wq), put(h, m.query_proj.bias, bq)
    put(h, m.key_proj.weight, Wk, f), put(h, m.key_proj.bias, bk, f)
    put(h, m.value_proj.weight, Wv), put(h, m.value_proj.bias, bv, vu)
    put(h, m.pos_proj.weight, Wp, f)
    put(h, m.out_proj.weight, Wo), put(h, m.out_proj.bias, bo, vu)
    put(h, m.u_bias, ub), put(h, m.v_bias, vb)
    for _ in range(2):
        Q, K, V, P = ints(r, (b, n, d), r.choice([1, 1, 8])), ints(r, (b, n, d), 1), ints(r, (b, n, d), 9), ints(r, (b, n, d), 1)
        M = masks(r, b, n, n, ["none", "full", "row"])
        mt = None if M is None else torch.tensor(M, dtype=torch.bool)
        tq, tk, tv, tp = (layouts(r, T(z, vu if z is V else 1.0)) for z in (Q, K, V, P))
        call(h, "rel", heads, samples(Q=Q, K=K, V=V, P=P, mask=M), lambda: (m(tq, tk, tv, tp, mt), None), None, lambda c: c, vs=vu,
             dh=dh, Wq=Wq, Wk=Wk, Wv=Wv, Wp=Wp, Wo=Wo, bq=bq, bk=bk, bv=bv, bo=bo, ub=ub, vb=vb)


def add(h):
    from high_order_layers_torch.attentions import AdditiveAttention

    r = h.rng
    b, _, k = dims(r, q=(1,))
    d, vu = r.choice([1, 2, 3, 6]), unit(r)
    m = h.lib("construct", lambda: AdditiveAttention(d))
    Wq, Wk, bb, ws, bs = ints(r, (d, d), 1, .4), ints(r, (d, d), 1, .4), ints(r, (d,), 1), ints(r, (d,), 3), r.randint(-2, 2)
    put(h, m.query_proj.weight, Wq, BIGK), put(h, m.key_proj.weight, Wk, BIGK), put(h, m.bias, bb, BIGK)
    put(h, m.score_proj.weight, [ws], LN2), put(h, m.score_proj.bias, [bs], LN2)
    Q, K, V = ints(r, (b, 1, d), 2), ints(r, (b, k, d), 2), ints(r, (b, k, d), 60)
    tq, tk, tv = layouts(r, T(Q)), layouts(r, T(K)), layouts(r, T(V, vu))
    call(h, "add", 1, samples(Q=Q, K=K, V=V, mask=None), lambda: m(tq, tk, tv),
         lambda a: a.reshape(b, 1, 1, k) if a.dim() == 2 else a, lambda c: c, vs=vu, Wq=Wq, Wk=Wk, b=bb, ws=ws, bs=bs)


def chain(h, m, mk, b, steps, what):
    """decoding with the returned weights fed back: a sample alone behaves as in the batch"""
    r = h.rng
    seq = [mk() for _ in range(steps)]

    def run(rows):
        last, out = None, []
        for q, v in seq:
            with torch.no_grad():
                c, last = m(q[rows], v[rows], last)
            out.append(c.reshape(len(rows), -1))
        return torch.cat(out, 1)

    full = h.lib("forward", lambda: run(list(range(b))))
    for i in range(b):
        one = h.lib("forward", lambda: run([i]))
        h.ev("near", A=to_int(full[i].tolist(), 4096.0), B=to_int(one[0].tolist(), 4096.0), sc=4096, tol=8, what=what)


def loc(h):
    from high_order_layers_torch.attentions import LocationAwareAttention

    r = h.rng
    b, _, k = dims(r, q=(1,))
    d = r.choice([1, 2, 3, 6])
    smooth = r.random() < 0.5
    m = h.lib("construct", lambda: LocationAwareAttention(d, smooth) if not smooth or r.random() < 0.5
              else LocationAwareAttention(d))
    if r.random() < 0.25 and b > 1:
        return chain(h, m, lambda: (torch.randn(b, 1, d), torch.randn(b, k, d)), b, 3,
                     "samples decode independently: location aware")
    Wq, Wv, bb, ws, bs = ints(r, (d, d), 1, .4), ints(r, (d, d), 1, .4), ints(r, (d,), 1), ints(r, (d,), 2), r.randint(-1, 1)
    Wc, bc = ints(r, (d, 1, 3), 1), ints(r, (d,), 1)
    put(h, m.query_proj.weight, Wq, BIGK), put(h, m.value_proj.weight, Wv, BIGK), put(h, m.bias, bb, BIGK)
    put(h, m.score_proj.weight, [ws], LN2), put(h, m.score_proj.bias, [bs], LN2)
    put(h, m.conv1d.weight, Wc, BIGK), put(h, m.conv1d.bias, bc, BIGK)
    Q, V = ints(r, (b, 1, d), 2), ints(r, (b, k, d), 3)
    Ls = None if r.random() < 0.3 else ints(r, (b, k), 2)
    tq, tv = layouts(r, T(Q)), layouts(r, T(V))
    tl = None if Ls is None else T(Ls)
    S = samples(Q=Q, K=V, V=V, mask=None)
    for i in range(b):
        S[i]["L"] = [[0] * k if Ls is None else Ls[i]]
    call(h, "loc", 1, S, lambda: m(tq, tv, tl), lambda a: a.reshape(b, 1, 1, k) if a.dim() == 2 else a,
         lambda c: c.unsqueeze(1), Wq=Wq, Wv=Wv, b=bb, ws=ws, bs=bs, Wc=Wc, bc=bc, smooth=smooth)


def mhl(h):
    from high_order_layers_torch.attentions import MultiHeadLocationAwareAttention

    r = h.rng
    heads, dh = r.choice([1, 2, 3]), r.choice([1, 2])
    b, _, k = dims(r, q=(1,))
    d, ch = heads * dh, r.choice([1, 3, 6])
    m = h.lib("construct", lambda: MultiHeadLocationAwareAttention(d, heads, ch))
    if r.random() < 0.25 and b > 1:
        return chain(h, m, lambda: (torch.randn(b, 1, d), torch.randn(b, k, d)), b, 3,
                     "samples decode independently: multi-head location aware")
    Wq, Wv, bb = ints(r, (d, d), 1, .6), ints(r, (d, d), 1, .5), ints(r, (dh,), 1, .7)
    ws, bs = ints(r, (dh,), 2), r.randint(-1, 1)
    Wc, bc, Wl = ints(r, (ch, heads, 3), 1), ints(r, (ch,), 1), ints(r, (dh, ch), 1)
    put(h, m.query_proj.weight, Wq, BIGK), put(h, m.value_proj.weight, Wv, BIGK), put(h, m.bias, bb, BIGK)
    put(h, m.score_proj.weight, [ws], LN2), put(h, m.score_proj.bias, [bs], LN2)
    put(h, m.conv1d.weight, Wc), put(h, m.conv1d.bias, bc), put(h, m.loc_proj.weight, Wl, BIGK)
    Q, V = ints(r, (b, 1, d), 1, .5), ints(r, (b, k, d), 3)
    Ls = None if r.random() < 0.3 else ints(r, (b, heads, k), 2)
    tq, tv = layouts(r, T(Q)), layouts(r, T(V))
    tl = None if Ls is None else T(Ls)
    S = samples(Q=Q, K=V, V=V, mask=None)
    for i in range(b):
        S[i]["L"] = [[0] * k] * heads if Ls is None else Ls[i]
    call(h, "mhl", heads, S, lambda: m(tq, tv, tl), lambda a: a.unsqueeze(2), lambda c: c, vs=BIGK,
         dh=dh, Wq=Wq, Wv=Wv, b=bb, ws=ws, bs=bs, Wc=Wc, bc=bc, Wl=Wl)


def cust(h):
    from high_order_layers_torch.attentions import CustomizingAttention

    r = h.rng
    heads, dh = r.choice([1, 2, 3]), r.choice([1, 2, 4])
    b, q, k = dims(r, q=(1, 1, 2))
    d, ch = heads * dh, r.choice([1, 3, 6])
    m = h.lib("construct", lambda: CustomizingAttention(d, heads, ch))
    if r.random() < 0.3:
        return chain(h, m, lambda: (torch.randn(b, 1, d), torch.randn(b, k, d)), b, 3,
                     "samples decode independently: customizing")
    Wq, Wv, bq, bb = ints(r, (d, d), 1, .5), ints(r, (d, d), 1, .5), ints(r, (d,), 1, .6), ints(r, (d,), 1)
    Wc, bc, Wl = ints(r, (ch, 1, 3), 1), ints(r, (ch,), 1), ints(r, (dh, ch), 1)
    f = LN2 * math.sqrt(dh)
    put(h, m.query_proj.weight, Wq, f), put(h, m.query_proj.bias, bq, f)
    put(h, m.value_proj.weight, Wv), put(h, m.bias, bb)
    put(h, m.conv1d.weight, Wc), put(h, m.conv1d.bias, bc), put(h, m.loc_proj.weight, Wl)
    Q, V = ints(r, (b, q, d), 1, .4), ints(r, (b, k, d), 2)
    tq, tv = layouts(r, T(Q)), layouts(r, T(V))
    S = samples(Q=Q, K=V, V=V, mask=None)
    Ls = None if r.random() < 0.4 or ORDER is None else ints(r, (b, heads, k), 1)
    tl = None
    if Ls is not None:
        tl = T(Ls)
        tl = (tl if ORDER == "batch" else tl.transpose(0, 1)).reshape(b * heads, k)
    for i in range(b):
        S[i]["L"] = [[0] * k] * heads if Ls is None else Ls[i]
    order = (lambda a: a.reshape(b, heads, q, k)) if ORDER == "batch" else \
        (lambda a: a.reshape(heads, b, q, k).transpose(0, 1))
    call(h, "cust", heads, S, lambda: m(tq, tv, tl), order, lambda c: c,
         dh=dh, Wq=Wq, Wv=Wv, b=bb, bq=bq, Wc=Wc, bc=bc, Wl=Wl)


ORDER = "batch"
ALL = [sdp, dot, mha, mha, rel, rel, add, loc, mhl, cust, cust]


def c19(h):
    h.rng.choice(ALL)(h)


# -- every mask of MCMask ------------------------------------------------------------
def mask_run(r, part, kind):
    """several masks, as samples of one batch"""
    from high_order_layers_torch import attentions as A

    b = {k: [v for q in part for v in q[k]] for k in part[0]}
    s = torch.tensor(b["s"]).double()                    # b h i k
    w = torch.tensor(b["w"]).double()
    v = torch.tensor(b["v"]).double()                    # b h k
    NB, NH, NQ, NK = s.shape
    w = w / w.sum(-1, keepdim=True)
    flat = lambda t: t.permute(0, 2, 1, 3).reshape(NB, t.shape[2], -1)       # heads side by side
    Q = flat(s)
    K = flat(torch.eye(NK).double().expand(NB, NH, NK, NK))
    # the values, ones, and a marker of the position
    V = torch.zeros(NB, NH, NK, NK).double()
    V[..., 0], V[..., 1] = v, 1.0
    if NK > 2:
        V[..., 2] = torch.arange(NK).double() ** 2
    want = torch.einsum("bhik,bhkd->bhid", w, V)
    V = flat(V)
    mask = torch.tensor(b["mask"]).bool()
    d = NH * NK
    f = lambda t: t.float()

    def same(m, names):
        with torch.no_grad():
            for q in names:
                p = getattr(m, q)
                p.weight.copy_(torch.eye(d))
                if p.bias is not None:
                    p.bias.zero_()

    tol = 2e-5 * (1 + float(V.abs().max()))
    with torch.no_grad():
        if kind == "sdp":
            h = r.randrange(NH)
            m = A.ScaledDotProductAttention(NK)
            cut = lambda t: t[..., h * NK:(h + 1) * NK]
            c, a = m(f(cut(Q) * LN2 * math.sqrt(NK)), f(cut(K)), f(cut(V)), mask)
            a, c, ww, want = a.double(), c.double(), w[:, h], want[:, h]
        elif kind == "mha":
            m = A.MultiHeadAttention(d, NH)
            same(m, ["query_proj", "key_proj", "value_proj"])
            c, a = m(f(Q * LN2 * math.sqrt(NK)), f(K), f(V), mask)
            a = a.double().reshape(NH, NB, NQ, NK).transpose(0, 1)
            c, ww, want = c.double(), w, flat(want)
        else:
            m = A.RelativeMultiHeadAttention(d, NH, dropout_p=0.0)
            same(m, ["query_proj", "key_proj", "value_proj", "out_proj"])
            m.u_bias.zero_()
            m.v_bias.zero_()
            m.pos_proj.weight.zero_()
            c = m(f(Q * LN2 * math.sqrt(d)), f(K), f(V), torch.randn(NB, NK, d), mask)
            a, ww, c, want = None, None, c.double(), flat(want)
    if c.shape != want.shape or not bool(((c - want).abs() <= tol).all()):
        return "context"
    if a is not None:
        if a.shape != ww.shape or not bool(((a - ww).abs() <= 1e-5).all()):
            return "weights"
        if not bool((a[ww == 0] == 0).all()):
            return "weight of a masked position"
    return None


def mask_replay(c, rows):
    import random

    from core import SEED

    r = random.Random(f"{SEED}/mask")
    rows = list(rows)
    for kind in ("sdp", "mha", "rel"):
        r.shuffle(rows)
        pos = 0
        while pos < len(rows):
            part = rows[pos:pos + r.choice([1, 2, 3, 8, 20])]
            pos += len(part)
            try:
                bad = mask_run(r, part, kind)
            except Exception as ex:
                bad = f"raised {type(ex).__name__}: {ex}"
            if bad:
                c.replayed(False, f"masks enumerated by TLC: {bad} of {kind}",
                           {"kind": kind, "masks": [q["mask"] for q in part]})
                return
    c.count_replayed(3 * len(rows))
