"""C12: the sparse optimizer."""
from fractions import Fraction as F

import torch

from core import Abort, listof, to_int

BETA = [F(0), F(1, 2), F(3, 4), F(7, 8), F(1), F(1, 4)]
LRS = [F(1, 2), F(1, 4), F(1, 8), F(1)]
WDS = [F(0), F(0), F(1, 2), F(1, 4), F(1)]


def q(f):
    return [f.numerator, f.denominator]


def settings(r):
    return dict(lr=r.choice(LRS), wd=r.choice(WDS), b1=r.choice(BETA), b2=r.choice(BETA))


def momentum(opt, p):
    """the running average kept for p, if it has been created"""
    st = opt.state.get(p, {})
    ts = [v for v in st.values() if torch.is_tensor(v) and v.shape == p.shape]
    return ts[0] if len(ts) == 1 else None


def sgn(x):
    return (x > 0) - (x < 0)


def c12(h):
    from high_order_layers_torch.sparse_optimizers.sparse_lion import SparseLion

    r = h.rng
    # everything but the parameters scales with the gradients: tiny and huge ones move as far as others
    unit = 2.0 ** r.choice([0, 0, 0, -30, -60, -100, 20, 60])
    h.cover.add(f"gradient unit {unit}")
    shapes = [r.choice([(3,), (2, 3), (1,), (2, 1, 3), (4, 2), (), (3, 5), (40,), (2, 2, 2, 2)]) for _ in range(r.choice([1, 2, 3, 4]))]
    ps, mine = [], []
    for k, sh in enumerate(shapes):
        num = torch.Size(sh).numel()
        v = [r.randint(-16, 16) for _ in range(num)]
        t = torch.tensor([x / 8 for x in v], dtype=torch.float32).reshape(sh)
        if len(sh) == 2 and r.random() < 0.3:
            t = t.t().contiguous().t()
        ps.append(torch.nn.Parameter(t))
        mine.append([(F(x, 8), F(0)) for x in v])
        h.ev("param", id=k + 1, p=v, d=8)
    # groups
    ids = list(range(len(ps)))
    ng = r.choice([1, 1, 2]) if len(ps) > 1 else 1
    parts = [ids] if ng == 1 else [ids[:len(ids) // 2], ids[len(ids) // 2:]]
    S = [settings(r) for _ in parts]
    base = settings(r)
    long = r.random() < 0.06
    if long:
        # rates that keep many steps exact
        for s in S:
            s.update(lr=F(1), wd=r.choice([F(0), F(1, 2), F(1)]), b2=r.choice([F(0), F(1, 2), F(1, 2), F(1)]))

    def announce():
        h.ev("groups", groups=[{"ids": [i + 1 for i in part],
                                "S": {"lr": q(s["lr"]), "wd": q(s["wd"]), "b1": q(s["b1"]), "b2": q(s["b2"])}}
                               for part, s in zip(parts, S)])

    if ng == 1 and r.random() < 0.5:
        s = S[0]
        opt = h.lib("construct", lambda: SparseLion(ps, lr=float(s["lr"]), betas=(float(s["b1"]), float(s["b2"])),
                                                    weight_decay=float(s["wd"])))
    else:
        opt = h.lib("construct", lambda: SparseLion(
            [dict(params=[ps[i] for i in part], lr=float(s["lr"]), betas=(float(s["b1"]), float(s["b2"])),
                  weight_decay=float(s["wd"])) for part, s in zip(parts, S)], lr=float(base["lr"])))
    announce()
    h.cover.add(f"groups={ng} params={len(ps)}")
    for step in range(r.choice([1, 2, 3, 4, 5]) if not long else 14):
        if r.random() < 0.25 and not long:
            g = r.randrange(len(parts))
            S[g]["lr"] = r.choice(LRS)
            opt.param_groups[g]["lr"] = float(S[g]["lr"])
            announce()
            h.cover.add("lr changed")
        if r.random() < 0.15:
            # someone else writes the parameter
            i = r.randrange(len(ps))
            v = [r.randint(-8, 8) for _ in mine[i]]
            with torch.no_grad():
                ps[i].copy_(torch.tensor(v, dtype=torch.float32).reshape(ps[i].shape) / 8)
            mine[i] = [(F(x, 8), m) for x, (_, m) in zip(v, mine[i])]
            h.ev("write", id=i + 1, p=v, d=8)
        G, nxt = [], []
        for i, p in enumerate(ps):
            if r.random() < 0.2:
                p.grad = None
                nxt.append(mine[i])
                h.cover.add("missing gradient")
                continue
            s = S[[k for k, part in enumerate(parts) if i in part][0]]
            zero = r.choice([0.0, 0.3, 0.6, 1.0 if r.random() < 0.2 else 0.3])
            gr = []
            for c in range(len(mine[i])):
                if r.random() < zero:
                    gr.append(0)
                elif r.random() < 0.2 and s["b1"] not in (0, 1):
                    # a tie: b1 m + (1 - b1) g = 0
                    want = -s["b1"] * mine[i][c][1] / (1 - s["b1"]) * 4
                    gr.append(int(want) if want.denominator == 1 and abs(want) < 64 else 1)
                    if want.denominator == 1 and want != 0:
                        h.cover.add("tie")
                else:
                    gr.append(r.choice([-5, -2, -1, 1, 2, 3, 7]))
            G.append({"id": i + 1, "g": gr})
            t = torch.tensor([x / 4 * unit for x in gr], dtype=torch.float32).reshape(p.shape)
            if len(p.shape) == 2 and r.random() < 0.3:
                t = t.t().contiguous().t()
            p.grad = t
            out = []
            for (pv, m), g0 in zip(mine[i], gr):
                g = F(g0, 4)
                if g == 0:
                    out.append((pv, m))
                    continue
                d = sgn(s["b1"] * m + (1 - s["b1"]) * g)
                out.append((pv * (1 - s["lr"] * s["wd"]) - s["lr"] * d, s["b2"] * m + (1 - s["b2"]) * g))
            nxt.append(out)
        # keep every number exactly representable in float32 and in TLC
        if any(v.denominator > 2 ** 16 or abs(v) > 60 or abs(v.numerator) > 2 ** 22 for o in nxt for c in o for v in c):
            break
        if r.random() < 0.3:
            loss = torch.tensor(3.25) if r.random() < 0.8 else None
            calls = []

            def closure():
                calls.append(torch.is_grad_enabled())
                return loss

            res = h.lib("step", lambda: opt.step(closure))
            h.fact(calls == [True] and res is loss, "the closure runs once, with gradients, and its loss is returned")
        else:
            res = h.lib("step", lambda: opt.step())
            h.fact(res is None, "a step without closure returns nothing")
        mine = nxt
        P = []
        for i, p in enumerate(ps):
            m = momentum(opt, p)
            P.append({"id": i + 1, "p": to_int(p.detach().flatten().tolist(), 2 ** 20, 1 << 27),
                      "m": [] if m is None else to_int((m.double() / unit).flatten().tolist(), 2 ** 20, 1 << 27)})
        h.ev("step", G=G, gd=4, P=P, k=20, tol=1)
        if r.random() < 0.15:
            # the values move to other memory, as when a model is moved or cast
            for p in ps:
                p.data = p.data.clone()
            h.cover.add("moved")
        if r.random() < 0.2:
            # checkpoint and resume with a new optimizer object
            sd = opt.state_dict()
            opt = h.lib("construct", lambda: SparseLion([dict(params=[ps[i] for i in part]) for part in parts]))
            h.lib("load_state_dict", lambda: opt.load_state_dict(sd))
            h.cover.add("resumed")


def replay(c, rows):
    """every history TLC enumerated, all of them at once in one tensor per setting"""
    from high_order_layers_torch.sparse_optimizers.sparse_lion import SparseLion

    by = {}
    for row in rows:
        S = row["S"]
        key = tuple(tuple(S[k]) for k in ("lr", "wd", "b1", "b2"))
        by.setdefault(key, []).append(row)
    n = 0
    for key, rs in sorted(by.items()):
        lr, wd, b1, b2 = (a / b for a, b in key)
        p = torch.nn.Parameter(torch.ones(len(rs)))
        try:
            opt = SparseLion([p], lr=lr, betas=(b1, b2), weight_decay=wd)
            for t in range(len(rs[0]["hist"])):
                p.grad = torch.tensor([row["hist"][t] / 2 for row in rs])
                opt.step()
        except Exception as ex:
            c.replayed(False, f"step raised {type(ex).__name__}", {"settings": key})
            continue
        m = momentum(opt, p)
        for i, row in enumerate(rs):
            n += 1
            ok = abs(float(p[i]) - row["p"][0] / row["p"][1]) < 1e-6
            okm = m is None or abs(float(m[i]) - row["m"][0] / row["m"][1]) < 1e-6
            if not (ok and okm):
                c.replayed(False, "optimizer history enumerated by TLC", {"row": row, "got": [float(p[i])]})
                break
    c.count_replayed(n)
