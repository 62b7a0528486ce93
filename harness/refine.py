"""Behaviours of MCRefine (weights under refinement and smoothing) in real layers."""
import random

import torch

from core import SEED


def build(kind, comb, n, s, inn, out, length):
    from high_order_layers_torch.layers import high_order_fc_layers

    name = {"cont": "continuous", "disc": "discontinuous"}[kind] + ("_prod" if comb == "prod" else "")
    return high_order_fc_layers(name, n=n, segments=s, in_features=inn, out_features=out, length=length)


def step(r, cur, e, comb, inn, out, length):
    from high_order_layers_torch import PolynomialLayers as P

    if e["op"] == "smooth":
        P.smooth_discontinuous_layer(cur, e["a"] / e["b"])
        return cur
    new = build(e["kind"], comb, e["n"], e["s"], inn, out, length)
    if e["op"] == "raise":
        P.interpolate_polynomial_layer(cur, new)
    elif r.random() < 0.5:
        P.refine_polynomial_layer(cur, new)
    else:
        cur.refine(new)
    return new


def replay(c, rows, what, cap):
    """rows that make the same moves run together, as links of one layer"""
    by = {}
    for row in rows:
        key = tuple((e["op"], e["a"], e["b"], e["kind"], e["n"], e["s"]) for e in row)
        by.setdefault(key, []).append(row)
    n = 0
    for q, (key, rs) in enumerate(sorted(by.items())):
        r = random.Random(f"{SEED}/{q}")
        r.shuffle(rs)
        rs = rs[:cap]
        pos = 0
        while pos < len(rs):
            inn = r.choice([1, 2, 3])
            out = min(max(1, (len(rs) - pos) // inn), r.choice([1, 4, 9]))
            inn = inn if pos + inn * out <= len(rs) else 1
            part = rs[pos:pos + inn * out]
            pos += len(part)
            comb, length = r.choice(["sum", "sum", "prod"]), r.choice([2.0, 2.0, 1.0, 3.0])
            grid = lambda t: torch.tensor([[v / row[t]["d"] for v in row[t]["w"]] for row in part]).reshape(out, inn, -1)
            try:
                cur = build(part[0][0]["kind"], comb, part[0][0]["n"], part[0][0]["s"], inn, out, length)
                with torch.no_grad():
                    cur.w.copy_(grid(0))
                for t in range(1, len(key)):
                    old, before = cur, cur.w.detach().clone()
                    cur = step(r, cur, part[0][t], comb, inn, out, length)
                    want, got = grid(t), cur.w.detach()
                    ok = got.shape == want.shape and bool((got - want).abs().max() < 2e-4 * (1 + float(want.abs().max())))
                    if not ok:
                        c.replayed(False, f"weights after {what} as enumerated by TLC", {"moves": key, "step": t,
                                   "rows": [row[t] for row in part[:3]]})
                        return
                    if cur is not old and not bool((old.w == before).all()):
                        c.replayed(False, "the source is not modified", {"moves": key, "step": t})
                        return
            except Exception as ex:
                c.replayed(False, f"{what} raised {type(ex).__name__}: {ex}", {"moves": key})
                return
            n += len(part)
    c.count_replayed(n)
