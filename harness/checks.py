from core import SEED, TIER, MachineryError

Q = TIER != "thorough"


def k(quick, thorough):
    return quick if Q else thorough


def walk_rows(c):
    rows = c.emitted(c.model("MCWalk", k("MCWalk", "MCWalkDeep"), expect_states=k(10752, 88440)))
    if len(rows) != k(72, 240):
        raise MachineryError("MCWalk emitted %d walks" % len(rows))
    return rows


def walks(c, fold):
    """mesh and folding: every walk of the model, replayed"""
    import walk

    walk.replay(c, walk_rows(c), fold)


def c01(c):
    import c01 as m
    import fc

    walks(c, False)
    c.traces("TraceLayers", m.history, k(800, 12000))
    c.traces("TraceLayers", fc.c01_nodes, k(500, 6000), tag="n")


def c02(c):
    import fc

    import conv
    import walk

    walk.each(c, walk_rows(c), walk.edges_one)
    c.traces("TraceLayers", fc.c02, k(800, 12000))
    c.traces("TraceConv", conv.c02_conv, k(300, 4000), tag="c")


def c03(c):
    import fc

    import conv
    import walk

    walk.each(c, walk_rows(c), walk.support_one)
    c.traces("TraceLayers", fc.c03, k(700, 12000))
    c.traces("TraceConv", conv.c03_conv, k(300, 5000), tag="c")


def c04(c):
    import fc

    import conv
    import nets

    walks(c, True)
    c.traces("TraceLayers", fc.c04, k(600, 12000))
    c.traces("TraceLayers", nets.c04_net, k(160, 4000), tag="n")
    c.traces("TraceConv", conv.c04_conv, k(300, 4000), tag="c")


def mechanism(c, cfg, expect, what):
    """weights under refinement and smoothing: every behaviour of the model, replayed"""
    import refine

    rows = c.emitted(c.model("MCRefine", cfg, expect_states=expect))
    if len(rows) * 3 < expect:
        raise MachineryError("MCRefine emitted %d behaviours" % len(rows))
    refine.replay(c, rows, what, k(48, 400))


def c05(c):
    import nets

    mechanism(c, k("MCRaise", "MCRaiseDeep"), k(7416, 22240), "raising the order")
    c.traces("TraceLayers", nets.c05, k(600, 8000))


def c06(c):
    import nets

    mechanism(c, k("MCSplit", "MCSplitDeep"), k(15615, 30324), "refinement")
    c.traces("TraceLayers", nets.c06, k(600, 8000))


def c07(c):
    import fc
    import nets

    mechanism(c, k("MCSmooth", "MCSmoothDeep"), k(20880, 20000), "smoothing")
    c.traces("TraceLayers", fc.c07, k(800, 12000))
    c.traces("TraceLayers", nets.c07_net, k(240, 3000), tag="n")


def c08(c):
    import init

    c.traces("TraceInit", init.c08, k(800, 8000))


def windows(c, kinds):
    """which input a kernel entry reads: every table of the model, replayed"""
    import slide

    rows = c.emitted(c.model("MCSlide", k("MCSlide", "MCSlideDeep"), expect_states=k(5157, 50925)))
    if len(rows) != k(1080, 8924):
        raise MachineryError("MCSlide emitted %d tables" % len(rows))
    slide.replay(c, rows, kinds)


def c09(c):
    import conv

    windows(c, ("poly", "cont", "disc"))
    c.traces("TraceConv", conv.c09, k(900, 8000))


def c10(c):
    import nets

    import small

    rows = c.emitted(c.model("MCNet", "MCNet", expect_states=1665))
    if len(rows) != 150:
        raise MachineryError("MCNet emitted %d networks" % len(rows))
    small.networks(c, rows, k(2, 30))
    c.traces("TraceLayers", nets.c10, k(900, 12000))


def c11(c):
    import objs

    objs.ROWS = c.emitted(c.model("MCObjects", "MCObjects", expect_states=1800))
    if len(objs.ROWS) != 1710:
        raise MachineryError("MCObjects emitted %d histories" % len(objs.ROWS))
    import random

    random.Random(SEED).shuffle(objs.ROWS)
    if not Q:
        c.model("MCObjects", "MCObjectsDeep", expect_states=29000)
    n = k(1710, 8550)
    c.traces("TraceObj", objs.c11_replay, n, tag="r")
    c.count_replayed(0)
    c.cov["model_behaviours_replayed"] = min(n, len(objs.ROWS))
    c.traces("TraceObj", objs.c11_static, k(400, 8000), tag="s")


def c12(c):
    import lion

    out = c.model("MCLion", "MCLion", expect_states=3000)
    rows = c.emitted(out)
    if len(rows) != 24 * 125:
        raise MachineryError("MCLion emitted %d behaviours" % len(rows))
    lion.replay(c, rows)
    if not Q:
        c.model("MCLion", "MCLionDeep", expect_states=90000)
    c.traces("TraceLion", lion.c12, k(500, 10000))


def c13(c):
    import parts

    import small

    rows = c.emitted(c.model("MCNorm", k("MCNorm", "MCNormDeep"), expect_states=k(780, 19607)))
    if len(rows) != k(775, 19600):
        raise MachineryError("MCNorm emitted %d samples" % len(rows))
    small.norms(c, rows)
    c.traces("TraceParts", parts.c13, k(1500, 16000))


def c14(c):
    import objs

    objs.ROWS = c.emitted(c.model("MCCalls", "MCCallsEmit", expect_states=83000))
    n = k(700, 12000)
    objs.warm()
    c.traces("TraceObj", objs.c14, n)
    c.cov["model_behaviours_replayed"] = n


def c15(c):
    import fc

    import small

    rows = c.emitted(c.model("MCProd", k("MCProd", "MCProdDeep"), expect_states=k(2801, 16105)))
    if len(rows) != k(2800, 16104):
        raise MachineryError("MCProd emitted %d sequences" % len(rows))
    small.products(c, rows, k(2, 3))
    c.traces("TraceLayers", fc.c15, k(1000, 12000))


def c16(c):
    import parts

    import walk

    walk.nd_replay(c, walk_rows(c), k(120, 1500))
    c.traces("TraceParts", parts.c16, k(1000, 12000))


def c17(c):
    import fc
    import parts

    windows(c, ("fourier",))
    c.traces("TraceParts", parts.c17, k(900, 12000))
    c.traces("TraceLayers", fc.embedded, k(60, 1200), tag="e")


def c18(c):
    import parts

    c.traces("TraceParts", parts.c18, k(900, 12000))


def c19(c):
    import att

    rows = c.emitted(c.model("MCMask", k("MCMask", "MCMaskDeep"), expect_states=k(5201, 6990)))
    if len(rows) != k(2401, 3375):
        raise MachineryError("MCMask emitted %d masks" % len(rows))
    att.mask_replay(c, rows)
    c.traces("TraceAtt", att.c19, k(1200, 12000))


def c20(c):
    import cnets

    import slide

    rows = c.emitted(c.model("MCTail", k("MCTail", "MCTailDeep"), expect_states=k(16958, 84618)))
    if len(rows) != k(8476, 42303):
        raise MachineryError("MCTail emitted %d runs" % len(rows))
    slide.tails(c, rows, k(1500, 20000))
    c.traces("TraceConv", cnets.c20, k(900, 8000))


def c21(c):
    import model

    c.model("MCVae", "MCVae", expect_states=20000)
    c.traces("TraceModel", model.c21, k(700, 8000))


def c22(c):
    import model
    import parts

    c.traces("TraceLayers", model.c22_names, k(500, 8000))
    c.traces("TraceLayers", model.c22_mlp, k(200, 4000), tag="m")
    c.traces("TraceConv", model.c22_conv, k(120, 2000), tag="c")
    c.traces("TraceModel", model.c22_model, k(240, 4000), tag="w")


CHECKS = {n.upper(): f for n, f in list(globals().items()) if n[0] == "c" and n[1:].isdigit()}
