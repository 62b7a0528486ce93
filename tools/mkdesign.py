"""Rewrites the tables of DESIGN.md (between the T and S markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = [
("C01", "`PiecewisePoly`, `Layers` / `MCWalk`, `TraceLayers`", "72 walks over meshes (without a period 12) replayed into segment lookup, coordinate conversion and response of dense and convolution layers; weights of a drawn integer piecewise polynomial (or arbitrary node values observed at nodes only) written in five ways; forward inside, on, next to, far outside the mesh; single and double precision, whole rows of inputs at once, frozen weights, train/eval mode", "12 walks, 800 + 500 hist."),
("C02", "`Layers`, `Conv` / `MCWalk`, `TraceLayers`, `TraceConv`", "every edge every walk meets, on random weights; values at each edge and at its two float neighbours; one-sided values of discontinuous layers; pixels on edges for (transposed) convolutions", "72 walks, 800 + 300"),
("C03", "`Layers` / `MCWalk`, `TraceLayers`, `TraceConv` (`wgrad`, `xgrad`, `poke`)", "weights with a gradient at the steps of every walk: those of the walker's segment, each its basis polynomial, exact zeros elsewhere; gradients of weights and inputs against the derivative of the specified function for dense, product, periodic and convolution layers; single weights changed", "72 walks, 700 + 300"),
("C04", "`Fold` in `PiecewisePoly`, `Layers` / `MCWalk`, `TraceLayers`, `TraceConv`", "60 folded walks; folded argument for dense layers, product layers, convolutions and whole (deep) networks, inputs up to 500 periods away, periods equal to, shorter or longer than the domain", "60 walks, 600 + 160 + 300"),
("C05", "`Layers` (refine transitions) / `MCRefine` (MCRaise), `TraceLayers`", "every integer polynomial of the model raised through every pair of orders; order raised/lowered for layers, gated layers, networks, resnets; rejected mismatches; source frozen", "1008 + 600"),
("C06", "`Layers` (`Interp`) / `MCRefine` (MCSplit), `TraceLayers`", "every small function of the model split by every factor, chains of splits; segment splits by any factor and to non-multiples, networks; agreement at target nodes", "5697 + 600"),
("C07", "`Layers` (`Smooth`) / `MCRefine` (MCSmooth), `TraceLayers`", "every small discontinuous function smoothed with every factor, repeated; whole weight tensors before/after, networks mixing layer kinds", "4740 + 800 + 240"),
("C08", "`TraceInit`", "set of admissible initial states for dense, conv, multi-dimensional and linear initialisation; independence between links", "800"),
("C09", "`Conv` / `MCSlide`, `TraceConv`", "a window slid step by step: which input every kernel entry reads, 1080 tables replayed; all of stride, padding, padding mode, dilation, groups, output padding, rescale, periodicity, layouts", "1080 + 900"),
("C10", "`Layers` (`Stages`) / `MCNet`, `TraceLayers`", "all 150 assemblies of up to seven affine layers with normalisation and non-linearity, built twice with each of three network classes; MLP, residual, list, multi, low-order, transformed (rotated) networks, gated and summed layers, deep periodic networks, compared as exact compositions", "900 + 900"),
("C11", "`Objects` / `MCObjects`, `TraceObj`", "all 1710 histories of two instances under new/perturb/copy/save/load/restore to depth 3 (deep model 29k states in thorough) replayed on random objects (deep copies, pickled copies, assigned states); counts and gradients of fresh instances", "1710 + 400"),
("C12", "`Lion` / `MCLion`, `TraceLion`", "all 3000 optimiser behaviours of the finite model (two coordinates, five gradients, two groups) replayed on the optimiser with exact arithmetic; random long histories with groups, closures, state save/load, sparse gradients, reassigned data", "3000 + 500"),
("C13", "`Norms` / `MCNorm`, `TraceParts`", "every sample of 2-4 entries in -2..2 read entry by entry, replayed into 14 variants in several arrangements; every normalisation, axis, eps and shape against exact rational results", "10850 + 1500"),
("C14", "`Objects` / `MCCalls`, `TraceObj`", "pairs of call circumstances (selection x layout x mode x event, 113k states) printed by TLC and replayed on random objects, weights frozen now and then; inputs and weights compared bitwise, gradient mode and random generator left alone; the same evaluation in a process in which nothing happened before", "700"),
("C15", "`Layers` (prod) / `MCProd`, `TraceLayers`", "all 2800 sequences of up to four link values (inclusion-exclusion, order, zero and minus-one links) replayed into product layers (four alphas, bias) and product units of constants and lines; products of exact links, signs and zeros, up to 14 factors", "22400 + 1000"),
("C16", "`TensorPoly` / `MCWalk`, `TraceParts`", "one walk per axis taken in step; 1-5 dimensional tensor interpolants, blocks, outside the domain", "120 + 1000"),
("C17", "`Trig` / `MCSlide`, `TraceParts`", "Fourier layers and convolutions, embeddings (several axes, integer positions), against a fixed-point sine table proved consistent in the spec", "675 + 960"),
("C18", "`Trig` / `TraceParts`", "rotations as sets of coordinates (order-insensitive), mesh coordinates", "900"),
("C19", "`Attention` / `MCMask`, `TraceAtt`", "all small score tables with all masks (5201 states) replayed; scores that are integers times ln 2 make softmax weights exact rationals; masks, heads, alignment feedback, batch independence", "model + 1200"),
("C20", "`Conv` (`StageImg`, `TailFocus`, `TailSizes`) / `MCTail`, `TraceConv`", "tail-focus networks run level by level (17k states), replayed position by position; networks of convolutions with per-layer settings, pooling, normalisation; tails and reported sizes", "model + 900"),
("C21", "`Vae` / `MCVae`, `TraceModel`", "log-variances 2 ln 2 times integers make deviations powers of two; noise measured with the same generator state, its moments and tails; loss and its gradient; MCVae: divergence non-negative, zero only at the prior (120k states)", "700"),
("C22", "`Layers`, `Conv` / `TraceLayers`, `TraceConv`, `TraceModel`", "registry names by value, unknown names, models built from configurations by value, losses/logging of steps (large batches too), optimisers and schedulers", "1060")]
t = "| id | specification / models and trace specification | what is enumerated, recorded and judged | quick |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % r for r in rows)
S = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    S.append("| %s | %s | %s | caught |" % (i, m["property"], m["needs"]))
s = "| planted bug | property | needs | the property's quick check |\n|---|---|---|---|\n" + "\n".join(S)
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!--T-->.*?<!--/T-->", lambda m: "<!--T-->\n" + t + "\n<!--/T-->", d, flags=re.S)
d = re.sub(r"<!--S-->.*?<!--/S-->", lambda m: "<!--S-->\n" + s + "\n<!--/S-->", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
