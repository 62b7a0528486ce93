-------------------------------- MODULE Conv --------------------------------
(* Convolutions of piecewise polynomials and the networks made of them.     *)
(*                                                                          *)
(* A convolution is a record                                                *)
(*   L    a layer record (Layers) whose link (o, q) is the function that    *)
(*        kernel entry q = (c*kh + a)*kw + b + 1 of output channel o applies *)
(*   cin, cout, g      channels and groups                                  *)
(*   k, st, pad, dil, op  kernel, stride, padding, dilation and output      *)
(*        padding, each <<vertical, horizontal>> (a 1d convolution is a 2d   *)
(*        one of height 1)                                                  *)
(*   tr   transposed?     rs   output divided by the window size?           *)
(*   pm   how the padding is filled (a transposed one always with zeros)    *)
(*                                                                          *)
(* An image is [x |-> x[c][i][j] numerators, d |-> denominator].            *)
EXTENDS Layers

Extent(C, a, size) ==
  IF C.tr THEN (size - 1) * C.st[a] - 2 * C.pad[a] + C.dil[a] * (C.k[a] - 1) + C.op[a] + 1
  ELSE (size + 2 * C.pad[a] - C.dil[a] * (C.k[a] - 1) - 1) \div C.st[a] + 1

(* 0-based input index that kernel entry t reads for output index y, or -1  *)
Source(C, a, y, t, size) ==
  LET num == IF C.tr THEN y + C.pad[a] - t * C.dil[a] ELSE y * C.st[a] - C.pad[a] + t * C.dil[a]
      i   == IF C.tr THEN (IF num % C.st[a] = 0 THEN num \div C.st[a] ELSE -1) ELSE num
  IN  IF i >= 0 /\ i < size THEN i
      ELSE CASE C.pm = "circular"  -> i % size
             [] C.pm = "replicate" -> IF i < 0 THEN 0 ELSE size - 1
             [] C.pm = "reflect"   -> IF i < 0 THEN -i ELSE 2 * (size - 1) - i
             [] OTHER -> -1                 \* "zeros"

CinG(C)  == C.cin \div C.g                  \* input channels per group
Window(C) == CinG(C) * C.k[1] * C.k[2]
(* entries of the kernel, 0-based <<c, a, b>> *)
Kernel(C) == Force([q \in 1 .. CinG(C) * C.k[1] * C.k[2] |->
               <<(q - 1) \div (C.k[1] * C.k[2]), ((q - 1) \div C.k[2]) % C.k[1], (q - 1) % C.k[2]>>])
(* sets of admissible values of output (o, y, x), over LinkDen *)
ConvAt(C, kern, img, o, y, x) ==
  LET H == Len(img.x[1])
      W == Len(img.x[1][1])
      c0 == ((o - 1) \div (C.cout \div C.g)) * CinG(C)
      S(q) == LET i == Source(C, 1, y, kern[q][2], H)
                  j == Source(C, 2, x, kern[q][3], W)
              IN  IF i < 0 \/ j < 0 THEN {0}
                  ELSE LinkVals(C.L, o, q, img.x[c0 + kern[q][1] + 1][i + 1][j + 1], img.d)
  IN  ChoiceFold(Add, 0, [q \in DOMAIN kern |-> S(q)])
ConvDen(C, D) == LinkDen(C.L, D) * (IF C.rs THEN Window(C) ELSE 1)

One(S) == CHOOSE v \in S : TRUE
ImgGCD(img) == FoldLeft(LAMBDA g, ch : FoldLeft(LAMBDA h, r : FoldLeft(GCD, h, r), g, ch), img.d, img.x)
ImgMap(img, f(_), d) == [x |-> Force([c \in DOMAIN img.x |-> Force([i \in DOMAIN img.x[c] |->
                                Force([j \in DOMAIN img.x[c][i] |-> f(img.x[c][i][j])])])]), d |-> d]
ImgNormal(img) == LET g == ImgGCD(img) IN ImgMap(img, LAMBDA v : v \div g, img.d \div g)
(* the image a convolution makes of an image *)
ConvImg(C, img) ==
  LET kern == Kernel(C)
      H == Extent(C, 1, Len(img.x[1]))
      W == Extent(C, 2, Len(img.x[1][1]))
  IN  ImgNormal([x |-> Force([o \in 1 .. C.cout |-> Force([y \in 1 .. H |-> Force([x \in 1 .. W |->
                         One(ConvAt(C, kern, img, o, y - 1, x - 1))])])]),
                 d |-> ConvDen(C, img.d)])
Flat(img) == FoldLeft(LAMBDA q, ch : FoldLeft(LAMBDA p, r : p \o r, q, ch), <<>>, img.x)
TailOf(img, k) == FoldLeft(LAMBDA q, ch : FoldLeft(LAMBDA p, r :
                     p \o SubSeq(r, Max2(1, Len(r) - k + 1), Len(r)), q, ch), <<>>, img.x)
Mean(img) == LET n == Len(img.x[1]) * Len(img.x[1][1]) IN
             [x |-> Force([c \in DOMAIN img.x |-> <<<<SumSeq([i \in DOMAIN img.x[c] |-> SumSeq(img.x[c][i])])>>>>]),
              d |-> img.d * n]
StageImg(h, st, img) ==
  CASE st.op = "conv"  -> ConvImg(h[st.id], img)
    [] st.op = "halve" -> [img EXCEPT !.d = 2 * img.d]
    [] st.op = "neg"   -> ImgMap(img, LAMBDA v : -v, img.d)
    [] st.op = "inc"   -> ImgMap(img, LAMBDA v : v + img.d, img.d)
    [] st.op = "mean"  -> Mean(img)
(* images after each prefix of the stages, the input first *)
Images(h, stages, img) ==
  FoldLeft(LAMBDA q, st : Append(q, StageImg(h, st, q[Len(q)])), <<img>>, stages)
(* values as <<numerator, denominator>> *)
Pairs(q, d) == [i \in DOMAIN q |-> <<q[i], d>>]
(* tail-focus output: stages grouped per level, focus per level, whole end  *)
TailFocus(h, levels, focus, img) ==
  LET lv == FoldLeft(LAMBDA q, stages : Append(q, Last(Images(h, stages, q[Len(q)]))), <<img>>, levels)
      tails == FoldLeft(LAMBDA q, k : q \o Pairs(TailOf(lv[k], focus[k]), lv[k].d), <<>>, [k \in 1 .. Len(focus) |-> k])
      end == lv[Len(lv)]
  IN  tails \o Pairs(Flat(end), end.d)
(* reported sizes: width of every level and number of values taken from it *)
TailWidths(h, convs, size) == FoldLeft(LAMBDA q, id : Append(q, Extent(h[id], 2, q[Len(q)])), <<size>>, convs)
TailSizes(h, convs, focus, size) ==
  LET w == TailWidths(h, convs, size)
      ch == <<h[convs[1]].cin>> \o [k \in DOMAIN convs |-> h[convs[k]].cout]
  IN  [k \in 1 .. Len(ch) |-> ch[k] * (IF k = Len(ch) THEN w[k] ELSE focus[k])]
=============================================================================
