------------------------------- MODULE MCTail -------------------------------
(* A tail-focus network run level by level over a line of positions: before   *)
(* each layer the last positions of the level are put aside, after the last   *)
(* one everything that is left.  The invariants compare what was put aside    *)
(* with the sizes a network reports; the runs are printed and replayed into   *)
(* real networks, position by position.                                       *)
EXTENDS Conv, Json
CONSTANTS Widths, Kernels, Strides, Pads, Focus, MaxLayers
VARIABLES width, h, pad, focus, w, aside, closed, size
vars == <<width, h, pad, focus, w, aside, closed, size>>

Layer(k, st) == [k |-> <<1, k>>, st |-> <<1, st>>, pad |-> <<0, pad>>, dil |-> <<1, 1>>, op |-> <<0, 0>>, tr |-> FALSE,
                 pm |-> "zeros", cin |-> 1, cout |-> 1]
Init == /\ width \in Widths /\ w = width /\ size = width /\ pad \in Pads
        /\ h = <<>> /\ focus = <<>> /\ aside = <<>> /\ closed = FALSE
(* the last f positions of the present level, or all of them *)
LastOf(f) == LET m == Min2(f, w) IN [i \in 1 .. m |-> <<Len(h), w - m + i - 1>>]
Apply == \E k \in Kernels, st \in Strides, f \in Focus :
  /\ ~closed /\ Len(h) < MaxLayers /\ Extent(Layer(k, st), 2, w) >= 1 /\ f <= w
  /\ aside' = aside \o LastOf(f)
  /\ focus' = Append(focus, f)
  /\ h' = Append(h, Layer(k, st))
  /\ w' = Extent(Layer(k, st), 2, w)
  /\ UNCHANGED <<width, pad, closed, size>>
Close == /\ ~closed /\ Len(h) >= 1
         /\ aside' = aside \o [i \in 1 .. w |-> <<Len(h), i - 1>>]
         /\ closed' = TRUE /\ UNCHANGED <<width, h, pad, focus, w, size>>
Next == Apply \/ Close
Spec == Init /\ [][Next]_vars

Convs == [i \in DOMAIN h |-> i]
Sizes == closed => /\ SumSeq(TailSizes(h, Convs, focus, width)) = Len(aside)
                   /\ \A l \in 0 .. Len(h) : TailSizes(h, Convs, focus, width)[l + 1]
                                               = Cardinality({i \in DOMAIN aside : aside[i][1] = l})
LevelWidths == h # <<>> => TailWidths(h, Convs, width)[Len(h) + 1] = w
(* what is kept of a level is its end, in order, and levels are in order *)
Order == \A i \in 1 .. Len(aside) - 1 : \/ aside[i + 1] = <<aside[i][1], aside[i][2] + 1>>
                                       \/ aside[i + 1][1] = aside[i][1] + 1
Ends == \A i \in DOMAIN aside : (i = Len(aside) \/ aside[i + 1][1] > aside[i][1]) =>
          aside[i][2] = (IF h = <<>> THEN width ELSE TailWidths(h, Convs, width)[aside[i][1] + 1]) - 1
Emit == closed => PrintT("EMIT " \o ToJson([width |-> width, pad |-> pad, focus |-> focus,
                            k |-> [i \in DOMAIN h |-> h[i].k[2]], st |-> [i \in DOMAIN h |-> h[i].st[2]],
                            widths |-> TailWidths(h, Convs, width), aside |-> aside]))
=============================================================================
