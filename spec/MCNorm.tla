------------------------------- MODULE MCNorm -------------------------------
(* A sample is read entry by entry; the reader keeps only the largest and the *)
(* smallest entry, the largest magnitude and the sum of squares so far.  The  *)
(* invariants say that the normalised values the recorded traces are checked  *)
(* against are what such a reader gets, and that they have the laws a user    *)
(* counts on: bounded by one, attained at an extreme entry, independent of    *)
(* scale, shift (centred) and order, zero for constant samples.  Every sample *)
(* is printed with its normalised values and replayed into every variant.     *)
EXTENDS Norms, Json, TLC
CONSTANTS Values, MaxLen, Eps
VARIABLES g, hi, lo, big, sq
vars == <<g, hi, lo, big, sq>>
Small == -2 .. 2
Wide == -3 .. 3
Half == <<1, 2>>
K == 12

Init == \E v \in Values : g = <<v>> /\ hi = v /\ lo = v /\ big = Abs(v) /\ sq = v * v
Read(v) == /\ g' = Append(g, v)
           /\ hi' = (IF v > hi THEN v ELSE hi) /\ lo' = (IF v < lo THEN v ELSE lo)
           /\ big' = (IF Abs(v) > big THEN Abs(v) ELSE big) /\ sq' = sq + v * v
Next == Len(g) < MaxLen /\ \E v \in Values : Read(v)
Spec == Init /\ [][Next]_vars

Kinds == {"max_abs", "max_center", "l2"}
Val(kind, q, i, e) == NormVal(kind, q, q[i], 1, e[1], e[2], K)
One == Pow(2, K)
Exact == <<0, 1>>
(* from what the reader kept *)
Reader == \A i \in DOMAIN g :
  /\ Val("max_abs", g, i, Eps) = Ratio(g[i] * Eps[2], big * Eps[2] + Eps[1], K)
  /\ Val("max_center", g, i, Eps) = Ratio((2 * g[i] - hi - lo) * Eps[2], (hi - lo) * Eps[2] + 2 * Eps[1], K)
  /\ Val("l2", g, i, Eps) = Ratio(g[i] * Eps[2] * Root(sq)[2], Root(sq)[1] * Eps[2] + Eps[1] * Root(sq)[2], K)
Within == \A kind \in Kinds, e \in {Exact, Eps}, i \in DOMAIN g : Abs(Val(kind, g, i, e)) <= One
Attained == /\ big > 0 => \E i \in DOMAIN g : Abs(Val("max_abs", g, i, Exact)) = One
            /\ hi > lo => {One, -One} \subseteq {Val("max_center", g, i, Exact) : i \in DOMAIN g}
Length == sq > 0 => LET s == SumSeq([i \in DOMAIN g |-> Val("l2", g, i, Exact) * Val("l2", g, i, Exact)])
                    IN  Abs(s - One * One) <= 4 * Len(g) * One
Signs == \A i \in DOMAIN g : \A kind \in {"max_abs", "l2"} :
          (g[i] > 0 => Val(kind, g, i, Eps) > 0) /\ (g[i] = 0 => Val(kind, g, i, Eps) = 0)
Order == \A kind \in Kinds, i, j \in DOMAIN g : g[i] <= g[j] => Val(kind, g, i, Eps) <= Val(kind, g, j, Eps)
Scaled == LET q == [i \in DOMAIN g |-> 3 * g[i]] IN
          \A kind \in Kinds, i \in DOMAIN g : Near(Val(kind, q, i, Exact), Val(kind, g, i, Exact), 1)
Shifted == LET q == [i \in DOMAIN g |-> g[i] + 5] IN
           \A i \in DOMAIN g : Val("max_center", q, i, Eps) = Val("max_center", g, i, Eps)
Reversed == LET q == [i \in DOMAIN g |-> g[Len(g) + 1 - i]] IN
            \A kind \in Kinds, i \in DOMAIN g : Val(kind, q, Len(g) + 1 - i, Eps) = Val(kind, g, i, Eps)
Constant == hi = lo => \A i \in DOMAIN g : Val("max_center", g, i, Eps) = 0
Emit == Len(g) >= 2 => PrintT("EMIT " \o ToJson([g |-> g, a |-> [i \in DOMAIN g |-> Val("max_abs", g, i, Eps)],
          c |-> [i \in DOMAIN g |-> Val("max_center", g, i, Eps)], l |-> [i \in DOMAIN g |-> Val("l2", g, i, Eps)]]))
=============================================================================
