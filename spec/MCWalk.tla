------------------------------- MODULE MCWalk -------------------------------
(* A point walks from left to right, a unit at a time, over a mesh of s       *)
(* segments that may be folded with period P.  The walker only knows local    *)
(* rules: move, turn at the ends of the period, pass to the neighbouring      *)
(* segment at an edge, go on in the end segments.  The invariants say that    *)
(* the closed formulas of PiecewisePoly (which the recorded traces are        *)
(* checked against) describe exactly this walk; the walks are printed and     *)
(* replayed into the lookup, conversion and folding functions of the code.    *)
EXTENDS PiecewisePoly, Json
CONSTANTS MaxSegs, U, Periods, Reach
VARIABLES s, P, X, pos, dir, k, T, log
vars == <<s, P, X, pos, dir, k, T, log>>

Step == IF U % s = 0 THEN 1 ELSE s
H == LocH(U, s)
Row == [X |-> X, pos |-> pos, k |-> k, T |-> T, both |-> OnEdge(pos, U, s)]
Init == /\ s \in 1 .. MaxSegs /\ P \in Periods
        (* with a period the walk starts at the left end of it, otherwise     *)
        (* outside the domain                                                 *)
        /\ X = (IF P = 0 THEN -Reach ELSE -(P \div 2) - 2 * P) /\ pos = (IF P = 0 THEN -Reach ELSE -(P \div 2))
        /\ dir = 1
        /\ k = (IF pos <= -U THEN 0 ELSE CHOOSE q \in 0 .. s - 1 : LocT(pos, U, s, q) \in -H .. H - 1)
        /\ T = LocT(pos, U, s, k)
        /\ log = <<>>
Turn == P # 0 /\ ((dir = 1 /\ 2 * pos = P) \/ (dir = -1 /\ 2 * pos = -P))
(* one unit on, in direction d *)
Move(d) ==
  LET t == T + d * Step IN
  /\ pos' = pos + d /\ dir' = d
  /\ IF t > H /\ k < s - 1 THEN k' = k + 1 /\ T' = t - 2 * H
     ELSE IF t < -H /\ k > 0 THEN k' = k - 1 /\ T' = t + 2 * H
     ELSE k' = k /\ T' = t
End == X = (IF P = 0 THEN Reach ELSE (P \div 2) + 2 * P)
Next == /\ ~End
        /\ X' = X + 1 /\ log' = Append(log, Row)
        /\ Move(IF Turn THEN -dir ELSE dir)
        /\ UNCHANGED <<s, P>>
Spec == Init /\ [][Next]_vars

Folds    == pos = Fold(X, P) /\ (P # 0 => 2 * pos <= P /\ 2 * pos >= -P)
Inside   == P = 0 \/ (2 * Abs(X) <= P => pos = X)
Periodic == P = 0 \/ /\ Fold(X + 2 * P, P) = pos /\ Fold(X - 2 * P, P) = pos
                     /\ Fold(P - X, P) = pos /\ Fold(-P - X, P) = pos /\ Fold(3 * P - X, P) = pos
Slope    == [][P = 0 \/ (pos' - pos = FoldSlope(X, P) \/ AtMirror(X, P))]_vars
Lookup   == k \in Segs(pos, U, s) /\ T = LocT(pos, U, s, k)
Local    == (pos >= -U /\ pos <= U) => (T >= -H /\ T <= H)
Edge     == OnEdge(pos, U, s) <=> (Abs(pos) < U /\ (T = H \/ T = -H))
Neighbour == OnEdge(pos, U, s) => {LocT(pos, U, s, q) : q \in Segs(pos, U, s)} = {H, -H}
(* the conversions invert each other *)
Glob     == (T + (2 * k + 1) * H) * (IF U % s = 0 THEN s ELSE 1) = s * (pos + U)
Partition == ~OnEdge(pos, U, s) => Cardinality(Segs(pos, U, s)) = 1
Emit == End => PrintT("EMIT " \o ToJson([s |-> s, P |-> P, U |-> U, H |-> H, walk |-> Append(log, Row)]))
=============================================================================
