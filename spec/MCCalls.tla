------------------------------ MODULE MCCalls -------------------------------
(* Evaluation under every pair of circumstances.  A call happens with some    *)
(* selection of the samples, memory layout, gradient and training mode, and    *)
(* after some event in the process; none of that is in the state of Objects,  *)
(* so the meaning of a call is the same token before and after.  Pairs are     *)
(* printed and replayed.                                                       *)
EXTENDS Objects, Json
CONSTANTS Selections, Layouts, Modes, Events, Depth
VARIABLES H, calls
vars == <<H, calls>>
Init == H = New(New(Empty, 1, "c"), 2, "c") /\ calls = <<>>
Sel(s, n) == CASE s = "all" -> [k \in 1 .. n |-> k]
               [] s = "reverse" -> [k \in 1 .. n |-> n + 1 - k]
               [] s = "one" -> <<1>>
               [] s = "last" -> <<n>>
               [] s = "twice" -> [k \in 1 .. 2 * n |-> ((k - 1) % n) + 1]
               [] s = "many" -> [k \in 1 .. 17 * n |-> ((k - 1) % n) + 1]
               [] s = "some" -> <<2, 4>>
Observe(h, idx) == FoldLeft(LAMBDA g, s : Learn(g, 1, s, <<"f", g.st[1], s>>), h, idx)
Call == /\ Len(calls) < Depth
        /\ \E s \in Selections, y \in Layouts, m \in Modes, e \in Events :
             /\ calls' = Append(calls, [sel |-> s, lay |-> y, mode |-> m, ev |-> e])
             /\ H' = Observe(IF e = "update" THEN Perturb(H, 1) ELSE IF e = "other" THEN Perturb(H, 2) ELSE H, Sel(s, 4))
Spec == Init /\ [][Call]_vars
(* what was observed never contradicts itself *)
Function == \A k \in DOMAIN H.memo : H.memo[k] = <<"f", k[2], k[3]>>
(* only an update of the instance itself changes its token *)
Pure == [][calls' # calls /\ calls'[Len(calls')].ev # "update" => H'.st[1] = H.st[1]]_vars
Emit == Len(calls) = Depth => PrintT("EMIT " \o ToJson(calls))
=============================================================================
