----------------------------- MODULE TraceLion ------------------------------
(* Histories of real optimizer steps.  heap: parameter id -> sequence of     *)
(* coordinates [p, m]; groups: sequence of [S, ids].                         *)
EXTENDS Lion, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, groups, bad, done
vars == <<l, heap, groups, bad, done>>
If(c, name) == IF c THEN <<>> ELSE <<name>>

(* settings of the group a parameter belongs to *)
GroupOf(id) == CHOOSE k \in DOMAIN groups : \E j \in DOMAIN groups[k].ids : groups[k].ids[j] = id
Grouped(id) == \E k \in DOMAIN groups : \E j \in DOMAIN groups[k].ids : groups[k].ids[j] = id
(* G: record id-string -> gradient numerators over gd; missing: no gradient *)
After(e, id) ==
  IF Grouped(id) /\ \E k \in DOMAIN e.G : e.G[k].id = id
  THEN LET g == e.G[CHOOSE k \in DOMAIN e.G : e.G[k].id = id].g
           S == groups[GroupOf(id)].S
       IN  Force([c \in DOMAIN heap[id] |-> Update(S, heap[id][c], Q(g[c], e.gd))])
  ELSE heap[id]
NewHeap(e) == [id \in DOMAIN heap |-> After(e, id)]
(* observed integer equals the rational at scale 2^k, within tol *)
Same(q, y, k, tol) == Near(ScaleBits(q[1], q[2], k), y, tol)
ChkStep(e) ==
  LET H == NewHeap(e) IN
  IF ~(e.tol <= 4 /\ e.k >= 14) THEN <<"H:step">>
  ELSE If(\A j \in DOMAIN e.P : LET id == e.P[j].id IN
            /\ Len(e.P[j].p) = Len(H[id])
            /\ \A c \in DOMAIN H[id] : Same(H[id][c].p, e.P[j].p[c], e.k, e.tol),
          "parameter after the step")
       \o If(\A j \in DOMAIN e.P : LET id == e.P[j].id IN
            \A c \in DOMAIN e.P[j].m : Same(H[id][c].m, e.P[j].m[c], e.k, e.tol),
          "momentum after the step")
Check(e) ==
  CASE e.e = "step" -> ChkStep(e)
    [] e.e = "err"  -> <<e.op \o " raised: " \o e.type>>
    [] e.e = "fact" -> If(e.ok, e.what)
    [] e.e \in {"reset", "param", "groups", "write"} -> <<>>
    [] OTHER -> <<"H:unknown event">>
Fresh(e) == [c \in DOMAIN e.p |-> [p |-> Q(e.p[c], e.d), m |-> Zero]]
HeapEffect(e) ==
  CASE e.e = "reset" -> (0 :> <<>>)
    [] e.e = "param" -> (e.id :> Fresh(e)) @@ heap
    [] e.e = "write" -> (e.id :> [c \in DOMAIN heap[e.id] |-> [p |-> Q(e.p[c], e.d), m |-> heap[e.id][c].m]]) @@ heap
    [] e.e = "step"  -> NewHeap(e)
    [] OTHER -> heap
GroupEffect(e) ==
  CASE e.e = "reset" -> <<>>
    [] e.e = "groups" -> e.groups
    [] OTHER -> groups
Init == /\ l = 1 /\ heap = (0 :> <<>>) /\ groups = <<>> /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ heap' = HeapEffect(Trace[l])
        /\ groups' = GroupEffect(Trace[l])
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, heap, groups, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
