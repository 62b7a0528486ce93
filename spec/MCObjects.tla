----------------------------- MODULE MCObjects ------------------------------
(* Every history of at most Depth operations on three instances and one      *)
(* checkpoint.  Histories are printed and replayed into real objects.         *)
EXTENDS Objects, Json
CONSTANTS Depth
VARIABLES H, hist
vars == <<H, hist>>
Slots == 1 .. 3
C == "c"
Op(o, i, j) == [op |-> o, i |-> i, j |-> j]
Init == /\ H = New(New(Empty, 1, C), 2, C) /\ hist = <<>>
Do(H2, op) == H' = H2 /\ hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in Slots : Known(H, i) /\ Do(Perturb(H, i), Op("perturb", i, 0))
           \/ \E i, j \in Slots : i # j /\ LoadOK(H, i, j) /\ Do(Load(H, i, j), Op("load", i, j))
           \/ \E i, j \in Slots : CopyOK(H, i, j) /\ Do(Copy(H, i, j), Op("copy", i, j))
           \/ \E i \in Slots : Known(H, i) /\ Do(Save(H, "a", i), Op("save", i, 0))
           \/ \E i \in Slots : RestoreOK(H, i, "a") /\ Do(Restore(H, i, "a"), Op("restore", i, 0))
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A i \in DOMAIN H.st : H.st[i] \in 1 .. H.next - 1
          /\ \A n \in DOMAIN H.snap : H.snap[n].tok \in 1 .. H.next - 1
(* an operation changes the token of at most one instance, and only loading,  *)
(* copying and restoring can make two instances equal                          *)
OneChanges == [][Cardinality({i \in DOMAIN H.st : H'.st[i] # H.st[i]}) <= 1]_vars
Independent == [][hist' # hist /\ hist'[Len(hist')].op = "perturb" =>
                    \A i \in DOMAIN H.st : i # hist'[Len(hist')].i => H'.st[hist'[Len(hist')].i] # H'.st[i]]_vars
SavedStays == [][hist' # hist /\ hist'[Len(hist')].op # "save" => H'.snap = H.snap]_vars
Emit == Len(hist) = Depth => PrintT("EMIT " \o ToJson([ops |-> hist, tok |-> [i \in DOMAIN H.st |-> H.st[i]]]))
=============================================================================
