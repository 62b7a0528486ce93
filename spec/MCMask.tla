------------------------------- MODULE MCMask -------------------------------
(* Every mask.  Positions are masked one at a time, in any combination that   *)
(* leaves each query something to see, for two samples, two queries and three *)
(* keys; the weights are kept up to date the way a distribution would be:     *)
(* masking a position takes its share away and leaves the proportions of the  *)
(* others alone.  The invariants compare this with the rule of Attention      *)
(* (which the recorded calls are checked against); all masks with their       *)
(* weights are printed and replayed.                                          *)
EXTENDS Attention, Json
CONSTANTS NB, NH, NQ, NK
VARIABLES mask, w, next
vars == <<mask, w, next>>

(* base 2 logarithms of the scores, and the values *)
Score(b, h, i, k) == ((3 * b + 5 * h + 2 * i * k + b * k * k + h * k) % 7) - 3
Value(b, h, k) == ((7 * b + 4 * h * k + 3 * k * k) % 11) - 5
Cells == NB * NQ * NK
Cell(c) == <<((c - 1) \div (NQ * NK)) + 1, (((c - 1) \div NK) % NQ) + 1, ((c - 1) % NK) + 1>>
Open(b, i) == {k \in 1 .. NK : mask[b][i][k] = 0}

Init == /\ mask = [b \in 1 .. NB |-> [i \in 1 .. NQ |-> [k \in 1 .. NK |-> 0]]]
        /\ w = [b \in 1 .. NB |-> [h \in 1 .. NH |-> [i \in 1 .. NQ |-> [k \in 1 .. NK |-> Pow(2, Score(b, h, i, k) + 3)]]]]
        /\ next = 1
(* cells are visited in order, each masked or left *)
Leave == next <= Cells /\ next' = next + 1 /\ UNCHANGED <<mask, w>>
Close == /\ next <= Cells
         /\ LET c == Cell(next)
            IN  /\ Cardinality(Open(c[1], c[2])) > 1
                /\ mask' = [mask EXCEPT ![c[1]][c[2]][c[3]] = 1]
                /\ w' = [w EXCEPT ![c[1]] = [h \in 1 .. NH |-> [@[h] EXCEPT ![c[2]][c[3]] = 0]]]
         /\ next' = next + 1
Next == Leave \/ Close
Spec == Init /\ [][Next]_vars

Rows == {<<b, h, i>> : b \in 1 .. NB, h \in 1 .. NH, i \in 1 .. NQ}
Total(b, h, i) == SumSeq(w[b][h][i])
Seen == \A r \in Rows : Total(r[1], r[2], r[3]) > 0
Masked == \A r \in Rows : \A k \in 1 .. NK : (w[r[1]][r[2]][r[3]][k] = 0) <=> (mask[r[1]][r[3]][k] = 1)
(* the rule used for recorded calls gives the same proportions *)
Rule == \A r \in Rows :
  LET s == SoftWeights([k \in 1 .. NK |-> Unit * Score(r[1], r[2], r[3], k)], mask[r[1]][r[3]])
      v == w[r[1]][r[2]][r[3]]
  IN  \A k, m \in 1 .. NK : s[k] * v[m] = s[m] * v[k]
(* a context lies between the smallest and largest value it may see *)
Between == \A r \in Rows :
  LET seen == {Value(r[1], r[2], k) : k \in Open(r[1], r[3])}
      c == SumSeq([k \in 1 .. NK |-> w[r[1]][r[2]][r[3]][k] * Value(r[1], r[2], k)])
      t == Total(r[1], r[2], r[3])
  IN  /\ \E v \in seen : c >= v * t
      /\ \E v \in seen : c <= v * t
(* masking touches the row of that query and sample alone *)
Alone == [][\A r \in Rows : next <= Cells /\ <<r[1], r[3]>> # <<Cell(next)[1], Cell(next)[2]>> =>
              w'[r[1]][r[2]][r[3]] = w[r[1]][r[2]][r[3]]]_vars
Emit == next = Cells + 1 => PrintT("EMIT " \o ToJson([mask |-> mask, w |-> w,
          s |-> [b \in 1 .. NB |-> [h \in 1 .. NH |-> [i \in 1 .. NQ |-> [k \in 1 .. NK |-> Score(b, h, i, k)]]]],
          v |-> [b \in 1 .. NB |-> [h \in 1 .. NH |-> [k \in 1 .. NK |-> Value(b, h, k)]]]]))
=============================================================================
