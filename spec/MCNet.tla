------------------------------- MODULE MCNet --------------------------------
(* A network of one-wide affine layers put together stage by stage: after     *)
(* every layer but the last comes the normalisation, then the non-linearity,  *)
(* whichever of the two were asked for.  Three probes run along.  The         *)
(* invariants give the shape of the finished network and, where no rectifier  *)
(* is involved, its slope and offset in closed form; every finished network   *)
(* is printed with what the probes became and built with each network class.  *)
EXTENDS Arith, Json, TLC
CONSTANTS MaxHid, NormNames, NonLinNames
VARIABLES hid, norm, nl, ops, v, e
vars == <<hid, norm, nl, ops, v, e>>

(* layer j is a_j x + b_j *)
A(j) == <<2, -1, 3, 1, -2, 1, -1, 2>>[j]
B(j) == <<1, -2, 0, 1, 2, -1, 1, 0>>[j]
Probes == <<-1, 0, 1>>
Map(F(_)) == [i \in DOMAIN v |-> F(v[i])]
Count == Cardinality({i \in DOMAIN ops : ops[i].layer > 0})
LastOp == ops[Len(ops)]
Put(name, what, layer) == ops' = Append(ops, [name |-> name, what |-> what, layer |-> layer])
Init == /\ hid \in 0 .. MaxHid /\ norm \in NormNames /\ nl \in NonLinNames
        /\ ops = <<>> /\ v = Probes /\ e = 0
Act(name) ==
  CASE name = "halve" -> v' = v /\ e' = e + 1
    [] name = "neg"   -> v' = Map(LAMBDA x : -x) /\ e' = e
    [] name = "inc"   -> v' = Map(LAMBDA x : x + Pow(2, e)) /\ e' = e
    [] name = "relu"  -> v' = Map(LAMBDA x : IF x < 0 THEN 0 ELSE x) /\ e' = e
Layer == /\ LET j == Count + 1 IN v' = Map(LAMBDA x : A(j) * x + B(j) * Pow(2, e)) /\ Put("layer", "layer", j)
         /\ UNCHANGED <<e, hid, norm, nl>>
Done == Count = hid + 2
Ready == IF ops = <<>> THEN TRUE ELSE LastOp.what = (IF nl # "none" THEN "nl" ELSE IF norm # "none" THEN "norm" ELSE "layer")
DoLayer == ~Done /\ Ready /\ Layer
DoNorm == ~Done /\ ops # <<>> /\ LastOp.layer > 0 /\ norm # "none"
          /\ Act(norm) /\ Put(norm, "norm", 0) /\ UNCHANGED <<hid, norm, nl>>
DoNonLin == ~Done /\ ops # <<>> /\ nl # "none" /\ LastOp.what = (IF norm = "none" THEN "layer" ELSE "norm")
            /\ Act(nl) /\ Put(nl, "nl", 0) /\ UNCHANGED <<hid, norm, nl>>
Next == DoLayer \/ DoNorm \/ DoNonLin
Spec == Init /\ [][Next]_vars

One(name) == IF name = "none" THEN 0 ELSE 1
Shape == Done => /\ Len(ops) = hid + 2 + (hid + 1) * (One(norm) + One(nl))
                 /\ ops[1].layer = 1 /\ LastOp.layer = hid + 2
                 /\ \A i \in 1 .. Len(ops) - 1 : ops[i].layer > 0 =>
                      ops[i + 1].name = (IF norm # "none" THEN norm ELSE IF nl # "none" THEN nl ELSE "layer")
InOrder == \A i, j \in DOMAIN ops : (i < j /\ ops[i].layer > 0 /\ ops[j].layer > 0) => ops[i].layer < ops[j].layer
Smooth == norm # "relu" /\ nl # "relu"
(* slope: product of the slopes, a sign for each change of sign; a halving is in e *)
Flips == Cardinality({i \in DOMAIN ops : ops[i].name = "neg"})
Slope == (Done /\ Smooth) => /\ v[3] - v[2] = v[2] - v[1]
                             /\ v[2] - v[1] = ProdSeq([j \in 1 .. hid + 2 |-> A(j)]) * Pow(-1, Flips)
Halvings == e = Cardinality({i \in DOMAIN ops : ops[i].name = "halve"})
(* offset: Horner's rule over the stages *)
Offset == (Done /\ Smooth) =>
  v[2] = FoldLeft(LAMBDA a, o : IF o.layer > 0 THEN <<A(o.layer) * a[1] + B(o.layer) * a[2], a[2]>>
                                ELSE IF o.name = "halve" THEN <<a[1], 2 * a[2]>>
                                ELSE IF o.name = "neg" THEN <<-a[1], a[2]>> ELSE <<a[1] + a[2], a[2]>>, <<0, 1>>, ops)[1]
Emit == Done => PrintT("EMIT " \o ToJson([hid |-> hid, norm |-> norm, nl |-> nl, v |-> v, e |-> e]))
=============================================================================
