------------------------------ MODULE TraceAtt ------------------------------
(* Recorded attention calls: one event per call, S the samples of the batch, *)
(* C the contexts (times 2^10), A the weights [sample][head][query][key]     *)
(* (times 2^16; empty when the variant does not return them).                *)
EXTENDS Attention, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, done
vars == <<l, bad, done>>
If(c, name) == IF c THEN <<>> ELSE <<name>>
Shape2(Y, a, b) == Len(Y) = a /\ \A k \in DOMAIN Y : Len(Y[k]) = b
NQ(e) == Len(e.S[1].Q)
NK(e) == Len(e.S[1].V)
Rows(e) == Force([b \in DOMAIN e.S |-> Force([h \in 1 .. e.heads |-> Force([i \in 1 .. NQ(e) |-> Row(e, e.S[b], h, i)])])])
VMax(R) == MaxSeq([b \in DOMAIN R |-> MaxSeq([h \in DOMAIN R[b] |-> MaxSeq([i \in DOMAIN R[b][h] |->
             MaxSeq([k \in DOMAIN R[b][h][i].v |-> MaxSeq(AbsSeq(R[b][h][i].v[k]))])])])])
(* context of query i of a sample: the heads side by side, then projected *)
Heads(Rb, i) == FoldLeft(LAMBDA q, r : q \o ContextOf(r[i].w, r[i].v), <<>>, Rb)
Final(e, c) == IF e.kind = "rel" THEN Plus(Lin(e.Wo, Zeros(Len(e.Wo)), c), [o \in DOMAIN e.bo |-> 1024 * e.bo[o]]) ELSE c
Gain(e) == IF e.kind = "rel" THEN MaxSeq([o \in DOMAIN e.Wo |-> SumSeq(AbsSeq(e.Wo[o]))]) + 1 ELSE 1
ChkAtt(e) ==
  LET R == Rows(e)
      vm == VMax(R)
      tol == (4 + (vm + 2) \div 3) * Gain(e)         \* about 3 per mille of the largest value
      D == Len(Final(e, Heads(R[1], 1)))
  IN
  IF ~(vm <= 600 /\ \A b \in DOMAIN e.S : Len(e.S[b].Q) = NQ(e) /\ Len(e.S[b].V) = NK(e)) THEN <<"H:att">>
  ELSE IF ~(Len(e.C) = Len(e.S) /\ \A b \in DOMAIN e.C : Shape2(e.C[b], NQ(e), D)) THEN <<"context shape: " \o e.kind>>
  ELSE IF e.hasA /\ ~(Len(e.A) = Len(e.S) /\ \A b \in DOMAIN e.A : Len(e.A[b]) = e.heads /\
             \A h \in DOMAIN e.A[b] : Shape2(e.A[b][h], NQ(e), NK(e))) THEN <<"attention shape: " \o e.kind>>
  ELSE If(\A b \in DOMAIN e.C : \A i \in 1 .. NQ(e) :
            LET want == Final(e, Heads(R[b], i)) IN \A d \in 1 .. D : Near(want[d], e.C[b][i][d], tol),
          "context is the weighted sum of the sample's own values: " \o e.kind)
       \o (IF ~e.hasA THEN <<>> ELSE
           If(\A b \in DOMAIN e.A : \A h \in 1 .. e.heads : \A i \in 1 .. NQ(e) :
                LET want == AttnOf(R[b][h][i].w) IN \A k \in DOMAIN want : Near(want[k], e.A[b][h][i][k], 24),
              "weights follow the score rule: " \o e.kind)
           \o If(\A b \in DOMAIN e.A : \A h \in 1 .. e.heads : \A i \in 1 .. NQ(e) :
                   /\ \A k \in DOMAIN e.A[b][h][i] : e.A[b][h][i][k] >= 0
                   /\ Near(SumSeq(e.A[b][h][i]), 65536, 16 + Len(e.A[b][h][i])),
                 "weights are non-negative and sum to one: " \o e.kind)
           \o If(\A b \in DOMAIN e.A : \A h \in 1 .. e.heads : \A i \in 1 .. NQ(e) :
                   \A k \in DOMAIN e.A[b][h][i] : (e.S[b].mask # <<>> /\ MaskRow(e.S[b], i)[k] = 1) => e.A[b][h][i][k] = 0,
                 "masked positions get no weight: " \o e.kind))
Flat2(q) == FoldLeft(LAMBDA a, r : a \o r, <<>>, q)
ChkNear(e) ==
  IF ~(50 * e.tol <= e.sc) THEN <<"H:near">>
  ELSE If(Len(e.A) = Len(e.B) /\ \A k \in DOMAIN e.A : Near(e.A[k], e.B[k], e.tol), e.what)
Check(e) ==
  CASE e.e = "att"  -> ChkAtt(e)
    [] e.e = "near" -> ChkNear(e)
    [] e.e = "err"  -> <<e.op \o " raised: " \o e.type>>
    [] e.e = "fact" -> If(e.ok, e.what)
    [] e.e = "reset" -> <<>>
    [] OTHER -> <<"H:unknown event">>
Init == /\ l = 1 /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
