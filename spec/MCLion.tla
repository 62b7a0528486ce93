------------------------------- MODULE MCLion -------------------------------
(* All histories of one coordinate: every gradient sequence over Grads up to *)
(* Depth steps, under every setting, with a change of settings allowed in    *)
(* the middle (schedulers change lr, users edit groups).                     *)
EXTENDS Lion, Json
CONSTANTS Grads, Depth
GradSet == {-2, -1, 0, 1, 3}
VARIABLES S, C, hist, prev
vars == <<S, C, hist, prev>>

Settings == {[lr |-> lr, wd |-> wd, b1 |-> b1, b2 |-> b2] :
               lr \in {<<1, 2>>, <<1, 4>>}, wd \in {<<0, 1>>, <<1, 2>>},
               b1 \in {<<0, 1>>, <<1, 2>>, <<3, 4>>}, b2 \in {<<1, 2>>, <<1, 4>>}}
Start == [p |-> <<1, 1>>, m |-> Zero]
Init == S \in Settings /\ C = Start /\ hist = <<>> /\ prev = Start
Next == /\ Len(hist) < Depth
        /\ \E g \in Grads : /\ C' = Update(S, C, Q(g, 2))
                            /\ hist' = Append(hist, g)
                            /\ prev' = C
                            /\ UNCHANGED S
Spec == Init /\ [][Next]_vars

LastG == hist[Len(hist)]
(* a zero gradient leaves value and momentum alone *)
ZeroKeeps == hist # <<>> /\ LastG = 0 => C = prev
(* otherwise the decayed value moves by exactly lr or, on a tie, not at all *)
MovesByLr == hist # <<>> /\ LastG # 0 =>
               QAbs(QSub(C.p, QMul(prev.p, Decay(S)))) \in {S.lr, Zero}
(* momentum stays inside the hull of the gradients seen *)
MaxG == CHOOSE m \in {Abs(g) : g \in Grads} : \A g \in Grads : Abs(g) <= m
MomentumBounded == QLeq(QAbs(C.m), Q(MaxG, 2))
(* a coordinate that has only seen zeros was never touched *)
Untouched == (\A k \in DOMAIN hist : hist[k] = 0) => C = Start
(* without momentum memory in the direction the step opposes the gradient *)
Opposes == hist # <<>> /\ LastG # 0 /\ S.b1 = Zero =>
             Sign(QSub(C.p, QMul(prev.p, Decay(S)))[1]) = -Sign(LastG)
Emit == Len(hist) = Depth =>
          PrintT("EMIT " \o ToJson([S |-> S, hist |-> hist, p |-> C.p, m |-> C.m]))
=============================================================================
