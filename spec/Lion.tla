-------------------------------- MODULE Lion --------------------------------
(* The sparse sign-momentum optimizer, coordinate by coordinate, in exact    *)
(* rationals.  A rational is <<numerator, denominator>>, reduced.            *)
EXTENDS Arith

Q(a, b) == LET g == GCD(a, b) IN <<a \div g, b \div g>>
QAdd(p, q) == Q(p[1] * (LCM(p[2], q[2]) \div p[2]) + q[1] * (LCM(p[2], q[2]) \div q[2]), LCM(p[2], q[2]))
QMul(p, q) == LET a == Q(p[1], q[2])
                  b == Q(q[1], p[2]) IN <<a[1] * b[1], a[2] * b[2]>>
QNeg(p) == <<-p[1], p[2]>>
QSub(p, q) == QAdd(p, QNeg(q))
One1 == <<1, 1>>
Zero == <<0, 1>>
QLeq(p, q) == p[1] * q[2] <= q[1] * p[2]
QAbs(p) == <<Abs(p[1]), p[2]>>

(* settings S = [lr, wd, b1, b2] (rationals); a coordinate C = [p, m] *)
Decay(S) == QSub(One1, QMul(S.lr, S.wd))
Direction(S, m, g) == Sign(QAdd(QMul(S.b1, m), QMul(QSub(One1, S.b1), g))[1])
Update(S, C, g) ==
  IF g = Zero THEN C
  ELSE [p |-> QSub(QMul(C.p, Decay(S)), QMul(S.lr, <<Direction(S, C.m, g), 1>>)),
        m |-> QAdd(QMul(S.b2, C.m), QMul(QSub(One1, S.b2), g))]
=============================================================================
