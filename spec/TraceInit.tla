----------------------------- MODULE TraceInit ------------------------------
(* Initial weights.  W[o][i] are the weights of link (o, i) in units of 1/sc *)
(* - of a layer, or of a convolution whose inputs are the window entries.    *)
(* The distributions themselves are random; what is specified is their       *)
(* support, their shape per link, and that links are drawn separately (the   *)
(* clauses about spread fail with probability below 2^-25 on a right         *)
(* implementation).                                                          *)
EXTENDS Arith, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, done
vars == <<l, bad, done>>
If(c, name) == IF c THEN <<>> ELSE <<name>>

Links(W) == FoldLeft(LAMBDA q, r : q \o r, <<>>, W)
AllW(W) == FoldLeft(LAMBDA q, k : q \o k, <<>>, Links(W))
Width(W) == Len(W[1])
(* bound a/b given as magnitude mn/md over the number of inputs *)
Below(v, e) == v * e.md * e.fan <= e.mn * e.sc + 2 * e.md * e.fan

Separate(vals, what) ==
  LET n == Len(vals)
      D == Cardinality({vals[k] : k \in DOMAIN vals})
  IN If(n < 4 \/ 4 * D >= 3 * n, what)
(* at least one in the lower and one in the upper half of [lo, hi] *)
Spread(vals, mid, what) ==
  If(Len(vals) < 30 \/ ((\E k \in DOMAIN vals : vals[k] < mid) /\ (\E k \in DOMAIN vals : vals[k] > mid)), what)

ChkConst(e) ==
  LET L == Links(e.W)
      first == Force([k \in DOMAIN L |-> L[k][1]])
  IN If(\A k \in DOMAIN L : \A j \in DOMAIN L[k] : Near(L[k][j], L[k][1], 1), "a new link is a constant function")
     \o If(\A k \in DOMAIN first : first[k] >= 0 /\ Below(first[k], e),
           "the constant lies in [0, magnitude / number of inputs]")
     \o Separate(first, "constants are drawn separately for every link")
     \o Spread(first, (e.mn * e.sc) \div (2 * e.md * e.fan), "constants fill their interval")
(* the constants of a segmented multi-dimensional layer take either sign *)
ChkEither(e) ==
  LET L == Links(e.W)
      first == Force([k \in DOMAIN L |-> L[k][1]])
  IN If(\A k \in DOMAIN L : \A j \in DOMAIN L[k] : Near(L[k][j], L[k][1], 1), "a new link is a constant function")
     \o If(\A k \in DOMAIN first : Below(Abs(first[k]), e), "the constant is within magnitude / number of inputs of zero")
     \o Separate(first, "constants are drawn separately for every link")
     \o Spread(first, 0, "constants take both signs")
     \o Spread(AbsSeq(first), (e.mn * e.sc) \div (2 * e.md * e.fan), "constants fill their interval")
ChkUniform(e) ==
  LET A == AllW(e.W)
  IN If(\A k \in DOMAIN A : Below(Abs(A[k]), e), "a uniform weight is within magnitude / number of inputs of zero")
     \o Separate(A, "uniform weights are drawn separately")
     \o Spread(A, 0, "uniform weights take both signs")
     \o Spread(AbsSeq(A), (e.mn * e.sc) \div (2 * e.md * e.fan), "uniform weights fill their interval")

(* A[o][i], B[o][i]: values of link (o, i) at the two ends of the domain      *)
(* [-half, half], half = hn/hd; slope bound an/ad, offset bound bn/bd         *)
Slope2(e, o, i) == e.B[o][i] - e.A[o][i]                  \* = 2 a half
Off2(e, o, i)   == e.B[o][i] + e.A[o][i]                  \* = 2 b
Pairs(e, F(_, _, _)) == Links([o \in DOMAIN e.A |-> [i \in DOMAIN e.A[o] |-> <<F(e, o, i)>>]])
Vals(e, F(_, _, _)) == LET q == Pairs(e, F) IN Force([k \in DOMAIN q |-> q[k][1]])
ChkLine(e) ==
  LET S == Vals(e, Slope2)
      O == Vals(e, Off2)
  IN If(\A k \in DOMAIN S : Abs(S[k]) * e.ad * e.hd <= 2 * e.an * e.hn * e.sc + e.tol * e.ad * e.hd,
        "slope within the maximum slope")
     \o If(\A k \in DOMAIN O : Abs(O[k]) * e.bd <= 2 * e.bn * e.sc + e.tol * e.bd, "offset within the maximum offset")
     \o (IF e.an = 0 THEN <<>> ELSE Separate(S, "slopes are drawn separately for every link")
         \o Spread(S, 0, "slopes take both signs")
         \o Spread(AbsSeq(S), (e.an * e.hn * e.sc) \div (e.ad * e.hd), "slopes fill their interval"))
     \o (IF e.bn = 0 THEN <<>> ELSE Separate(O, "offsets are drawn separately for every link")
         \o Spread(O, 0, "offsets take both signs"))
(* the layer evaluated at X/D: every link is the line through its end values *)
ChkEval(e) ==
  LET P == e.hn * e.D                       \* half in units of 1/(hd*D)
      Want(b, o) == SumSeq([i \in DOMAIN e.X[b] |->
                      e.A[o][i] * (P - e.X[b][i] * e.hd) + e.B[o][i] * (P + e.X[b][i] * e.hd)])
  IN IF ~(e.tol >= 2 /\ 50 * e.tol <= e.sc) THEN <<"H:eval">>
     ELSE If(/\ Len(e.Y) = Len(e.X)
             /\ \A b \in DOMAIN e.X : \A o \in DOMAIN e.A : Near(Want(b, o), 2 * P * e.Y[b][o], 2 * P * e.tol),
             "a linearly initialised link is one straight line over all segments")
Check(e) ==
  CASE e.e = "const"   -> ChkConst(e)
    [] e.e = "either"  -> ChkEither(e)
    [] e.e = "uniform" -> ChkUniform(e)
    [] e.e = "line"    -> ChkLine(e)
    [] e.e = "eval"    -> ChkEval(e)
    [] e.e = "err"     -> <<e.op \o " raised: " \o e.type>>
    [] e.e = "fact"    -> If(e.ok, e.what)
    [] e.e = "reset"   -> <<>>
    [] OTHER -> <<"H:unknown event">>

Init == l = 1 /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
