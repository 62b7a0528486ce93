------------------------------- MODULE MCProd -------------------------------
(* A product unit takes its links one after the other: the accumulator starts *)
(* at zero and a link of value f turns p into p + f + p f.  The invariants    *)
(* say that this is the product of one plus each link, minus one, that it is  *)
(* the sum over all non-empty sets of links of the products of their values,  *)
(* that the order does not matter, that a zero link changes nothing and that  *)
(* a link of minus one settles the value.  With alpha the sum of the links is *)
(* weighted.  Values are integers over D; every sequence is printed and       *)
(* replayed into product layers.                                              *)
EXTENDS Arith, Json, TLC, FiniteSets
CONSTANTS Values, MaxLen, D
VARIABLES f, p, s
vars == <<f, p, s>>
Small == -3 .. 3
Wide == -5 .. 5

(* p is over D^Len(f) *)
Init == f = <<>> /\ p = 0 /\ s = 0
Take(v) == /\ f' = Append(f, v)
           /\ p' = p * D + v * Pow(D, Len(f)) + p * v
           /\ s' = s + v
Next == Len(f) < MaxLen /\ \E v \in Values : Take(v)
Spec == Init /\ [][Next]_vars

M == Len(f)
Unit(q) == ProdSeq([i \in DOMAIN q |-> D + q[i]]) - Pow(D, Len(q))
Product == p = Unit(f)
RECURSIVE SumOver(_)
Term(S) == ProdSeq([i \in 1 .. M |-> IF i \in S THEN f[i] ELSE D])
SumOver(T) == IF T = {} THEN 0 ELSE LET S == CHOOSE x \in T : TRUE IN Term(S) + SumOver(T \ {S})
Sets == p = SumOver(SUBSET (1 .. M) \ {{}})
Linear == M >= 1 => p - s * Pow(D, M - 1) = SumOver({S \in SUBSET (1 .. M) : Cardinality(S) >= 2})
Swap == \A i \in 1 .. M - 1 : Unit([f EXCEPT ![i] = f[i + 1], ![i + 1] = f[i]]) = p
Drop == \A i \in 1 .. M : f[i] = 0 => p = D * Unit([j \in 1 .. M - 1 |-> IF j < i THEN f[j] ELSE f[j + 1]])
Settle == (\E i \in 1 .. M : f[i] = -D) => p = -Pow(D, M)
Single == M = 1 => p = f[1]
Emit == M >= 1 => PrintT("EMIT " \o ToJson([f |-> f, p |-> p, s |-> s]))
=============================================================================
