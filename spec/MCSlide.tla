------------------------------ MODULE MCSlide -------------------------------
(* Which input each kernel entry of each output reads, by mechanism: an       *)
(* ordinary convolution lays out the padded line and moves the window over    *)
(* it; a transposed one walks over the inputs, scatters every input to a long *)
(* line, then cuts the padding off and appends the output padding.  The       *)
(* invariants say that Extent and Source of Conv (which the recorded traces   *)
(* are checked against) describe exactly this, and that the transposed        *)
(* convolution is the adjoint of the ordinary one.  The tables are printed    *)
(* and replayed into real convolutions of every kind.                         *)
EXTENDS Conv, Json
CONSTANTS Sizes, Kernels, Strides, Pads, Dilations, Modes
VARIABLES C, size, at, table, line, done
vars == <<C, size, at, table, line, done>>

Both(v) == <<v, v>>
Cfg(k, st, pad, dil, op, tr, pm) ==
  [k |-> Both(k), st |-> Both(st), pad |-> Both(pad), dil |-> Both(dil), op |-> Both(op), tr |-> tr, pm |-> pm]
K == C.k[1]
(* the padded line: sources, -1 for a zero *)
Padded(pm, n, pad) ==
  LET body == [i \in 1 .. n |-> i - 1]
      left(j) == CASE pm = "zeros" -> -1 [] pm = "replicate" -> 0
                   [] pm = "reflect" -> body[(pad - j) + 2] [] pm = "circular" -> body[n - pad + j]
      right(j) == CASE pm = "zeros" -> -1 [] pm = "replicate" -> n - 1
                    [] pm = "reflect" -> body[n - j] [] pm = "circular" -> body[j]
  IN  [j \in 1 .. pad |-> left(j)] \o body \o [j \in 1 .. pad |-> right(j)]
Fits(pm, n, pad) == CASE pm = "reflect" -> pad < n [] pm = "circular" -> pad <= n [] OTHER -> TRUE
Nobody(k) == [t \in 1 .. k |-> -1]
Span(c, n) == (n - 1) * c.st[1] + c.dil[1] * (c.k[1] - 1) + 1          \* of the scattered line
Init ==
  \E k \in Kernels, st \in Strides, pad \in Pads, dil \in Dilations, tr \in BOOLEAN, pm \in Modes, n \in Sizes :
  \E op \in 0 .. (IF tr THEN Max2(st, dil) - 1 ELSE 0) :
    /\ tr => pm = "zeros"
    /\ Fits(pm, n, pad)
    /\ C = Cfg(k, st, pad, dil, op, tr, pm) /\ size = n
    /\ Extent(Cfg(k, st, pad, dil, op, tr, pm), 1, n) >= 1
    /\ at = 0 /\ table = <<>> /\ done = FALSE
    /\ line = IF tr THEN [y \in 1 .. Span(Cfg(k, st, pad, dil, op, tr, pm), n) |-> Nobody(k)] ELSE Padded(pm, n, pad)
(* ordinary: one more window, while it fits on the padded line *)
Slide ==
  /\ ~C.tr /\ ~done
  /\ IF at + C.dil[1] * (K - 1) < Len(line)
     THEN /\ table' = Append(table, [t \in 1 .. K |-> line[at + (t - 1) * C.dil[1] + 1]])
          /\ at' = at + C.st[1] /\ done' = FALSE
     ELSE /\ done' = TRUE /\ UNCHANGED <<table, at>>
  /\ UNCHANGED <<C, size, line>>
(* transposed: one more input, then cut *)
Scatter ==
  /\ C.tr /\ ~done /\ at < size
  /\ line' = [y \in DOMAIN line |-> [t \in 1 .. K |->
                IF y - 1 = at * C.st[1] + (t - 1) * C.dil[1] THEN at ELSE line[y][t]]]
  /\ at' = at + 1 /\ UNCHANGED <<C, size, table, done>>
Cut ==
  /\ C.tr /\ ~done /\ at = size
  /\ table' = SubSeq(line \o [j \in 1 .. C.op[1] |-> Nobody(K)], C.pad[1] + 1, Len(line) - C.pad[1] + C.op[1])
  /\ done' = TRUE /\ UNCHANGED <<C, size, at, line>>
Next == Slide \/ Scatter \/ Cut
Spec == Init /\ [][Next]_vars

Count == done => Len(table) = Extent(C, 1, size)
Reads == done => \A y \in DOMAIN table : \A t \in 1 .. K : table[y][t] = Source(C, 1, y - 1, t - 1, size)
(* nothing is scattered onto something else *)
Inputs == \A y \in DOMAIN table : \A t \in 1 .. K : table[y][t] \in -1 .. size - 1
(* input i reaches output y through entry t exactly if the ordinary          *)
(* convolution with the same settings reads y for i through t                *)
Adjoint == done /\ C.tr =>
  \A y \in DOMAIN table : \A t \in 1 .. K : \A i \in 0 .. size - 1 :
    (table[y][t] = i) <=> (Source([C EXCEPT !.tr = FALSE], 1, i, t - 1, Len(table)) = y - 1)
(* and it gives the ordinary one its size back *)
Size == done /\ C.tr /\ C.op[1] < C.st[1] => Extent([C EXCEPT !.tr = FALSE], 1, Len(table)) = size
(* with zeros every input is read at most once by an output, and all outputs *)
(* together read an input at most K times                                    *)
Once == done /\ C.pm = "zeros" => \A i \in 0 .. size - 1 :
  /\ \A y \in DOMAIN table : Cardinality({t \in 1 .. K : table[y][t] = i}) <= 1
  /\ Cardinality({y \in DOMAIN table : i \in {table[y][t] : t \in 1 .. K}}) <= K
Emit == done => PrintT("EMIT " \o ToJson([k |-> K, st |-> C.st[1], pad |-> C.pad[1], dil |-> C.dil[1], op |-> C.op[1],
                                          tr |-> C.tr, pm |-> C.pm, size |-> size, table |-> table]))
=============================================================================
