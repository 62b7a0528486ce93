------------------------------ MODULE TraceObj ------------------------------
(* Histories of real objects: construction, writes, checkpoints, copies and   *)
(* evaluations, judged against Objects.                                       *)
EXTENDS Objects, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, H, bad, done
vars == <<l, H, bad, done>>
If(c, name) == IF c THEN <<>> ELSE <<name>>
TolOK(e) == 50 * e.tol <= e.top
ChkEval(e) ==
  IF ~(Known(H, e.id) /\ TolOK(e)) THEN <<"H:eval">>
  ELSE IF Len(e.Y) # Len(e.S) THEN <<"one output per sample: " \o e.what>>
  ELSE If(\A k \in DOMAIN e.S :
            Seen(H, e.id, e.S[k]) =>
              LET y == H.memo[Key(H, e.id, e.S[k])] IN
              Len(y) = Len(e.Y[k]) /\ \A j \in DOMAIN y : Near(y[j], e.Y[k][j], e.tol),
          "the output is determined by configuration, weights and sample: " \o e.what)
       \o If(\A a, b \in DOMAIN e.S : e.S[a] = e.S[b] =>
               Len(e.Y[a]) = Len(e.Y[b]) /\ \A j \in DOMAIN e.Y[a] : Near(e.Y[a][j], e.Y[b][j], e.tol),
             "equal samples of a batch give equal outputs: " \o e.what)
(* other weights, other function: a and b are instances of one configuration  *)
ChkDiffer(e) ==
  IF ~(Known(H, e.a) /\ Known(H, e.b) /\ H.st[e.a] # H.st[e.b]) THEN <<"H:differ">>
  ELSE If(e.A # e.B, "the function follows the parameters: " \o e.what)
ChkCount(e) == If(e.got = TrainableCount(e.groups), "number of trainable values: " \o e.what)
ChkGrads(e) ==
  If(\A k \in DOMAIN e.G : e.G[k].has /\ e.G[k].finite, "every parameter receives a gradient: " \o e.what)
  \o If(e.nonzero => \A k \in DOMAIN e.G : e.G[k].some, "every parameter influences the output: " \o e.what)
Check(e) ==
  CASE e.e = "eval"    -> ChkEval(e)
    [] e.e = "differ"  -> ChkDiffer(e)
    [] e.e = "count"   -> ChkCount(e)
    [] e.e = "grads"   -> ChkGrads(e)
    [] e.e = "load"    -> If(LoadOK(H, e.id, e.src), "H:load")
    [] e.e = "copy"    -> If(CopyOK(H, e.id, e.src), "H:copy")
    [] e.e = "restore" -> If(RestoreOK(H, e.id, e.name), "H:restore")
    [] e.e \in {"perturb", "save"} -> If(Known(H, e.id), "H:unknown instance")
    [] e.e = "same"    -> If(e.ok, e.what)          \* bitwise comparison of inputs or weights
    [] e.e = "err"     -> <<e.op \o " raised: " \o e.type>>
    [] e.e = "fact"    -> If(e.ok, e.what)
    [] e.e \in {"reset", "new"} -> <<>>
    [] OTHER -> <<"H:unknown event">>
Effect(e) ==
  CASE e.e = "reset"   -> Empty
    [] e.e = "new"     -> New(H, e.id, e.cfg)
    [] e.e = "perturb" -> Perturb(H, e.id)
    [] e.e = "load"    -> Load(H, e.id, e.src)
    [] e.e = "copy"    -> Copy(H, e.id, e.src)
    [] e.e = "save"    -> Save(H, e.name, e.id)
    [] e.e = "restore" -> Restore(H, e.id, e.name)
    [] e.e = "eval"    -> IF Len(e.Y) # Len(e.S) THEN H
                          ELSE FoldLeft(LAMBDA g, k : Learn(g, e.id, e.S[k], e.Y[k]), H, [k \in DOMAIN e.S |-> k])
    [] OTHER -> H
Init == /\ l = 1 /\ H = Empty /\ bad = <<>> /\ done = FALSE
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ H' = Effect(Trace[l])
        /\ LET c == Check(Trace[l]) IN
           bad' = IF Len(bad) >= 25 THEN bad
                  ELSE bad \o [k \in DOMAIN c |-> [line |-> l, clause |-> c[k]]]
        /\ UNCHANGED done
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
          /\ UNCHANGED <<l, H, bad>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
