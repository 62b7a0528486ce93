------------------------------ MODULE Objects -------------------------------
(* Instances of the library's modules as a user sees them over time.  The     *)
(* only state of an instance is the value of its registered parameters and    *)
(* buffers, abstracted to a token; what it computes for one sample is a       *)
(* function of configuration, token and sample and of nothing else.  The      *)
(* function itself is unknown here: the first observation defines it.         *)
EXTENDS Arith

NoObj == 0
(* H: [st: id -> token (0: no instance), cfg: id -> configuration,            *)
(*     snap: name -> [tok, cfg], next: first unused token,                     *)
(*     memo: <<cfg, token, sample>> -> output]                                 *)
Empty == [st |-> <<>>, cfg |-> <<>>, snap |-> <<>>, next |-> 1, memo |-> <<>>]
Known(H, id) == id \in DOMAIN H.st
(* a fresh instance has parameters of its own *)
New(H, id, c) == [H EXCEPT !.st = (id :> H.next) @@ @, !.cfg = (id :> c) @@ @, !.next = @ + 1]
(* training step or any other write to the parameters of one instance *)
Perturb(H, id) == [H EXCEPT !.st = (id :> H.next) @@ @, !.next = @ + 1]
(* the saved state of src read into dst, an instance of the same configuration *)
LoadOK(H, dst, src) == Known(H, dst) /\ Known(H, src) /\ H.cfg[dst] = H.cfg[src]
Load(H, dst, src) == [H EXCEPT !.st = (dst :> H.st[src]) @@ @]
(* a copy becomes instance id *)
CopyOK(H, id, src) == Known(H, src) /\ id # src
Copy(H, id, src) == [H EXCEPT !.st = (id :> H.st[src]) @@ @, !.cfg = (id :> H.cfg[src]) @@ @]
(* checkpoints outlive the instance they were taken from *)
Save(H, name, id) == [H EXCEPT !.snap = (name :> [tok |-> H.st[id], cfg |-> H.cfg[id]]) @@ @]
RestoreOK(H, id, name) == Known(H, id) /\ name \in DOMAIN H.snap /\ H.snap[name].cfg = H.cfg[id]
Restore(H, id, name) == [H EXCEPT !.st = (id :> H.snap[name].tok) @@ @]

Key(H, id, s) == <<H.cfg[id], H.st[id], s>>
Seen(H, id, s) == Key(H, id, s) \in DOMAIN H.memo
Learn(H, id, s, y) == IF Seen(H, id, s) THEN H ELSE [H EXCEPT !.memo = (Key(H, id, s) :> y) @@ @]

(* trainable values of a stack of link groups [kind, n, s, links, extra] *)
PerLink(g) == CASE g.kind = "poly" -> g.n
                [] g.kind = "cont" -> (g.n - 1) * g.s + 1
                [] g.kind = "disc" -> g.n * g.s
                [] g.kind = "one"  -> 1
TrainableCount(gs) == SumSeq([i \in DOMAIN gs |-> PerLink(gs[i]) * gs[i].links])
=============================================================================
