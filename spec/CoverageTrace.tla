---------------------------- MODULE CoverageTrace ----------------------------
(* Judges recorded coverages of random grammars.  *)
EXTENDS Coverage, TLC, Json, IOUtils

VARIABLE idx

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

Range(s) == {s[i] : i \in 1..Len(s)}
ComposedAll(d) == [t \in 1..Len(d.tokens) |-> Composed(d, t)]
\* a parse that does not match has no tree
Plain(e) == IF e.ok THEN e ELSE [e EXCEPT !.end = 0, !.tree = <<>>]
Judge(r) == [composed |-> r.composed = ComposedAll(r.doc),
             coverages |-> {[e EXCEPT !.x = [i \in 1..Len(e.x) |-> Plain(e.x[i])]] : e \in Range(r.coverages)} = Coverages(r.doc, 1),
             covered |-> Range(r.covered) = Covered(r.doc, 1),
             uncovered |-> Range(r.uncovered) = Uncovered(r.doc, 1)]

Init == idx = 0
Next == \/ /\ idx = 0
           /\ idx' \in 1..Len(Trace)
        \/ /\ idx > 0
           /\ LET r == Trace[idx]
                  j == Judge(r)
              IN IF j.composed /\ j.coverages /\ j.covered /\ j.uncovered THEN TRUE
                 ELSE PrintT("B " \o ToJson([caseno |-> r.caseno, judged |-> j, got |-> r,
                        composed |-> ComposedAll(r.doc), coverages |-> Coverages(r.doc, 1), covered |-> Covered(r.doc, 1), uncovered |-> Uncovered(r.doc, 1)]))
           /\ idx' = -idx
Spec == Init /\ [][Next]_idx
Complete == TLCGet("stats").distinct = 2 * Len(Trace) + 1
=============================================================================
