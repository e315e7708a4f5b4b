----------------------------- MODULE QueryTrace ------------------------------
(* Judges recorded queries: each record is a document, a tree it gave, and what *)
(* queries and fetches answered on that tree.                                   *)
EXTENDS Query, TLC, Json, IOUtils

VARIABLE idx

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

Bad(c) ==
  {[what |-> "query", n |-> k, expected |-> Answer(c.doc, c.qs[k], c.tree)] : k \in {y \in 1..Len(c.qs) : Answer(c.doc, c.qs[y], c.tree) # c.r[y]}}
  \cup {[what |-> "fetch", n |-> k, expected |-> Fetch(c.doc, c.tree, c.fetch[k].n, c.fetch[k].k)] :
          k \in {y \in 1..Len(c.fetch) : Fetch(c.doc, c.tree, c.fetch[y].n, c.fetch[y].k) # c.fetch[y].r}}

Init == idx = 0
Next == \/ /\ idx = 0
           /\ idx' \in 1..Len(Trace)
        \/ /\ idx > 0
           /\ \A b \in Bad(Trace[idx]) :
                PrintT("B " \o ToJson([caseno |-> Trace[idx].caseno, what |-> b.what, doc |-> Trace[idx].doc, tree |-> Trace[idx].tree, input |-> Trace[idx].input,
                                       asked |-> IF b.what = "query" THEN Trace[idx].qs[b.n] ELSE Trace[idx].fetch[b.n],
                                       got |-> IF b.what = "query" THEN Trace[idx].r[b.n] ELSE Trace[idx].fetch[b.n].r, expected |-> b.expected]))
           /\ idx' = -idx
Spec == Init /\ [][Next]_idx
Complete == TLCGet("stats").distinct = 2 * Len(Trace) + 1
=============================================================================
