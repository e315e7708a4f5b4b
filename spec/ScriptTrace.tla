----------------------------- MODULE ScriptTrace -----------------------------
(* Judges recorded readings of scripts: each record is a text and what the     *)
(* shipped grammar made of it.                                               *)
EXTENDS Script, TLC, Json, IOUtils

VARIABLE idx

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

Init == idx = 0
Next == \/ /\ idx = 0
           /\ idx' \in 1..Len(Trace)
        \/ /\ idx > 0
           /\ LET c == Trace[idx]
                  x == Read(c.i)
              IN IF x = c.r THEN TRUE ELSE PrintT("B " \o ToJson([caseno |-> c.caseno, got |-> c, expected |-> x]))
           /\ idx' = -idx
Spec == Init /\ [][Next]_idx
\* every record was judged
Complete == TLCGet("stats").distinct = 2 * Len(Trace) + 1
=============================================================================
