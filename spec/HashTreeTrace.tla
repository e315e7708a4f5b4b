---------------------------- MODULE HashTreeTrace ----------------------------
(* Judges recorded uses of the real hash trees: each record is a list of blocks  *)
(* with the tree's leaves, height and head (heads numbered by their bytes), the   *)
(* blocks handed over and what came back.                                       *)
EXTENDS HashTree, TLC, Json, IOUtils

VARIABLE idx

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

Expected(e) ==
  LET o == Order(e.blocks, e.given)
  IN [blocks |-> e.blocks, given |-> e.given, leaves |-> Pad(e.blocks), height |-> Height(e.blocks), ok |-> o.ok,
      out |-> IF o.ok THEN o.out ELSE <<>>]

\* the records before i with the same padded length: their heads are equal exactly when the padded lists are
HeadsOK(i) ==
  \A j \in 1..(i-1) :
    Len(Trace[j].leaves) = Len(Trace[i].leaves) =>
      (Trace[j].head = Trace[i].head) <=> (Pad(Trace[j].blocks) = Pad(Trace[i].blocks))

Agrees(i) ==
  LET e == Trace[i]
      x == Expected(e)
  IN /\ e.leaves = x.leaves /\ e.height = x.height /\ e.ok = x.ok /\ e.out = x.out
     /\ HeadsOK(i)

Init == idx = 1
Next ==
  /\ idx <= Len(Trace)
  /\ idx' = idx + 1
  /\ IF Agrees(idx) THEN TRUE ELSE PrintT("B " \o ToJson([caseno |-> idx, expected |-> Expected(Trace[idx]), heads |-> HeadsOK(idx), got |-> Trace[idx]]))

Spec == Init /\ [][Next]_idx
Complete == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
