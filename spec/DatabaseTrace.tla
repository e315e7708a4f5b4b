---------------------------- MODULE DatabaseTrace ----------------------------
(* Judges traces recorded from the real database application: each event is an *)
(* operation with its result and everything observable after it. The monitor    *)
(* takes the corresponding step of Database and compares. A run that disagrees  *)
(* is emitted as the behaviour the specification prescribes for its operations. *)
EXTENDS Database, Integers, Json, IOUtils

VARIABLES idx, bad, hist

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TraceLens == JsonDeserialize(IOEnv.VERIF_LENS_FILE)

Obs(dr, cx) ==
  [stored |-> [n \in Names |-> [there |-> dr[n].ver # 0, view |-> View(dr[n])]],
   ctxs   |-> [a \in Apps |-> [i \in 1..Len(cx[a]) |->
                 [open |-> cx[a][i].open, view |-> View(cx[a][i].base)]]]]

TraceInit == Init /\ idx = 1 /\ bad = FALSE /\ hist = <<>>

Do(e) ==
  CASE e.op = "new"    -> New(e.app, e.name)
    [] e.op = "delete" -> Delete(e.app, e.name)
    [] e.op = "open"   -> Open(e.app, e.name)
    [] e.op = "write"  -> Write(e.app, e.i, e.h, e.d, e.k)
    [] e.op = "cancel" -> Cancel(e.app, e.i)
    [] e.op = "commit" -> Commit(e.app, e.i)
    [] e.op = "close"  -> Close(e.app, e.i)

Reset ==
  /\ dir' = [n \in Names |-> Absent]
  /\ ctx' = [a \in Apps |-> <<>>]
  /\ clock' = 1
  /\ act' = [op |-> "init", app |-> "", name |-> "", i |-> 0, h |-> 0, d |-> 0, k |-> 0, res |-> Ok]

\* The emitted behaviour carries the predicted observation of every step.
Emitted(e) == [op |-> act'.op, app |-> act'.app, name |-> act'.name, i |-> act'.i, h |-> act'.h,
               d |-> act'.d, k |-> act'.k, res |-> act'.res, obs |-> Obs(dir', ctx')]

TraceNext ==
  /\ idx <= Len(Trace)
  /\ idx' = idx + 1
  /\ LET e == Trace[idx]
     IN IF e.op = "reset"
        THEN Reset /\ bad' = FALSE /\ hist' = <<e.run>>
        ELSE IF bad
        THEN UNCHANGED <<dir, ctx, clock, act, bad, hist>>
        ELSE /\ Do(e)
             /\ hist' = Append(hist, Emitted(e))
             /\ bad' = ~(e.res = act'.res /\ e.extra = "" /\ e.obs = Obs(dir', ctx'))

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, idx, bad, hist>>

\* A state in which bad has just become true.
Report ==
  (bad /\ idx > 1 /\ Trace[idx-1].op # "reset" /\ Len(hist) > 1 /\ TLCGet(1) # hist[1])
    => /\ TLCSet(1, hist[1])
       /\ PrintT("B " \o ToJson([steps |-> Tail(hist), seed |-> atoi(IOEnv.VERIF_SEED), caseno |-> hist[1]]))

ASSUME TLCSet(1, -1)

TraceView == <<idx, bad>>

Complete == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
