----------------------------- MODULE MCProtocol ------------------------------
(* Schedules for the real code from CommitProtocol: for every transition of its   *)
(* state graph (processes that have the database open or will open it, in every    *)
(* interleaving of their file operations, with crashes and failures) the path      *)
(* that leads over it. The driver lets the processes of the real code run up to     *)
(* the file operation each step stands for; SharedTrace judges what was seen.      *)
EXTENDS CommitProtocol, TLC, Json

VARIABLES hist, role, gone, old
mvars == <<vars, hist, role, gone, old>>

MCInit ==
  /\ old \in {<<>>, <<99>>}
  /\ role \in [Procs -> {"idle", "out"}]
  /\ \E p \in Procs : role[p] = "idle"
  /\ files = <<[ref |-> IF old = <<>> THEN NoRef ELSE old, data |-> old, torn |-> FALSE]>>
  /\ path = [src |-> 1, dst |-> 0, bck |-> 0]
  /\ lock = <<"none">>
  /\ proc = [p \in Procs |-> IF role[p] = "out" THEN Out ELSE [Out EXCEPT !.at = "idle", !.conn = 1, !.base = old]]
  /\ done = <<>>
  /\ spent = [crash |-> 0, fault |-> 0, commit |-> 0, delete |-> 0]
  /\ hist = <<>>
  /\ gone = {}

\* the file operation a step stands for
Label(at) ==
  CASE at = "out" -> "open src" [] at = "read" -> "read" [] at \in {"stat1", "stat2"} -> "stat" [] at = "lockopen" -> "creat src"
    [] at = "flock" -> "flock" [] at = "create" -> "creat dst" [] at \in {"ref", "copy", "data", "copybck"} -> "write" [] at = "backup" -> "creat bck"
    [] at = "opendst" -> "open dst" [] at = "rename" -> "rename" [] at = "unlink" -> "unlink" [] at = "unlock" -> "end" [] OTHER -> ""

Said(p, what) ==
  hist' = IF what = "" THEN hist ELSE Append(hist, [p |-> p, l |-> what])

\* a copy that is over is no file operation
Silent(p) == Is(p, "copy") /\ proc'[p].at = "data"

MCNext ==
  /\ \E p \in Procs \ gone :
       \/ Step(p) /\ Said(p, IF Silent(p) THEN "" ELSE Label(proc[p].at)) /\ UNCHANGED gone
       \/ Crash(p) /\ Committing(p) /\ Said(p, "crash") /\ gone' = gone \cup {p}
       \/ Fault(p) /\ Said(p, "fault") /\ UNCHANGED gone
  /\ UNCHANGED <<role, old>>
  /\ hist' # hist => PrintT("B " \o ToJson([role |-> role, old |-> Len(old), sched |-> hist']))

MCSpec == MCInit /\ [][MCNext]_mvars
\* where the path does not matter: what was torn, and which success came first
MCView == <<files, path, lock, proc, spent, role, gone, old>>
=============================================================================
