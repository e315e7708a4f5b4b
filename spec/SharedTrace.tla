----------------------------- MODULE SharedTrace -----------------------------
(* Judges runs of several applications on one database, interleaved at their     *)
(* file operations. Events:                                                    *)
(*   inv  an application calls an operation                                     *)
(*   fs   what a newly opened context sees after a file operation that changes   *)
(*        the file system                                                     *)
(*   ret  the operation returns, with its result and what its context shows      *)
(* The stored database may change only the way Commit of Database changes it,    *)
(* by a commit that is running, from the version that commit is based on, and at  *)
(* most once per call: this is the point where the commit takes effect. A commit  *)
(* that succeeds took effect, one that fails did not. An open shows a version     *)
(* that was stored between its call and its return.                             *)
(*   crash  the process of an application stops                                  *)
(*   fault  a file operation of the running commit fails: it may then be refused,  *)
(*          or report an error although it took effect                            *)
EXTENDS Database, Integers, Json, IOUtils

VARIABLES idx, bad, run, pend, why

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TraceLens == JsonDeserialize(IOEnv.VERIF_LENS_FILE)

N == "n"
Idle == [op |-> "none", i |-> 0, lin |-> FALSE, db |-> Absent, seen |-> {}, overlap |-> FALSE, fault |-> FALSE]

svars == <<vars, idx, bad, run, pend, why>>

SharedInit == Init /\ idx = 1 /\ bad = FALSE /\ run = -1 /\ pend = [a \in Apps |-> Idle] /\ why = ""

Invoke(e) ==
  /\ pend' = [b \in Apps |->
       IF b = e.app
       THEN [op |-> e.op, i |-> e.i, lin |-> FALSE, db |-> Absent, seen |-> {dir[N]},
             overlap |-> \E c \in Apps \ {e.app} : pend[c].op = "commit", fault |-> FALSE]
       ELSE IF e.op = "commit" /\ pend[b].op = "commit" THEN [pend[b] EXCEPT !.overlap = TRUE] ELSE pend[b]]
  /\ UNCHANGED <<vars, bad, why>>

Candidates(view) ==
  {a \in Apps : /\ pend[a].op = "commit" /\ ~pend[a].lin /\ CanCommit(a, pend[a].i)
                /\ View(Committed(ctx[a][pend[a].i].base, ctx[a][pend[a].i].pending, clock)) = view}

FileStep(e) ==
  IF e.ok /\ e.view = View(dir[N])
  THEN UNCHANGED <<vars, bad, pend, why>>
  ELSE IF e.ok /\ Candidates(e.view) # {}
  THEN LET a == CHOOSE a \in Candidates(e.view) : TRUE
           db == Committed(ctx[a][pend[a].i].base, ctx[a][pend[a].i].pending, clock)
       IN /\ dir' = [dir EXCEPT ![N] = db]
          /\ clock' = clock + 1
          /\ pend' = [b \in Apps |->
               IF b = a THEN [pend[b] EXCEPT !.lin = TRUE, !.db = db, !.seen = @ \cup {db}]
               ELSE [pend[b] EXCEPT !.seen = @ \cup {db}]]
          /\ UNCHANGED <<ctx, act, bad, why>>
  ELSE /\ bad' = TRUE
       /\ why' = "the stored database is neither unchanged nor extended by a running commit that is based on it"
       /\ UNCHANGED <<vars, pend>>

Judge(cond, msg) == bad' = ~cond /\ why' = (IF cond THEN "" ELSE msg)

Returned(e) ==
  LET p == pend[e.app]
      a == e.app
      i == p.i
  IN
  /\ pend' = [pend EXCEPT ![a] = Idle]
  /\ CASE e.op = "commit" /\ e.res = Ok ->
            IF p.lin
            THEN /\ ctx' = [ctx EXCEPT ![a][i].base = p.db, ![a][i].pending = <<>>]
                 /\ Judge(e.view = View(p.db), "after its commit a context does not show what it committed")
                 /\ UNCHANGED <<dir, clock, act>>
            ELSE /\ Judge(FALSE, "a commit reported success without taking effect, or from an outdated version")
                 /\ UNCHANGED vars
       [] e.op = "commit" /\ e.res = Err ->
            /\ UNCHANGED vars
            /\ IF p.lin THEN Judge(p.fault /\ e.view = View(ctx[a][i].base), "a commit took effect but reported an error")
               ELSE IF ~IsOpen(a, i) \/ ctx[a][i].pending = <<>> THEN Judge(TRUE, "")
               ELSE Judge((p.overlap \/ p.fault \/ \E v \in p.seen : v.ver # ctx[a][i].base.ver)
                            /\ e.view = View(ctx[a][i].base),
                          "an up-to-date commit was refused although no other commit was running, or the refusal changed what its context shows")
       [] e.op = "open" /\ e.res = Ok ->
            LET fits == {v \in p.seen : v.ver # 0 /\ View(v) = e.view}
            IN IF fits # {} /\ ~OpenOn(a, N)
               THEN /\ ctx' = [ctx EXCEPT ![a] = Append(@, [open |-> TRUE, name |-> N, base |-> CHOOSE v \in fits : TRUE, pending |-> <<>>])]
                    /\ Judge(TRUE, "")
                    /\ UNCHANGED <<dir, clock, act>>
               ELSE /\ Judge(FALSE, "an opened context shows a version that was not stored while it was opened")
                    /\ UNCHANGED vars
       [] e.op = "open" /\ e.res = Err ->
            /\ Judge(OpenOn(a, N) \/ \E v \in p.seen : v.ver = 0, "opening an existing database failed")
            /\ UNCHANGED vars
       [] e.op = "r" ->
            /\ Judge(IsOpen(a, i) => e.view = View(ctx[a][i].base), "a context does not keep showing the version it is based on")
            /\ UNCHANGED vars
       [] e.op = "new" ->
            /\ New(a, N) /\ Judge(act'.res = e.res, "new")
       [] e.op = "write" ->
            /\ Write(a, i, e.h, e.d, e.k) /\ Judge(act'.res = e.res, "write")
       [] e.op = "cancel" ->
            /\ Cancel(a, i) /\ Judge(act'.res = e.res, "cancel")
       [] e.op = "close" ->
            /\ Close(a, i) /\ Judge(act'.res = e.res, "close")
       [] OTHER -> Judge(FALSE, "unknown event") /\ UNCHANGED vars

SharedTraceNext ==
  /\ idx <= Len(Trace)
  /\ idx' = idx + 1
  /\ LET e == Trace[idx]
     IN IF e.ev = "reset"
        THEN /\ dir' = [n \in Names |-> Absent]
             /\ ctx' = [a \in Apps |-> <<>>]
             /\ clock' = 1
             /\ act' = [op |-> "init", app |-> "", name |-> "", i |-> 0, h |-> 0, d |-> 0, k |-> 0, res |-> Ok]
             /\ bad' = FALSE /\ run' = e.run /\ pend' = [a \in Apps |-> Idle] /\ why' = ""
        ELSE IF bad
        THEN UNCHANGED <<vars, bad, run, pend, why>>
        ELSE /\ UNCHANGED run
             /\ CASE e.ev = "inv" -> Invoke(e)
                  [] e.ev = "fs"  -> FileStep(e)
                  [] e.ev = "ret" -> Returned(e)
                  [] e.ev = "fault" -> /\ pend' = [pend EXCEPT ![e.app].fault = TRUE]
                                       /\ UNCHANGED <<vars, bad, why>>
                  [] e.ev = "crash" -> /\ pend' = [pend EXCEPT ![e.app] = Idle]
                                       /\ ctx' = [ctx EXCEPT ![e.app] = [j \in 1..Len(@) |-> [open |-> FALSE, name |-> @[j].name, base |-> Absent, pending |-> <<>>]]]
                                       /\ UNCHANGED <<dir, clock, act, bad, why>>

SharedTraceSpec == SharedInit /\ [][SharedTraceNext]_svars

Report ==
  (bad /\ idx > 1 /\ TLCGet(1) # run)
    => /\ TLCSet(1, run)
       /\ PrintT("B " \o ToJson([run |-> run, event |-> idx - 1, why |-> why]))

ASSUME TLCSet(1, -1)

SharedView == <<idx, bad>>

Complete == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
