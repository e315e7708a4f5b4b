------------------------------- MODULE MCFault -------------------------------
(* Disturbed operations on top of Database:                                   *)
(*   crash       the process stops somewhere inside a commit                   *)
(*   failcommit  a file operation fails somewhere inside a commit              *)
(*   failopen    a file operation fails somewhere inside an open               *)
(* Where exactly is left open here: the specification says which outcomes are   *)
(* allowed, and the driver enumerates every file operation of the real code     *)
(* (CommitProtocol.tla is the model at that level). After the disturbance the   *)
(* behaviour goes on with one of the scripts, to show that nothing is left       *)
(* broken.                                                                    *)
EXTENDS MCDatabase

CONSTANTS Kinds_Of_Disturbance,  \* subset of {"crash", "failcommit", "failopen"}
          Twice                  \* TRUE: the script may contain a second crash

VARIABLES phase,    \* "run", or the operations of the script still to come
          since     \* operations since the disturbance (part of the VIEW)

fvars == <<vars, hist, phase, since>>

DeadApp(cx) == [i \in 1..Len(cx) |-> [open |-> FALSE, name |-> cx[i].name, base |-> Absent, pending |-> <<>>]]

\* every process stops: all applications of the model live in the one that crashes
AllDead == [a \in Apps |-> DeadApp(ctx[a])]

AfterCommit(a, i) == Committed(ctx[a][i].base, ctx[a][i].pending, clock)

CrashCommit(a, i, outcome) ==
  /\ CanCommit(a, i)
  /\ dir' = IF outcome = "new" THEN [dir EXCEPT ![ctx[a][i].name] = AfterCommit(a, i)] ELSE dir
  /\ ctx' = AllDead
  /\ clock' = clock + 1
  /\ Note("crash", a, ctx[a][i].name, i, 0, 0, 0, outcome)

CrashAlts(a, i) ==
  <<[res |-> "old", obs |-> Obs(dir, AllDead)],
    [res |-> "new", obs |-> Obs([dir EXCEPT ![ctx[a][i].name] = AfterCommit(a, i)], AllDead)]>>

NewCtx(a, i) == [ctx EXCEPT ![a][i].base = AfterCommit(a, i), ![a][i].pending = <<>>]
NewDir(a, i) == [dir EXCEPT ![ctx[a][i].name] = AfterCommit(a, i)]

FailCommit(a, i, outcome) ==
  /\ CanCommit(a, i)
  /\ dir' = IF outcome = "err-old" THEN dir ELSE NewDir(a, i)
  /\ ctx' = IF outcome = "ok-new" THEN NewCtx(a, i) ELSE ctx
  /\ clock' = clock + 1
  /\ Note("failcommit", a, ctx[a][i].name, i, 0, 0, 0, outcome)

FailCommitAlts(a, i) ==
  <<[res |-> "ok-new",  obs |-> Obs(NewDir(a, i), NewCtx(a, i))],
    [res |-> "err-old", obs |-> Obs(dir, ctx)],
    [res |-> "err-new", obs |-> Obs(NewDir(a, i), ctx)]>>

Opened1(a, n) == [ctx EXCEPT ![a] = Append(@, [open |-> TRUE, name |-> n, base |-> dir[n], pending |-> <<>>])]

FailOpen(a, n, outcome) ==
  /\ Exists(n) /\ ~OpenOn(a, n)
  /\ ctx' = IF outcome = "ok" THEN Opened1(a, n) ELSE ctx
  /\ UNCHANGED <<dir, clock>>
  /\ Note("failopen", a, n, IF outcome = "ok" THEN Len(ctx[a]) + 1 ELSE 0, 0, 0, 0, outcome)

FailOpenAlts(a, n) ==
  <<[res |-> "ok", obs |-> Obs(dir, Opened1(a, n))], [res |-> "err", obs |-> Obs(dir, ctx)]>>

-----------------------------------------------------------------------------
\* Scripts: operation kinds on the disturbed database. "w1"/"w2" write the first/last data.
Scripts ==
  [crash      |-> {<<"open", "w1", "commit", "close", "open">>,
                   <<"open", "w2", "w1", "commit", "w1", "commit">>,
                   \* a smaller commit than the crashed one, then another: leftovers longer than what replaces them
                   <<"open", "w2", "commit", "w1", "commit", "close", "open">>,
                   <<"delete", "new", "open", "w1", "commit", "close", "open">>}
                  \cup IF Twice THEN {<<"open", "w1", "crash", "open", "w2", "commit", "close", "open">>} ELSE {},
   failcommit |-> {<<"commit", "w1", "commit", "close", "open">>,
                   <<"cancel", "w2", "commit", "w1", "commit", "close", "open">>,
                   <<"w1", "commit">>,
                   <<"close", "open", "w1", "commit", "close", "open">>},
   failopen   |-> {<<"open", "w1", "commit", "close", "open">>}]

ScriptsFor(kind, outcome) ==
  CASE outcome = "err-new" -> {<<"close", "open", "w1", "commit", "close", "open">>}
    [] outcome = "ok-new"  -> {<<"w1", "commit", "close", "open">>}
    [] outcome = "ok"      -> {<<"w1", "commit", "close", "open">>}
    [] OTHER               -> Scripts[kind]

Rec(extra) ==
  [op |-> act'.op, app |-> act'.app, name |-> act'.name, i |-> act'.i, h |-> act'.h, d |-> act'.d, k |-> act'.k,
   res |-> act'.res, obs |-> Obs(dir', ctx'), alts |-> extra]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

Disturb ==
  \E a \in Apps :
    \/ /\ "crash" \in Kinds_Of_Disturbance
       /\ \E i \in 1..Len(ctx[a]), o \in {"old", "new"} :
            /\ CrashCommit(a, i, o)
            /\ \E s \in ScriptsFor("crash", o) : phase' = s
            /\ hist' = Append(hist, Rec(CrashAlts(a, i)))
            /\ since' = <<"crash", a, i, o>>
    \/ /\ "failcommit" \in Kinds_Of_Disturbance
       /\ \E i \in 1..Len(ctx[a]), o \in {"ok-new", "err-old", "err-new"} :
            /\ FailCommit(a, i, o)
            /\ \E s \in ScriptsFor("failcommit", o) : phase' = s
            /\ hist' = Append(hist, Rec(FailCommitAlts(a, i)))
            /\ since' = <<"failcommit", a, i, o>>
    \/ /\ "failopen" \in Kinds_Of_Disturbance
       /\ \E n \in Names, o \in {"ok", "err"} :
            /\ FailOpen(a, n, o)
            /\ \E s \in ScriptsFor("failopen", o) : phase' = s
            /\ hist' = Append(hist, Rec(FailOpenAlts(a, n)))
            /\ since' = <<"failopen", a, 0, o>>

\* the context the script works on: the one opened last on that database
Mine(a, n) == MaxOf({i \in 1..Len(ctx[a]) : ctx[a][i].name = n})

Script ==
  LET a == act.app
      n == act.name
      op == phase[1]
  IN /\ \/ op = "open" /\ Open(a, n) /\ hist' = Append(hist, Rec(<<>>))
        \/ op = "new" /\ New(a, n) /\ hist' = Append(hist, Rec(<<>>))
        \/ op = "delete" /\ Delete(a, n) /\ hist' = Append(hist, Rec(<<>>))
        \/ op = "commit" /\ Commit(a, Mine(a, n)) /\ hist' = Append(hist, Rec(<<>>))
        \/ op = "cancel" /\ Cancel(a, Mine(a, n)) /\ hist' = Append(hist, Rec(<<>>))
        \/ op = "close" /\ Close(a, Mine(a, n)) /\ hist' = Append(hist, Rec(<<>>))
        \/ op = "w1" /\ Write(a, Mine(a, n), MinOf(Hashes), MaxOf(Datas), MinOf(Kinds)) /\ hist' = Append(hist, Rec(<<>>))
        \/ op = "w2" /\ Write(a, Mine(a, n), MaxOf(Hashes), MinOf(Datas), MaxOf(Kinds)) /\ hist' = Append(hist, Rec(<<>>))
        \/ /\ op = "crash"
           /\ \E o \in {"old", "new"} :
                 CrashCommit(a, Mine(a, n), o) /\ hist' = Append(hist, Rec(CrashAlts(a, Mine(a, n))))
     /\ phase' = Tail(phase)
     /\ since' = Append(since, act'.res)

FaultInit == MCInit /\ phase = <<"run">> /\ since = <<>>

FaultNext ==
  \/ /\ phase = <<"run">>
     /\ TLCGet("level") < MaxLevel
     /\ Step
     /\ hist' = Append(hist, act')
     /\ UNCHANGED <<phase, since>>
  \/ phase = <<"run">> /\ Disturb
  \/ /\ phase # <<"run">> /\ phase # <<>>
     /\ Script
     /\ phase' = <<>> => PrintT("B " \o ToJson([steps |-> hist']))

FaultSpec == FaultInit /\ [][FaultNext]_fvars

FaultView == <<dir, ctx, phase, since>>

FaultBound ==
  /\ clock <= MaxCommits + 1
  /\ \A a \in Apps : Len(ctx[a]) <= MaxHandles
  /\ \A a \in Apps : \A i \in 1..Len(ctx[a]) : Len(ctx[a][i].pending) <= MaxPending
  /\ phase = <<"run">> => TLCGet("level") <= MaxLevel

\* C04, C05 on the specification: whatever happened, what is stored is a whole version, the history is a chain,
\* and a committed version only ever grows.
DisturbedAppendOnly ==
  [][act'.op \notin {"delete", "new"} =>
       \A n \in Names : dir[n].ver # 0 =>
         IsPrefix(dir[n].keys, dir'[n].keys) /\ IsPrefix(dir[n].commits, dir'[n].commits)]_fvars
=============================================================================
