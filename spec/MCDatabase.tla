----------------------------- MODULE MCDatabase -----------------------------
(* Bounded instances of Database that also write behaviours out.              *)
(*                                                                           *)
(* Exhaustive mode (Emit = "steps"): hist is the path to the current state and  *)
(* is excluded from the VIEW, so TLC still explores each abstract state once;  *)
(* every transition is emitted as that path plus the observations predicted     *)
(* after its last step.                                                       *)
(* Simulation mode (Emit = "walk"): one random operation per step, emitted as   *)
(* one behaviour with the observations of every step.                         *)
EXTENDS Database, Json, Randomization

CONSTANTS MaxCommits, MaxHandles, MaxPending, MaxLevel, Emit,
          Ops,       \* operations allowed in exhaustive mode
          Prefix,    \* "none", or "open": start with database n created and opened as a/1
          Prefers,   \* how many of a thousand steps of long walks are writes
          ErrDepth   \* operations on closed or unknown contexts are explored up to this level

VARIABLE hist

MCLens == [d \in Datas |-> CASE d % 4 = 1 -> 1 [] d % 4 = 2 -> 3 [] d % 4 = 3 -> 7 [] OTHER -> 16]

Obs(dr, cx) ==
  [stored |-> [n \in Names |-> [there |-> dr[n].ver # 0, view |-> View(dr[n])]],
   ctxs   |-> [a \in Apps |-> [i \in 1..Len(cx[a]) |->
                 [open |-> cx[a][i].open, view |-> View(cx[a][i].base)]]]]

Opened ==
  LET db == [Absent EXCEPT !.ver = 1]
      rec(op, i) == [op |-> op, app |-> "a", name |-> "n", i |-> i, h |-> 0, d |-> 0, k |-> 0, res |-> Ok]
  IN /\ dir = [n \in Names |-> IF n = "n" THEN db ELSE Absent]
     /\ ctx = [a \in Apps |-> IF a = "a" THEN <<[open |-> TRUE, name |-> "n", base |-> db, pending |-> <<>>]>> ELSE <<>>]
     /\ clock = 2
     /\ act = rec("open", 1)
     /\ hist = <<rec("new", 0), rec("open", 1)>>

MCInit == IF Prefix = "open" THEN Opened ELSE Init /\ hist = <<>>

Step ==
  \E a \in Apps :
    \/ \E n \in Names :
         \/ "new" \in Ops /\ New(a, n)
         \/ "delete" \in Ops /\ Delete(a, n)
         \/ "open" \in Ops /\ Open(a, n)
    \/ \E i \in 1..(Len(ctx[a]) + 1) :
         /\ TLCGet("level") > ErrDepth => IsOpen(a, i)
         /\ \/ "cancel" \in Ops /\ Cancel(a, i)
            \/ "commit" \in Ops /\ Commit(a, i)
            \/ "close" \in Ops /\ Close(a, i)
            \/ /\ "write" \in Ops
               /\ \E h \in Hashes, d \in Datas, k \in Kinds : Write(a, i, h, d, k)
            \/ "write" \in Ops /\ Write(a, i, 1, 0, 1)

MCNext ==
  /\ Step
  /\ hist' = Append(hist, act')
  /\ Emit = "steps" => PrintT("B " \o ToJson([steps |-> hist', obs |-> Obs(dir', ctx')]))

MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>

\* The last operation and the path are not part of the state.
MCView == <<dir, ctx>>

Bound ==
  /\ clock <= MaxCommits + 1
  /\ \A a \in Apps : Len(ctx[a]) <= MaxHandles
  /\ \A a \in Apps : \A i \in 1..Len(ctx[a]) : Len(ctx[a][i].pending) <= MaxPending
  /\ TLCGet("level") <= MaxLevel

-----------------------------------------------------------------------------
(* Random walks: the kind of operation is drawn first, then its arguments.     *)

OpenHandles(a) == {i \in 1..Len(ctx[a]) : ctx[a][i].open}

AnyHandle(a) ==
  IF OpenHandles(a) # {} /\ RandomElement(1..10) # 1
  THEN RandomElement(OpenHandles(a))
  ELSE RandomElement(1..(Len(ctx[a]) + 1))

AnyName == IF RandomElement(1..2) = 1 THEN "n" ELSE RandomElement(Names)

Walk1 ==
  \* quantifiers over singletons, because definitions would be drawn again at each use
  \E a \in {RandomElement(Apps)} : \E r \in {RandomElement(1..100)} :
  \E n \in {AnyName} : \E i \in {AnyHandle(a)} :
     CASE r <= 8                                     -> New(a, n)
       [] r > 8  /\ r <= 11                           -> Delete(a, n)
       [] r > 11 /\ r <= 26                           -> Open(a, n)
       [] r > 26 /\ r <= 60                           -> Write(a, i, RandomElement(Hashes), RandomElement(Datas), RandomElement(Kinds))
       [] r > 60 /\ r <= 82                           -> Commit(a, i)
       [] r > 82 /\ r <= 87                           -> Cancel(a, i)
       [] r > 87                                      -> Close(a, i)

WalkNext ==
  /\ Walk1
  /\ hist' = Append(hist, [op |-> act'.op, app |-> act'.app, name |-> act'.name, i |-> act'.i, h |-> act'.h,
                           d |-> act'.d, k |-> act'.k, res |-> act'.res, obs |-> Obs(dir', ctx')])

WalkSpec == MCInit /\ [][WalkNext]_<<vars, hist>>

(* Long walks: one database with hundreds of writes and commits; everything     *)
(* is observed at some of the steps only.                                      *)
LongNext ==
  /\ \E r \in {RandomElement(1..1000)} :
     LET j == CHOOSE x \in OpenHandles("a") : TRUE
     IN IF OpenHandles("a") = {} THEN Open("a", "n")
        ELSE IF TLCGet("level") = MaxLevel - 2 THEN Commit("a", j)
        ELSE IF r <= Prefers \/ (ctx["a"][j].pending = <<>> /\ r % 8 # 0) THEN Write("a", j, RandomElement(Hashes), RandomElement(Datas), RandomElement(Kinds))
        ELSE IF r <= 995 \/ Len(ctx["a"]) > MaxHandles THEN Commit("a", j)
        ELSE Close("a", j)
  /\ LET s == [op |-> act'.op, app |-> act'.app, name |-> act'.name, i |-> act'.i, h |-> act'.h, d |-> act'.d, k |-> act'.k, res |-> act'.res]
     IN hist' = Append(hist, IF TLCGet("level") % (MaxLevel \div 3) = 0 \/ TLCGet("level") = MaxLevel - 1 THEN s @@ [obs |-> Obs(dir', ctx')] ELSE s)
LongSpec == MCInit /\ [][LongNext]_<<vars, hist>>

(* Many contexts: many databases opened, written to and closed over and over.   *)
(* Some contexts stay open for the whole walk.                                  *)
Stays == {i \in OpenHandles("a") : i <= MaxHandles}
ManyNext ==
  /\ \E r \in {RandomElement(1..1000)} : \E n \in {RandomElement(Names)} :
     LET hs == OpenHandles("a") IN
     IF \E x \in Names : ~Exists(x) THEN \E x \in {CHOOSE y \in Names : ~Exists(y)} : New("a", x)
     ELSE IF r <= 480 \/ hs = {} THEN Open("a", n)
     ELSE \E j \in {RandomElement(hs)} :
          IF r <= 850 /\ j \notin Stays THEN Close("a", j)
          ELSE IF r <= 940 THEN Write("a", j, RandomElement(Hashes), RandomElement(Datas), RandomElement(Kinds))
          ELSE Commit("a", j)
  /\ LET s == [op |-> act'.op, app |-> act'.app, name |-> act'.name, i |-> act'.i, h |-> act'.h, d |-> act'.d, k |-> act'.k, res |-> act'.res]
     IN hist' = Append(hist, IF TLCGet("level") % (MaxLevel \div 4) = 0 \/ TLCGet("level") = MaxLevel - 1 THEN s @@ [obs |-> Obs(dir', ctx')] ELSE s)
ManySpec == MCInit /\ [][ManyNext]_<<vars, hist>>

WalkEmit == TLCGet("level") = MaxLevel => PrintT("B " \o ToJson([steps |-> hist]))
=============================================================================
