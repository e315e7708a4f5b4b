------------------------------ MODULE MCShared ------------------------------
(* Situations in which several applications work on one database at once: a     *)
(* sequential prefix (a path of Database), then one script per application,     *)
(* to be run concurrently. The driver enumerates the interleavings of their     *)
(* file operations; SharedTrace judges what was observed.                       *)
EXTENDS MCDatabase

\* "x" stands for a write of content of its own, "r" for reading everything through the context
CONSTANT Mode

ScriptSet ==
  IF Mode = "commits"
  THEN {<<"commit">>, <<"x", "commit">>, <<"commit", "x", "commit">>}
  ELSE {<<"commit">>, <<"x", "commit", "r">>, <<"open", "r">>, <<"open", "x", "commit", "r">>, <<"r">>}

SharedNext ==
  /\ Step
  /\ act'.res = Ok
  \* what an application writes tells which one wrote it
  /\ act'.op = "write" => act'.h = (IF act'.app = "a" THEN 1 ELSE 2) /\ act'.d = act'.h
  /\ hist' = Append(hist, act')

SharedSpec == MCInit /\ [][SharedNext]_<<vars, hist>>

LiveCtx(a) == {i \in 1..Len(ctx[a]) : ctx[a][i].open}

\* a script makes sense when its first operation has a context exactly if it needs one
Fits(a, s) ==
  IF s[1] = "open" THEN ~OpenOn(a, "n")
  ELSE /\ OpenOn(a, "n")
       /\ s[1] = "commit" => \E i \in LiveCtx(a) : ctx[a][i].pending # <<>>
       /\ s[1] = "r" => \E i \in LiveCtx(a) : ctx[a][i].base.commits # <<>>

EmitScripts ==
  Exists("n") =>
    \A sa, sb \in ScriptSet :
      (Fits("a", sa) /\ Fits("b", sb) /\ (\E x \in 1..Len(sa) : sa[x] = "commit"))
        => PrintT("B " \o ToJson([steps |-> hist, scripts |-> [a |-> sa, b |-> sb]]))
=============================================================================
