---------------------------- MODULE BuildersTrace ----------------------------
(* Judges recorded uses of the real builders: every record is a script with    *)
(* what was built in it, as it was right away and as it was in the end.        *)
EXTENDS Builders, TLC, Json, IOUtils

VARIABLES rec, step

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

tvars == <<bvars, rec, step>>

KindFor(r) == IF r > Len(Trace) THEN [kind |-> "", fields |-> <<>>, extra |-> <<>>] ELSE KindOf(Trace[r].kind)

Init == rec = 1 /\ step = 1 /\ Start(KindFor(1))

Begin(r) ==
  /\ rec' = r
  /\ step' = 1
  /\ kind' = IF r <= Len(Trace) /\ Trace[r].kind = kind.kind THEN kind ELSE KindFor(r)
  /\ builders' = <<Blank(kind')>>
  /\ built' = <<>>

Op == Trace[rec].script[step]

Do ==
  /\ step <= Len(Trace[rec].script)
  /\ CASE Op.op = "set" -> Set(Op.b, Op.f, Op.v)
       [] Op.op = "create" -> Create(Op.b)
       [] OTHER -> Now(Op.b)
  /\ step' = step + 1
  /\ rec' = rec

Judge ==
  /\ step = Len(Trace[rec].script) + 1
  /\ IF Trace[rec].built = built /\ Trace[rec].again = built THEN TRUE
     ELSE PrintT("B " \o ToJson([caseno |-> rec, expected |-> built, got |-> Trace[rec]]))
  /\ Begin(rec + 1)

Next == rec <= Len(Trace) /\ (Do \/ Judge)

Spec == Init /\ [][Next]_tvars

RECURSIVE Steps(_)
Steps(r) == IF r = 0 THEN 0 ELSE Len(Trace[r].script) + 1 + Steps(r - 1)
AllJudged == TLCGet("stats").diameter >= Steps(Len(Trace)) + 1
=============================================================================
