----------------------------- MODULE ParserTrace -----------------------------
(* Judges recorded parses: each record is a document with the inputs it was    *)
(* given, and what the real parser answered.                                  *)
EXTENDS Parser, TLC, Json, IOUtils

VARIABLE idx

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

HasEscape(d) == \E t \in 1..Len(d.tokens) : \E i \in 1..Len(d.tokens[t].l) : \E j \in 1..Len(d.tokens[t].l[i]) :
                  d.tokens[t].l[i][j].k = "every" /\ d.tokens[t].l[i][j].x # 0

\* what the specification says about a run
Expected(d, r) == ParseGrammar(d, r.i, 1)

SameParse(x, r) == x.ok = r.ok /\ (x.ok => x.end = r.end /\ x.tree = r.tree)

\* the bytes of the recorded tree, and the partition of the input
SameBytes(d, r) ==
  r.ok => /\ r.full = TreeBytes(r.tree, TRUE)
          /\ r.bare = TreeBytes(r.tree, FALSE)
          /\ HasEscape(d) \/ r.full = SubSeq(r.i, 1, r.end - 1)

Judge(c) == [k \in 1..Len(c.runs) |->
               LET r == c.runs[k]
                   x == Expected(c.doc, r)
               IN [parse |-> SameParse(x, r), bytes |-> SameBytes(c.doc, r), expected |-> x]]

Init == idx = 0
\* every record is a state of its own, so that the workers share them
Next == \/ /\ idx = 0
           /\ idx' \in 1..Len(Trace)
        \/ /\ idx > 0
           /\ LET j == Judge(Trace[idx])
              IN \A k \in 1..Len(j) :
                   IF j[k].parse /\ j[k].bytes THEN TRUE
                   ELSE PrintT("B " \o ToJson([caseno |-> Trace[idx].caseno, parse |-> j[k].parse, bytes |-> j[k].bytes,
                                             doc |-> Trace[idx].doc, got |-> Trace[idx].runs[k], expected |-> j[k].expected]))
           /\ idx' = -idx
Spec == Init /\ [][Next]_idx
\* every record was judged
Complete == TLCGet("stats").distinct = 2 * Len(Trace) + 1
=============================================================================
