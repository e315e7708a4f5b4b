----------------------------- MODULE MCBuilders -----------------------------
(* Every kind of value: every assignment of its fields, in their order,        *)
(* built, changed by any operations, and built again.                         *)
EXTENDS Builders, TLC, Json

CONSTANTS Steps   \* operations after the first Now

VARIABLES script, phase

vars == <<bvars, script, phase>>

Names == Cardinality({Table[i].kind : i \in 1..Len(Table)}) = Len(Table)
ASSUME Names
ASSUME PrintT("B " \o ToJson([table |-> Table]))

Objects == {<<>>, <<1>>, <<2>>}
Domain(type) ==
  CASE type = "one" -> Objects
    [] type = "val" -> {<<1>>, <<2>>}
    [] type = "list" -> {<<>>, <<1>>, <<2, 1>>}
    [] type = "nums" -> {<<>>, <<0>>, <<3, 1>>}
    [] type \in {"text", "bytes", "rest"} -> {<<>>, <<97>>, <<98, 0, 32>>}
    [] type = "num" -> {<<0>>, <<1>>, <<7>>}
    [] type = "count" -> {<<0>>, <<1>>, <<3>>}
    [] OTHER -> {<<1>>}

Op(op, i, f, v) == [op |-> op, b |-> i, f |-> f, v |-> v]

Do(op, i, f, v) ==
  /\ CASE op = "set" -> Set(i, f, v)
       [] op = "create" -> Create(i)
       [] OTHER -> Now(i)
  /\ script' = Append(script, Op(op, i, f, v))

Init ==
  /\ \E i \in 1..Len(Table) : Start(Table[i])
  /\ script = <<>>
  /\ phase = 1

\* fields are given in their order, each of them at most once
Assign ==
  /\ phase <= NFields(kind)
  /\ phase' = phase + 1
  /\ \/ UNCHANGED <<bvars, script>>
     \/ \E v \in Domain(Field(kind, phase).type) : Do("set", 1, phase, v)

First ==
  /\ phase = NFields(kind) + 1
  /\ Do("now", 1, 0, <<>>)
  /\ phase' = phase + 1

Later ==
  /\ phase > NFields(kind) + 1
  /\ phase <= NFields(kind) + 1 + Steps
  /\ phase' = phase + 1
  /\ \E i \in 1..Len(builders) :
       \/ \E f \in 1..NFields(kind) : \E v \in Domain(Field(kind, f).type) : Do("set", i, f, v)
       \/ Len(builders) < 2 /\ Do("create", i, 0, <<>>)
       \/ Do("now", i, 0, <<>>)

\* in the end every builder builds
Last ==
  /\ phase > NFields(kind) + 1 + Steps
  /\ phase <= NFields(kind) + 1 + Steps + Len(builders)
  /\ LET i == phase - (NFields(kind) + 1 + Steps)
     IN Do("now", i, 0, <<>>) /\ phase' = phase + 1



Next == \/ Assign \/ First \/ Later \/ Last
        \/ /\ phase = NFields(kind) + 1 + Steps + Len(builders) + 1
           /\ PrintT("B " \o ToJson([kind |-> kind.kind, script |-> script, built |-> built]))
           /\ phase' = 1000
           /\ UNCHANGED <<bvars, script>>

Spec == Init /\ [][Next]_vars

(* What the machine promises, told from the script alone.                     *)
RECURSIVE LastGiven(_, _, _)
\* what field f of builder i was last given within the first n operations, since it was created
LastGiven(i, f, n) ==
  IF n = 0 THEN <<>>
  ELSE IF script[n].op = "set" /\ script[n].b = i /\ script[n].f = f THEN script[n].v
  ELSE LastGiven(i, f, n - 1)

Nth(n) == CHOOSE s \in 1..Len(script) : script[s].op = "now" /\ Cardinality({t \in 1..s : script[t].op = "now"}) = n

\* a value holds what its builder was last given before it was built, and nothing built afterwards changes it
BuiltIsGiven ==
  \A n \in 1..Len(built) :
    LET s == Nth(n)
    IN IF built[n] = Refused
       THEN \/ \E f \in FieldsOf(kind, "must") : LastGiven(script[s].b, f, s) = <<>> \/ (Field(kind, f).type = "count" /\ LastGiven(script[s].b, f, s) = <<0>>)
            \/ FieldsOf(kind, "alt") # {} /\ \A f \in FieldsOf(kind, "alt") : LastGiven(script[s].b, f, s) = <<>>
       ELSE \A f \in 1..NFields(kind) : built[n].fields[f] = LastGiven(script[s].b, f, s)

=============================================================================
