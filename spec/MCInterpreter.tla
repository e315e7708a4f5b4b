---------------------------- MODULE MCInterpreter ----------------------------
(***************************************************************************)
(* Every program up to a bound: a state is a source text; a transition     *)
(* adds an instruction to one that compiles so far.  Each state emits what *)
(* compiling it and executing it must give.                                *)
(***************************************************************************)
EXTENDS Interpreter, TLC, Json

CONSTANTS Prefix,     \* what the programs start with
          Alphabet,   \* the instructions that may follow
          MaxLen      \* how many may follow

VARIABLES src, shown
vars == <<src, shown>>

Ins(k, n, o, i, v) == [k |-> k, n |-> n, o |-> o, i |-> i, v |-> v]
NoVal == [k |-> "", n |-> "", p |-> <<>>]
Mod(n, i) == Ins("module", n, "", i, NoVal)
App(n, o) == Ins("app", n, o, 0, NoVal)
In(n) == Ins("in", n, "", 0, NoVal)
Out(n) == Ins("out", n, "", 0, NoVal)
Let(n, v) == Ins("assign", n, "", 0, v)
Att(n, o, i) == Ins("attach", n, o, i, NoVal)
Exec(n) == Ins("exec", n, "", 0, NoVal)
Var(n) == [k |-> "var", n |-> n, p |-> <<>>]
Const(n) == [k |-> "const", n |-> n, p |-> <<>>]
Call(n) == [k |-> "exec", n |-> n, p |-> <<>>]
Prog(p) == [k |-> "prog", n |-> "", p |-> p]

Mods == {0, 1, 7}

\* everything is declared by the program itself
Nothings == <<>>
Sub1 == <<In("a"), Out("b"), Let("b", Var("a"))>>
Sub2 == <<Mod("a", 1), App("b", "a"), Exec("b")>>
Declare == {Mod("a", 0), Mod("a", 2), Mod("b", 7), App("a", "a"), App("b", "a"), App("a", "b"), In("a"), Out("a"), In("b"), Out("b"),
            Let("a", Const("x")), Let("a", Var("a")), Let("a", Var("b")), Let("b", Call("a")), Let("a", Prog(Sub1)), Let("b", Prog(<<App("b", "a"), Exec("b")>>)),
            Att("a", "a", 0), Att("b", "a", 1), Exec("a"), Exec("b")}

\* two applications, two inputs and two outputs are there
Decls == <<Mod("m", 0), Mod("n", 1), App("f", "m"), App("g", "n"), In("x"), Out("y"), In("z"), Out("w")>>
Sub3 == <<Mod("m", 7), App("f", "m"), In("z"), Out("w"), In("y"), Let("w", Var("y")), Att("f", "z", 0), Out("v"), Let("v", Call("f"))>>
Sub4 == <<In("x"), Out("y"), Let("y", Prog(<<Out("w"), Let("w", Const("c")), Let("w", Const("d"))>>)), Let("y", Var("x"))>>
Act == {Let("y", Const("c")), Let("y", Var("x")), Let("y", Var("z")), Let("w", Call("f")), Let("t", Call("g")), Let("y", Call("g")), Let("w", Prog(Sub3)), Let("t", Prog(Sub4)),
        Let("x", Const("d")), Let("t", Const("c")), Let("t", Var("t")), Let("y", Var("w")),
        Att("f", "x", 0), Att("f", "t", 0), Att("f", "y", 1), Att("g", "z", 0), Att("g", "t", 1), Att("g", "w", 0), Att("h", "x", 0),
        Exec("f"), Exec("g"), Exec("h")}
Few == {Let("y", Var("z")), Let("w", Call("f")), Let("t", Call("g")), Let("t", Prog(Sub3)), Let("t", Const("c")),
        Att("f", "x", 0), Att("f", "t", 0), Att("g", "t", 1), Att("g", "w", 1), Exec("g")}

Calls(p) == LET r == Run(p, 99, 0) IN Len(r.log)
Runs(p) == LET n == Calls(p)
               cases == [x \in 1..(4 + n) |-> IF x <= 4 THEN [inputs |-> x - 1, fail |-> 0] ELSE [inputs |-> 3, fail |-> x - 4]]
           IN [x \in 1..Len(cases) |->
                 LET r == Run(p, cases[x].inputs, cases[x].fail)
                 IN [inputs |-> cases[x].inputs, fail |-> cases[x].fail, ok |-> r.ok, outs |-> r.outs, log |-> r.log]]

Emitted(s) == LET c == Compile(Mods, s)
              IN [src |-> s, ok |-> c.ok, prog |-> c.prog, runs |-> IF c.ok THEN Runs(c.prog) ELSE <<>>]

Init == src = Prefix /\ shown = FALSE
Next == \/ /\ ~shown
           /\ shown' = TRUE
           /\ UNCHANGED src
           /\ IF src = <<>> THEN TRUE ELSE PrintT("B " \o ToJson(Emitted(src)))
        \/ /\ shown
           /\ CompileFrom(Mods, src, 1, Start).ok
           /\ Len(src) < Len(Prefix) + MaxLen
           /\ \E c \in Alphabet : src' = Append(src, c)
           /\ shown' = FALSE
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* I01, said otherwise: every name an instruction mentions was declared before it, in its role, and new names are new. *)
RECURSIVE Resolves(_), ValueResolves(_,_,_)
Earlier(s, i, P(_)) == \E j \in 1..(i - 1) : P(s[j])
IsIn(s, i, n) == Earlier(s, i, LAMBDA c : c.k = "in" /\ c.n = n)
ValueResolves(s, i, v) ==
  CASE v.k = "var" -> IsIn(s, i, v.n)
    [] v.k = "const" -> TRUE
    [] v.k = "exec" -> Earlier(s, i, LAMBDA c : c.k = "app" /\ c.n = v.n)
    [] v.k = "prog" -> Resolves(v.p)
Resolves(s) ==
  /\ \E i \in 1..Len(s) : s[i].k \in {"assign", "exec"}
  /\ \A i \in 1..Len(s) :
       LET c == s[i]
       IN CASE c.k = "module" -> c.i \in Mods /\ ~Earlier(s, i, LAMBDA d : d.k = "module" /\ d.n = c.n)
            [] c.k = "app" -> Earlier(s, i, LAMBDA d : d.k = "module" /\ d.n = c.o) /\ ~Earlier(s, i, LAMBDA d : d.k = "app" /\ d.n = c.n)
            [] c.k \in {"in", "out"} -> ~Earlier(s, i, LAMBDA d : d.k \in {"in", "out"} /\ d.n = c.n)
            [] c.k = "assign" -> ValueResolves(s, i, c.v)
            [] c.k = "attach" -> Earlier(s, i, LAMBDA d : d.k = "app" /\ d.n = c.n)
                                 /\ (IsIn(s, i, c.o) \/ Earlier(s, i, LAMBDA d : d.k = "assign" /\ d.n = c.o))
            [] c.k = "exec" -> Earlier(s, i, LAMBDA d : d.k = "app" /\ d.n = c.n)
CompileOK == Compile(Mods, src).ok <=> Resolves(src)

(* The instructions are in source order: one per assignment and execution; an execution has the attachments made before it. *)
Doing == SelectSeq([i \in 1..Len(src) |-> i], LAMBDA i : src[i].k \in {"assign", "exec"})
BoundOK ==
  LET c == Compile(Mods, src)
  IN c.ok => /\ Len(c.prog.ins) = Len(Doing)
             /\ \A k \in 1..Len(Doing) :
                  LET s == src[Doing[k]]
                      called == IF s.k = "exec" THEN s.n ELSE s.v.n
                      before == SelectSeq([j \in 1..(Doing[k] - 1) |-> src[j]], LAMBDA d : d.k = "attach" /\ d.n = called)
                  IN s.k = "exec" \/ s.v.k = "exec" =>
                       /\ Len(c.prog.ins[k].x[1].at) = Len(before)
                       /\ \A j \in 1..Len(before) : c.prog.ins[k].x[1].at[j].l = before[j].i
             /\ {c.prog.out[k] : k \in 1..Len(c.prog.out)}
                  = {k - 1 : k \in {x \in 1..Len(Doing) : src[Doing[x]].k = "assign" /\ Earlier(src, Doing[x], LAMBDA d : d.k = "out" /\ d.n = src[Doing[x]].n)}}
             /\ \A k \in 1..(Len(c.prog.out) - 1) : c.prog.out[k] < c.prog.out[k + 1]

(* I02: with all inputs and no failing call a program gives as many outputs as it has; a failing call is the last one, and
   nothing before it changes; more inputs change nothing. *)
Prefixed(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
ExecOK ==
  LET c == Compile(Mods, src)
      full == Run(c.prog, 99, 0)
  IN c.ok => /\ full.ok /\ Len(full.outs) = Len(c.prog.out)
             /\ \A n \in 0..3 : LET r == Run(c.prog, n, 0) IN /\ Prefixed(r.log, full.log)
                                                              /\ r.ok => r = full
                                                              /\ ~r.ok => r.outs = <<>>
             /\ \A k \in 1..Len(full.log) : LET r == Run(c.prog, 99, k) IN ~r.ok /\ r.outs = <<>> /\ Len(r.log) = k /\ Prefixed(r.log, full.log)
             /\ \A k \in 1..Len(full.outs) : full.outs[k].k = "call" => full.outs[k].i \in 1..Len(full.log)
=============================================================================
