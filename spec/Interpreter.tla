----------------------------- MODULE Interpreter -----------------------------
(***************************************************************************)
(* Compiling and executing programs (I01, I02).                            *)
(*                                                                         *)
(* An instruction is [k, n, o, i, v]:                                      *)
(*   "module":  name n stands for the module of index i                    *)
(*   "app":     n is an application of the module of name o                *)
(*   "in"/"out": n is an input/output parameter                            *)
(*   "assign":  variable n takes the value v                               *)
(*   "attach":  application n gets variable o as its local i               *)
(*   "exec":    application n is executed                                  *)
(* A value is [k, n, p]: "var" (variable n), "const" (constant n),         *)
(* "exec" (execution of application n), "prog" (the program p).            *)
(*                                                                         *)
(* A compiled program is [ins, out]; an instruction of it is a value       *)
(* [k, i, n, p, x]: "input" i, "const" n, "prog" p, "exec" x, or "run" x;  *)
(* x is an application [i, m, at]: its index, its module's, what is        *)
(* attached: a sequence of [v, l].  out lists the (zero-based) indexes of  *)
(* the instructions that give the outputs.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoProg == [ins |-> <<>>, out |-> <<>>]
NoApp == [i |-> 0, m |-> 0, at |-> <<>>]
Value(k, i, n, p, x) == [k |-> k, i |-> i, n |-> n, p |-> p, x |-> x]
Input(i) == Value("input", i, "", <<>>, <<>>)
Set(f, key, value) == [x \in (DOMAIN f) \cup {key} |-> IF x = key THEN value ELSE f[x]]

Start == [ok |-> TRUE, mods |-> <<>>, apps |-> <<>>, params |-> <<>>, vals |-> <<>>, ins |-> <<>>, out |-> <<>>]
Fail(s) == [s EXCEPT !.ok = FALSE]

RECURSIVE CompileFrom(_,_,_,_), CompileValue(_,_,_)

(* What a value stands for, given what was declared. *)
CompileValue(mods, s, v) ==
  CASE v.k = "var" /\ v.n \in DOMAIN s.params /\ s.params[v.n].in -> [ok |-> TRUE, v |-> Input(s.params[v.n].i)]
    [] v.k = "const" -> [ok |-> TRUE, v |-> Value("const", 0, v.n, <<>>, <<>>)]
    [] v.k = "exec" /\ v.n \in DOMAIN s.apps -> [ok |-> TRUE, v |-> Value("exec", 0, "", <<>>, <<s.apps[v.n]>>)]
    [] v.k = "prog" -> LET p == CompileFrom(mods, v.p, 1, Start)
                       IN IF p.ok /\ p.ins # <<>> THEN [ok |-> TRUE, v |-> Value("prog", 0, "", <<[ins |-> p.ins, out |-> p.out]>>, <<>>)]
                          ELSE [ok |-> FALSE, v |-> Input(0)]
    [] OTHER -> [ok |-> FALSE, v |-> Input(0)]

(* One instruction; mods is the set of the indexes of the modules there are. *)
CompileOne(mods, s, c) ==
  CASE c.k = "module" ->
         IF c.i \notin mods \/ c.n \in DOMAIN s.mods THEN Fail(s) ELSE [s EXCEPT !.mods = Set(@, c.n, c.i)]
    [] c.k = "app" ->
         IF c.n \in DOMAIN s.apps \/ c.o \notin DOMAIN s.mods THEN Fail(s)
         ELSE [s EXCEPT !.apps = Set(@, c.n, [i |-> Cardinality(DOMAIN s.apps), m |-> s.mods[c.o], at |-> <<>>])]
    [] c.k \in {"in", "out"} ->
         IF c.n \in DOMAIN s.params THEN Fail(s)
         ELSE [s EXCEPT !.params = Set(@, c.n, [in |-> c.k = "in", i |-> Cardinality({p \in DOMAIN s.params : s.params[p].in})])]
    [] c.k = "assign" ->
         LET r == CompileValue(mods, s, c.v)
         IN IF ~r.ok THEN Fail(s)
            ELSE [s EXCEPT !.vals = Set(@, c.n, r.v), !.ins = Append(@, r.v),
                           !.out = IF c.n \in DOMAIN s.params /\ ~s.params[c.n].in THEN Append(@, Len(s.ins)) ELSE @]
    [] c.k = "attach" ->
         \* what was assigned comes before what was declared
         LET known == c.o \in DOMAIN s.vals \/ (c.o \in DOMAIN s.params /\ s.params[c.o].in)
             value == IF c.o \in DOMAIN s.vals THEN s.vals[c.o] ELSE Input(s.params[c.o].i)
         IN IF ~known \/ c.n \notin DOMAIN s.apps THEN Fail(s)
            \* only the executions that follow have it
            ELSE [s EXCEPT !.apps = Set(@, c.n, [s.apps[c.n] EXCEPT !.at = Append(@, [v |-> value, l |-> c.i])])]
    [] c.k = "exec" ->
         IF c.n \notin DOMAIN s.apps THEN Fail(s) ELSE [s EXCEPT !.ins = Append(@, Value("run", 0, "", <<>>, <<s.apps[c.n]>>))]

CompileFrom(mods, src, i, s) ==
  IF ~s.ok \/ i > Len(src) THEN s ELSE CompileFrom(mods, src, i + 1, CompileOne(mods, s, src[i]))

Compile(mods, src) ==
  LET s == CompileFrom(mods, src, 1, Start)
  IN IF s.ok /\ s.ins # <<>> THEN [ok |-> TRUE, prog |-> [ins |-> s.ins, out |-> s.out]] ELSE [ok |-> FALSE, prog |-> NoProg]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Executing.  A value at run time is [k, i, n, l]: "in" (input i), "const" *)
(* (constant n), "call" (what call i answered), "list" (the outputs l of a *)
(* program).  The state is [ok, v, log]: log lists the calls made to the   *)
(* modules, each [m, a] with its module and the locals it was given; the   *)
(* call number `fail` fails.                                               *)
(***************************************************************************)
RV(k, i, n, l) == [k |-> k, i |-> i, n |-> n, l |-> l]
Nothing == RV("", 0, "", <<>>)

RECURSIVE Eval(_,_,_,_), RunFrom(_,_,_,_,_,_), Attached(_,_,_,_,_,_)

Eval(v, ninputs, fail, log) ==
  CASE v.k = "input" -> IF v.i < ninputs THEN [ok |-> TRUE, v |-> RV("in", v.i, "", <<>>), log |-> log] ELSE [ok |-> FALSE, v |-> Nothing, log |-> log]
    [] v.k = "const" -> [ok |-> TRUE, v |-> RV("const", 0, v.n, <<>>), log |-> log]
    [] v.k = "prog" -> LET r == RunFrom(v.p[1], 1, ninputs, fail, <<>>, log)
                       IN [ok |-> r.ok, v |-> IF r.ok THEN RV("list", 0, "", r.outs) ELSE Nothing, log |-> r.log]
    [] v.k \in {"exec", "run"} ->
         LET a == Attached(v.x[1].at, 1, ninputs, fail, <<>>, log)
             called == Append(a.log, [m |-> v.x[1].m, a |-> a.locals])
         IN IF ~a.ok THEN [ok |-> FALSE, v |-> Nothing, log |-> a.log]
            ELSE [ok |-> Len(called) # fail, v |-> RV("call", Len(called), "", <<>>), log |-> called]

\* every attached value is evaluated at every execution, in the order of the attachments; the last one for a local counts
Attached(at, i, ninputs, fail, locals, log) ==
  IF i > Len(at) THEN [ok |-> TRUE, locals |-> locals, log |-> log]
  ELSE LET r == Eval(at[i].v, ninputs, fail, log)
       IN IF ~r.ok THEN [ok |-> FALSE, locals |-> <<>>, log |-> r.log]
          ELSE Attached(at, i + 1, ninputs, fail,
                        SelectSeq(locals, LAMBDA x : x.l < at[i].l) \o <<[l |-> at[i].l, v |-> r.v]>> \o SelectSeq(locals, LAMBDA x : x.l > at[i].l), r.log)

RunFrom(prog, i, ninputs, fail, got, log) ==
  IF i > Len(prog.ins) THEN [ok |-> TRUE, outs |-> [k \in 1..Len(prog.out) |-> got[prog.out[k] + 1]], log |-> log]
  ELSE LET r == Eval(prog.ins[i], ninputs, fail, log)
       IN IF ~r.ok THEN [ok |-> FALSE, outs |-> <<>>, log |-> r.log]
          ELSE RunFrom(prog, i + 1, ninputs, fail, Append(got, r.v), r.log)

Run(prog, ninputs, fail) == RunFrom(prog, 1, ninputs, fail, <<>>, <<>>)
=============================================================================
