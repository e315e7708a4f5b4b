-------------------------- MODULE InterpreterTrace ---------------------------
(* Judges recorded programs: what the real compiler made of them, and what     *)
(* executing the result gave.                                                 *)
EXTENDS Interpreter, TLC, Json, IOUtils

VARIABLE idx

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

ModSet(c) == {c.mods[i] : i \in 1..Len(c.mods)}
Compiled(c) == Compile(ModSet(c), c.src)
CompileOK(c) == LET x == Compiled(c) IN x.ok = c.ok /\ (x.ok => x.prog = c.prog)
\* executions are judged on the program that was compiled
RunOK(c, r) == LET x == Run(c.prog, r.inputs, r.fail) IN x.ok = r.ok /\ x.outs = r.outs /\ x.log = r.log
Judge(c) == [compile |-> CompileOK(c), runs |-> \A k \in 1..Len(c.runs) : RunOK(c, c.runs[k])]

Init == idx = 0
Next == \/ /\ idx = 0
           /\ idx' \in 1..Len(Trace)
        \/ /\ idx > 0
           /\ LET j == Judge(Trace[idx])
              IN IF j.compile /\ j.runs THEN TRUE
                 ELSE PrintT("B " \o ToJson([caseno |-> Trace[idx].caseno, compile |-> j.compile, runs |-> j.runs, got |-> Trace[idx],
                                           expected |-> Compiled(Trace[idx]),
                                           expruns |-> [k \in 1..Len(Trace[idx].runs) |-> Run(Trace[idx].prog, Trace[idx].runs[k].inputs, Trace[idx].runs[k].fail)]]))
           /\ idx' = -idx
Spec == Init /\ [][Next]_idx
Complete == TLCGet("stats").distinct = 2 * Len(Trace) + 1
=============================================================================
