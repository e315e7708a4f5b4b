"""I01 and I02: Interpreter.tla bound to libs/interpreters."""
import json, os
import vlib


def replay(run, prefix, alphabet, length):
    label = "%s %d" % (alphabet, length)
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    run.tlc("MCInterpreter", """SPECIFICATION Spec
INVARIANTS CompileOK BoundOK ExecOK
CONSTANTS
  Prefix <- %s
  Alphabet <- %s
  MaxLen = %d
CHECK_DEADLOCK FALSE
""" % (prefix, alphabet, length), label, emit=beh, heap="8g")
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 400, 1000000)[-2:]]
    run.take(run.drive_json("interp-replay", **{"in": beh, "seed": run.seed}), "replay " + label)
    os.unlink(beh)


def recorded(run, runs):
    tr = os.path.join(run.work, "interp.ndjson")
    run.drive("interp-random", seed=run.seed, runs=runs, out=tr)
    if not os.path.exists(tr + ".res"):
        return
    with open(tr + ".res") as fh:
        run.take(json.load(fh), "recorded")
    if not os.path.getsize(tr):
        return
    out = os.path.join(run.work, "interp-rejected.ndjson")
    r = run.tlc("InterpreterTrace", "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n", "recorded", emit=out,
                env={"VERIF_TRACE": tr}, heap="8g", judge=run.pick(150, 1800))
    for line, d in vlib.whole_lines(out):
        for prop, ok in (("I01", d["compile"]), ("I02", d["runs"])):
            if not ok:
                run.mismatches.append({"props": [prop], "what": "TLC rejects the recorded program %d: %s" % (d["caseno"], line[:1500]), "replay": d})
    run.mismatches = [m for m in run.mismatches if run.prop in m["props"]]
    run.note("recorded: judged by TLC, %d rejected" % r["behaviours"])
    os.unlink(tr)


def check(run):
    t = run.thorough()
    run.driver()
    replay(run, "Nothings", "Declare", 5 if not t else 6)
    replay(run, "Decls", "Act", 3 if not t else 4)
    replay(run, "Decls", "Few", 5 if not t else 6)
    recorded(run, run.pick(3000, 40000))
    run.assumptions = ["the modules have distinct indexes", "modules and callers do not write into the bytes of constants"]
    return run.finish("model_checking", rule="every program of the bounded alphabets, compiled and executed by the real code with every number of inputs and every failing call; recorded random programs judged by TLC", exhaustive=False)
