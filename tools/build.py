"""B01: Builders.tla bound to the builders of the domain."""
import json, os
import vlib


def replay(run, label, steps):
    beh = os.path.join(run.work, label + ".ndjson")
    run.tlc("MCBuilders", """SPECIFICATION Spec
INVARIANT BuiltIsGiven
CONSTANTS
  Steps = %d
CHECK_DEADLOCK FALSE
""" % steps, label, emit=beh)
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 300)[-2:]]
    run.take(run.drive_json("build-replay", **{"in": beh, "seed": run.seed}), "replay " + label)
    return beh


def recorded(run, table, label, runs, length):
    tr = os.path.join(run.work, label + ".ndjson")
    run.drive("build-random", seed=run.seed, runs=runs, length=length, out=tr, **{"in": table})
    if not os.path.exists(tr + ".res"):
        return  # the code brought the driver down
    with open(tr + ".res") as fh:
        run.take(json.load(fh), label)
    if not os.path.getsize(tr):
        return
    out = os.path.join(run.work, label + "-rejected.ndjson")
    r = run.tlc("BuildersTrace", "SPECIFICATION Spec\nPOSTCONDITION AllJudged\nCHECK_DEADLOCK FALSE\n", label, emit=out, workers=1,
                env={"VERIF_TRACE": tr}, heap="8g")
    for line in open(out):
        d = json.loads(line)
        run.mismatches.append({"props": ["B01"], "what": "TLC rejects the recorded use %d of the builder of %s: %s" % (d["caseno"], d["got"]["kind"], line[:1200]), "replay": d})
    run.note("%s: judged by TLC, %d rejected" % (label, r["behaviours"]))


def check(run):
    q = not run.thorough()
    run.driver()
    beh = replay(run, "assignments", 1 if q else 2)
    recorded(run, beh, "walks", 60 if q else 600, 40)
    run.assumptions = ["several alternatives given at once are left open, and so is a condition of nothing",
                       "names and constants of no bytes at all that are not nil are left open",
                       "the caller does not change what it gave"]
    return run.finish("model_checking", rule="every kind of value: every assignment of its fields, built, changed by one operation and built again; random uses of up to four builders judged by TLC", exhaustive=False)
