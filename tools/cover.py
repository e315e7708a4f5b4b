"""A06 and A07: Coverage.tla bound to composing and coverage in libs/asts."""
import json, os
import vlib


def replay(run, cls, wide=False):
    label = cls + (" wide" if wide else "")
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    run.tlc("MCCoverage", """SPECIFICATION Spec
INVARIANTS PartitionOK ComposeOK
CONSTANTS
  Class = "%s"
  Wide = %s
CHECK_DEADLOCK FALSE
""" % (cls, "TRUE" if wide else "FALSE"), label, emit=beh, heap="8g")
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 60, 100000)[-1:]]
    run.take(run.drive_json("cover-replay", **{"in": beh, "seed": run.seed}), "replay " + label)
    os.unlink(beh)


def recorded(run, features, runs):
    label = "recorded " + features
    tr = os.path.join(run.work, "cover-" + features + ".ndjson")
    run.drive("cover-random", seed=run.seed, runs=runs, out=tr, features=features)
    if not os.path.exists(tr + ".res"):
        return
    with open(tr + ".res") as fh:
        run.take(json.load(fh), label)
    if not os.path.getsize(tr):
        return
    out = os.path.join(run.work, "cover-rejected.ndjson")
    r = run.tlc("CoverageTrace", "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n", label, emit=out,
                env={"VERIF_TRACE": tr}, heap="8g", judge=run.pick(150, 1800))
    for line, d in vlib.whole_lines(out):
        j = d["judged"]
        bad = not j["composed"] if run.prop == "A06" else not (j["coverages"] and j["covered"] and j["uncovered"])
        if bad:
            run.mismatches.append({"props": [run.prop], "what": "TLC rejects the recorded coverage %d: %s" % (d["caseno"], line[:1500]), "replay": d})
        else:
            run.other["coverage"] = run.other.get("coverage", 0) + 1
    run.note("%s: judged by TLC, %d rejected" % (label, r["behaviours"]))
    os.unlink(tr)


def check(run):
    t = run.thorough()
    run.driver()
    replay(run, "compose", wide=t)
    if run.prop == "A07" or t:
        replay(run, "cover")
    if t and run.prop == "A07":
        replay(run, "cover", wide=True)
    recorded(run, "compose", run.pick(500, 4000))
    recorded(run, "compose+channels+every+escape+ext", run.pick(500, 4000))
    run.assumptions = ["the names of the tokens of a document are distinct"]
    return run.finish("model_checking", rule="every document of the bounded classes, composed and covered by the real code; recorded coverages of random documents judged by TLC", exhaustive=False)
