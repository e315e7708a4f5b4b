"""Q01: Query.tla bound to libs/queries and the fetching of libs/asts/domain/trees."""
import json, os
import vlib


def replay(run, cls, maxinput, wide=False):
    label = cls + (" wide" if wide else "")
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    run.tlc("MCQuery", """SPECIFICATION Spec
INVARIANTS SelectOK FetchOK
CONSTANTS
  Class = "%s"
  Wide = %s
  MaxInput = %d
CHECK_DEADLOCK FALSE
""" % (cls, "TRUE" if wide else "FALSE", maxinput), label, emit=beh, heap="8g")
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 4, 30000000)[-1:]]
        for s in run.samples:
            s["qs"] = s["qs"][:5]
            s["runs"] = s["runs"][:2]
            for r in s["runs"]:
                r["r"] = r["r"][:5]
    run.take(run.drive_json("query-replay", **{"in": beh, "seed": run.seed}), "replay " + label)
    os.unlink(beh)


def recorded(run, features, runs):
    label = "recorded " + features
    tr = os.path.join(run.work, "query-" + features + ".ndjson")
    run.drive("query-random", seed=run.seed, runs=runs, out=tr, features=features)
    if not os.path.exists(tr + ".res"):
        return
    with open(tr + ".res") as fh:
        run.take(json.load(fh), label)
    if not os.path.getsize(tr):
        return
    out = os.path.join(run.work, "query-rejected.ndjson")
    r = run.tlc("QueryTrace", "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n", label, emit=out,
                env={"VERIF_TRACE": tr}, heap="8g", judge=run.pick(150, 1800))
    for line, d in vlib.whole_lines(out):
        run.mismatches.append({"props": ["Q01"], "what": "TLC rejects the recorded %s of case %d: %s" % (d["what"], d["caseno"], line[:1500]), "replay": d})
    run.note("%s: judged by TLC, %d rejected" % (label, r["behaviours"]))
    os.unlink(tr)


def check(run):
    t = run.thorough()
    run.driver()
    replay(run, "flat", 5, wide=t)
    replay(run, "deep", 4 if not t else 5, wide=t)
    for f in ("compose+ext", "compose+channels+every+escape+ext", "every+ext"):
        recorded(run, f, run.pick(400, 4000))
    run.assumptions = ["the names of the tokens and externals of a document are distinct",
                       "the caller's functions do not change the trees"]
    return run.finish("model_checking", rule="every query of the bounded classes on every tree of the documents, executed by the real code; random queries on trees of random documents judged by TLC", exhaustive=False)
