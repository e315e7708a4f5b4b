"""G01 and G02: Script.tla bound to the shipped grammar and its tokens (instances/grammars)."""
import json, os
import asts, vlib


def replay(run, cls, wide=False):
    label = cls + (" wide" if wide else "")
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    run.tlc("MCScript", """SPECIFICATION Spec
INVARIANTS ReadsBack Stable TokensOK
CONSTANTS
  Class = "%s"
  Wide = %s
CHECK_DEADLOCK FALSE
""" % (cls, "TRUE" if wide else "FALSE"), label, emit=beh, heap="8g")
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 3, 30000000)[-1:]]
        for s in run.samples:
            s["runs"] = s["runs"][:3]
    run.take(run.drive_json("script-replay", **{"in": beh, "seed": run.seed}), "replay " + label)
    os.unlink(beh)


def recorded(run, runs):
    tr = os.path.join(run.work, "script.ndjson")
    run.drive("script-random", seed=run.seed, runs=runs, out=tr)
    if not os.path.exists(tr + ".res"):
        return
    with open(tr + ".res") as fh:
        run.take(json.load(fh), "recorded")
    if not os.path.getsize(tr):
        return
    out = os.path.join(run.work, "script-rejected.ndjson")
    r = run.tlc("ScriptTrace", "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n", "recorded", emit=out,
                env={"VERIF_TRACE": tr}, heap="8g", judge=run.pick(150, 1800))
    for line, d in vlib.whole_lines(out):
        run.mismatches.append({"props": ["G01"], "what": "TLC rejects the recorded reading of %r: %s" % (bytes(d["got"]["i"]), line[:1500]), "replay": d})
    run.note("recorded: judged by TLC, %d rejected" % r["behaviours"])
    os.unlink(tr)


def check(run):
    t = run.thorough()
    run.driver()
    if run.prop == "G02":
        replay(run, "tokens")
        # what the components make is what the builders make
        asts.replay(run, "made", "Two", 4 if not t else 5, wide=t, components=1)
        asts.replay(run, "nested", "Two", 3 if not t else 5, components=1)
        asts.replay(run, "every", "Three", 3 if not t else 5, components=1)
        if t:
            asts.replay(run, "choice", "Two", 4, wide=True, components=1)
            asts.replay(run, "every", "Three", 4, wide=True, components=1)
    else:
        replay(run, "programs", wide=t)
        replay(run, "long", wide=t)
        replay(run, "edits", wide=t)
        replay(run, "pieces", wide=t)
        recorded(run, run.pick(4000, 60000))
    run.assumptions = ["the embedded tokens are looked up in the tree by their names"]
    return run.finish("model_checking", rule="every program of the bounded class in every layout, every single edit of some; random scripts judged by TLC", exhaustive=False)
