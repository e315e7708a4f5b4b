"""A01-A05: Parser.tla bound to the parser of libs/asts."""
import json, os
import vlib

INV = {"A01": "ShapeOK", "A02": "BytesOK", "A03": "ChannelOK", "A04": "EveryOK", "A05": "EmbedOK"}


def replay(run, cls, alphabet, maxinput, wide=False, **flags):
    label = cls + (" wide" if wide else "")
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    run.tlc("MCParser", """SPECIFICATION Spec
INVARIANTS BytesOK ShapeOK ChannelOK EveryOK EmbedOK
CONSTANTS
  Class = "%s"
  Wide = %s
  Alphabet <- %s
  MaxInput = %d
CHECK_DEADLOCK FALSE
""" % (cls, "TRUE" if wide else "FALSE", alphabet, maxinput), label, emit=beh, heap="8g")
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 40, 100000)[-1:]]
        for s in run.samples:
            s["runs"] = s["runs"][:6]
    run.take(run.drive_json("parse-replay", **{"in": beh, "seed": run.seed, "prop": run.prop if run.prop != "A02" else "A01"}, **flags), "replay " + label)
    os.unlink(beh)


def recorded(run, features, runs):
    label = "recorded " + features
    tr = os.path.join(run.work, features + ".ndjson")
    run.drive("parse-random", seed=run.seed, runs=runs, out=tr, features=features, prop=run.prop if run.prop != "A02" else "A01")
    if not os.path.exists(tr + ".res"):
        return  # the code brought the driver down
    with open(tr + ".res") as fh:
        run.take(json.load(fh), label)
    if not os.path.exists(tr) or not os.path.getsize(tr):
        return
    out = os.path.join(run.work, features + "-rejected.ndjson")
    r = run.tlc("ParserTrace", "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n", label, emit=out,
                env={"VERIF_TRACE": tr}, heap="8g", judge=run.pick(150, 1800))
    for line, d in vlib.whole_lines(out):
        what = "TLC rejects the recorded parse %d of %s: %s" % (d["caseno"], d["got"]["i"], line[:1500])
        if run.prop == "A02" and not d["bytes"] or run.prop != "A02" and not d["parse"]:
            run.mismatches.append({"props": [run.prop], "what": what, "replay": d})
        else:
            run.other["parse"] = run.other.get("parse", 0) + 1
    run.note("%s: judged by TLC, %d rejected" % (label, r["behaviours"]))
    os.unlink(tr)


def check(run):
    t = run.thorough()
    p = run.prop
    run.driver()
    if p in ("A01", "A02"):
        replay(run, "choice", "Two", 4 if not t else 5)
        replay(run, "nested", "Two", 4 if not t else 6, wide=False)
        replay(run, "compose", "Three", 3 if not t else 5)
        if t:
            replay(run, "nested", "Two", 4, wide=True)
            replay(run, "compose", "Two", 6, wide=True)
            replay(run, "choice", "Two", 4, wide=True)
        if p == "A01":
            replay(run, "made", "Two", 4 if not t else 6, wide=t)
    if p in ("A03", "A02"):
        replay(run, "channel", "Four", 3 if not t else 4)
        if t:
            replay(run, "channel", "Four", 3, wide=True)
    if p in ("A04", "A02"):
        replay(run, "every", "Three", 4 if not t else 6)
        if t:
            replay(run, "every", "Three", 5, wide=True)
    if p in ("A05", "A02"):
        replay(run, "ext", "Four", 3 if not t else 4)
        if t:
            replay(run, "ext", "Four", 4, wide=True)
    replay(run, "long", "Two", 0, wide=t)
    feats = {"A01": ["compose"], "A02": ["compose+channels+every+ext", "channels", "every+ext+escape+channels"],
             "A03": ["channels", "channels+compose+every"],
             "A04": ["every+escape", "every+escape+channels"], "A05": ["ext+channels", "ext+channels+every+escape+compose"]}[p]
    for f in feats:
        recorded(run, f, run.pick(1500, 12000) // len(feats))
    run.assumptions = ["the names of the tokens of a document are distinct", "grammars are finite and built by the repository's builders",
                       "the inputs of recorded parses are cut short where parsing them takes more than a millisecond (ambiguous grammars can take exponential time)"]
    return run.finish("model_checking", rule="every document of the bounded classes on every input up to the bound, replayed on the real parser; recorded parses of random documents judged by TLC", exhaustive=False)
