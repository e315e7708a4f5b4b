"""H01 and H02: HashTree.tla bound to the hash trees."""
import json, os
import vlib


def replay(run, label, alphabet, maxblocks, maxgiven):
    beh = os.path.join(run.work, label + ".ndjson")
    run.tlc("MCHashTree", """SPECIFICATION Spec
INVARIANTS OrderRestores HeadsIdentify Shape Inner
CONSTANTS
  Blocks = {%s}
  MaxBlocks = %d
  MaxGiven = %d
CHECK_DEADLOCK FALSE
""" % (",".join(str(i) for i in range(alphabet)), maxblocks, maxgiven), label, emit=beh)
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 300)[-2:]]
    run.take(run.drive_json("tree-replay", **{"in": beh, "seed": run.seed}), "replay " + label)
    os.unlink(beh)


def sizes(run, power, around):
    beh = os.path.join(run.work, "sizes.ndjson")
    run.tlc("MCHashTreeSizes", "SPECIFICATION Spec\nINVARIANT SmallestPower\nCONSTANTS\n  MaxPower = %d\n  Around = %d\nCHECK_DEADLOCK FALSE\n" % (power, around),
            "sizes", emit=beh, workers=1)
    run.take(run.drive_json("tree-sizes", **{"in": beh, "seed": run.seed}), "replay sizes")
    os.unlink(beh)


def recorded(run, runs):
    tr = os.path.join(run.work, "trees.ndjson")
    run.drive("tree-random", seed=run.seed, runs=runs, out=tr)
    if not os.path.exists(tr + ".res"):
        return  # the code brought the driver down
    with open(tr + ".res") as fh:
        run.take(json.load(fh), "recorded trees")
    if not os.path.getsize(tr):
        return
    out = os.path.join(run.work, "trees-rejected.ndjson")
    r = run.tlc("HashTreeTrace", "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n", "trace", emit=out, workers=1,
                env={"VERIF_TRACE": tr}, heap="8g")
    for line in open(out):
        d = json.loads(line)
        e, g = d["expected"], d["got"]
        props = set()
        if e["ok"] != g["ok"] or e["out"] != g["out"]:
            props.add("H01")
        if e["leaves"] != g["leaves"] or e["height"] != g["height"] or not d["heads"]:
            props.add("H02")
        if run.prop in props:
            run.mismatches.append({"props": sorted(props), "what": "TLC rejects the recorded tree %d: %s" % (d["caseno"], line[:1200]), "replay": d})
    run.note("recorded trees: %d judged by TLC, %d rejected" % (runs, r["behaviours"]))


def check(run):
    q = not run.thorough()
    run.driver()
    replay(run, "orders", 3, 4 if q else 5, 4 if q else 5)
    replay(run, "wider", 2, 6 if q else 9, 3)
    sizes(run, 13 if q else 16, 3 if q else 9)
    recorded(run, 400 if q else 3000)
    run.assumptions = ["SHA-512 is taken as injective on what it is given (free constructors in the specification)",
                       "a block of exactly one digest stands for itself: the bytes of blocks are drawn so that no block is the digest of another"]
    return run.finish("model_checking", rule="every list and every list handed over within the bounds; the shapes of trees around every power of two; recorded random trees up to 640 blocks", exhaustive=False)
