"""K01 and K02: Reference.tla bound to the stored references and contents."""
import json, os
import vlib


def inst(run, label, simulate=None, cuts=0, every=1, **kw):
    c = dict(KeyHashes="{1,2}", Kinds="{1,2}", Froms="{0,3}", Lens="{1,2}", Values="<- MCValues", Times="{1,2}", Parents="{0,1,2}",
             Proofs="{0,1,2}", MaxKeys=2, MaxCommits=2, Datas="{1,2}", MaxContents=0, Long="FALSE")
    c.update(kw)
    huge = int(c["MaxKeys"]) + int(c["MaxCommits"]) > 50
    t = "SPECIFICATION Spec\n%sCONSTANTS\n" % ("" if huge else "INVARIANTS NextFreeOK KindsPartition IdentityOK\n")
    for k, v in c.items():
        t += "  %s %s\n" % (k, v if str(v).startswith("<-") else "= %s" % v)
    t += "CHECK_DEADLOCK FALSE\n"
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    depth = int(c["MaxKeys"]) + int(c["MaxCommits"]) + int(c["MaxContents"]) + 3
    run.tlc("MCReference", t, label, emit=beh, simulate=simulate, depth=depth if simulate else None, workers=1 if simulate else 8)
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 60)[-1:]]
    run.take(run.drive_json("ref-replay", **{"in": beh, "seed": run.seed, "cuts": cuts, "every": every}), "replay " + label)
    os.unlink(beh)


def check(run):
    q = not run.thorough()
    run.driver()
    if run.prop == "K01":
        inst(run, "keys", MaxKeys=3 if not q else 2, MaxCommits=1, Values="<- MCValuesOne", Times="{1}", Parents="{0}", Proofs="{0}", MaxContents=2)
        inst(run, "commits", MaxKeys=1, KeyHashes="{1}", Kinds="{1}", Froms="{0}", Lens="{1}", MaxCommits=2)
        inst(run, "long references", simulate=run.pick(300, 3000), Long="TRUE", KeyHashes="{1,2,3,4,5}", Kinds="{1,2,3}", Froms="{0,1,2,3,5,8,13,21}",
             Lens="{1,2,3,10,90}", Values="<- MCValuesWide", Times="{1,2,3,4,5,6}", Parents="{0,1,2,3}", Proofs="{0,1,2,3,4,5}",
             MaxKeys=9, MaxCommits=7)
        inst(run, "long contents", simulate=run.pick(200, 2000), Long="TRUE", KeyHashes="{1,2,3,4,5}", Kinds="{1,2,3}", Datas="{0,1,2,3,4,5,6,7,8,9}",
             MaxKeys=0, MaxCommits=0, MaxContents=8)
        inst(run, "huge references", simulate=run.pick(3, 30), Long="TRUE", KeyHashes="{%s}" % ",".join(map(str, range(1, 80))), Kinds="{1,2,3}",
             Froms="{0,1,2,3,5,8,13,21}", Lens="{1,2,3,10,90}", Values="<- MCValuesLong", Times="{1,2,3,4,5,6}", Parents="{0,1,2,3}", Proofs="{0,1,2,3,4,5}",
             MaxKeys=300, MaxCommits=20)
        inst(run, "huge histories", simulate=run.pick(3, 30), Long="TRUE", KeyHashes="{1,2,3,4,5}", Kinds="{1,2,3}", Froms="{0,1,2,3,5,8,13,21}",
             Lens="{1,2,3,10,90}", Values="<- MCValuesWide", Times="{1,2,3,4,5,6}", Parents="{0,1,2,3}", Proofs="{0,1,2,3,4,5}",
             MaxKeys=4, MaxCommits=280)
        inst(run, "huge contents", simulate=run.pick(3, 30), Long="TRUE", KeyHashes="{1,2,3,4,5}", Kinds="{1,2,3}", Datas="{0,1,2,3,4,5,6,7,8,9}",
             MaxKeys=0, MaxCommits=0, MaxContents=300)
    else:
        inst(run, "damaged references", MaxKeys=1, KeyHashes="{1}", Kinds="{1}", Froms="{0}", Lens="{1}", MaxCommits=1 if q else 2,
             cuts=100000, every=1 if q else 3)
        inst(run, "damaged contents", MaxKeys=0, MaxCommits=0, MaxContents=2, cuts=100000)
        inst(run, "damaged long references", simulate=run.pick(40, 300), Long="TRUE", KeyHashes="{1,2,3,4,5}", Kinds="{1,2,3}",
             Froms="{0,1,2,3,5}", Lens="{1,2,3}", Values="<- MCValuesWide", Times="{1,2,3,4}", Parents="{0,1,2}", Proofs="{0,1,2,3}",
             MaxKeys=5, MaxCommits=4, cuts=400)
        run.take(run.drive_json("ref-files", seed=run.seed, rounds=run.pick(6, 60)), "damaged files")
    run.assumptions = ["creation times lie where Go defines UnixNano; starts and lengths of contents stay below 2^63",
                       "hashes have the size of a digest"]
    return run.finish("model_checking", rule="every value of the bounded models and random long ones, encoded and decoded; every cut and length fields overwritten", exhaustive=False)
