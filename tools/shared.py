"""C08: several applications on one database, interleaved at their file operations."""
import json, os
import db, vlib

TRACE = """SPECIFICATION SharedTraceSpec
CONSTANTS
  Apps = {%s}
  Names = {"n"}
  Hashes = {%s}
  Kinds = {1}
  Datas = {%s}
  Reserved = {}
  DataLen <- TraceLens
INVARIANT Report
VIEW SharedView
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
"""


def interleavings(run, label, mode, level, schedules, commits=4):
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    t = """SPECIFICATION SharedSpec
VIEW MCView
CONSTRAINT Bound
INVARIANTS ChainOK OneContextPerName SameVersionSameContent EmitScripts
CONSTANTS
  Mode = "%s"
  Apps = {"a", "b"}
  Names = {"n"}
  Hashes = {1, 2}
  Datas = {1, 2}
  Kinds = {1}
  Reserved = {}
  DataLen <- MCLens
  MaxCommits = %d
  MaxHandles = 2
  MaxPending = 1
  MaxLevel = %d
  Emit = "none"
  Ops = {"open","write","commit"}
  Prefix = "open"
  ErrDepth = 0
  Prefers = 0
CHECK_DEADLOCK FALSE
""" % (mode, commits, level)
    run.tlc("MCShared", t, label, emit=beh, timeout=300, workers=1)
    tr = os.path.join(run.work, label.replace(" ", "-") + ".trace")
    lens = [1, 3, 7, 16, 1, 3]
    res = run.drive_json("db-shared", hooked=True, timeout=850, **{
        "in": beh, "seed": run.seed, "lens": json.dumps(lens), "nh": 6, "nk": 1, "schedules": schedules, "trace": tr})
    if res.get("crashed"):
        return
    n = run.take(res, label)
    judge(run, label, tr, lens, ["a", "b"], res["distinct"])
    os.unlink(beh)
    return n


def judge(run, label, tr, lens, apps, distinct):
    lf = os.path.join(run.work, "slens.json")
    json.dump(lens, open(lf, "w"))
    out = os.path.join(run.work, "shared-rejected.ndjson")
    r = run.tlc("SharedTrace", TRACE % (", ".join('"%s"' % a for a in apps), *(2 * [",".join(str(k + 1) for k in range(len(lens)))])), label + " judged", emit=out, workers=1, timeout=700, heap="10g",
                env={"VERIF_TRACE": tr, "VERIF_LENS_FILE": lf, "VERIF_SEED": str(run.seed)})
    if r["behaviours"]:
        meta = {}
        for line in open(tr + ".meta"):
            m = json.loads(line)
            meta[m["run"]] = m
        for line in open(out):
            b = json.loads(line)
            m = meta[b["run"]]
            if run.prop not in m.get("props", ["C08"]):
                continue
            run.mismatches.append({"props": m.get("props", ["C08"]), "what": "interleaving %s: %s" % (m["schedule"], b["why"]), "replay": m})
        print("   ", json.loads(open(out).readline())["why"])
    if not run.samples:
        with open(tr + ".meta") as fh:
            m = json.loads(fh.readline())
            run.samples = [{"schedule": m["schedule"], "events": m["events"][-6:]}]
    for f in (tr, tr + ".meta"):
        os.unlink(f)
    run.note("%s: %d distinct traces judged by TLC, %d rejected" % (label, distinct, r["behaviours"]))


PROTOCOL = """SPECIFICATION %s
CONSTANTS
  Procs = {%s}
  MaxCommits = %d
  MaxCrashes = %d
  MaxFaults = %d
  MaxDeletes = 0
  Variant = "%s"
INVARIANTS StoredWhole NothingLost ContextsKept NoStaleLock
PROPERTIES Atomic Honest %s
%s
CHECK_DEADLOCK FALSE
"""
WRONG = ["nostat2", "nolock", "inplace", "removefirst", "locklate", "renamefirst", "unlockearly", "keepconn"]


def quoted(apps):
    return ", ".join('"%s"' % a for a in apps)


def protocol_model(run, apps, commits, crashes, faults):
    """The commit at the level of files, alone: it refines the atomic commit."""
    run.tlc("CommitProtocol", PROTOCOL % ("Fair", quoted(apps), commits, crashes, faults, "ok", "Ends", ""),
            "commit protocol of %d processes, %d commits, %d crashes, %d failures" % (len(apps), commits, crashes, faults), timeout=700, heap="10g")


def protocol_wrong(run):
    """What is claimed of the protocol fails for protocols that are wrong (that it can fail)."""
    for v in WRONG:
        r = run.tlc("CommitProtocol", PROTOCOL % ("Fair", quoted("ab"), 3, 1, 1, v, "", ""), "wrong protocol: " + v, timeout=300, expect_error=True)
        if "is violated" not in r["out"]:
            raise vlib.Broken("the commit protocol with %s was not refuted:\n%s" % (v, r["out"][-2000:]))


def protocol(run, apps, commits, crashes, faults, limit):
    """The schedules of the protocol's state graph on the real code."""
    label = "schedules of %d processes, %d commits, %d crashes, %d failures" % (len(apps), commits, crashes, faults)
    beh = os.path.join(run.work, "protocol.ndjson")
    run.tlc("MCProtocol", PROTOCOL % ("MCSpec", quoted(apps), commits, crashes, faults, "ok", "", "VIEW MCView"), label, emit=beh, timeout=700, heap="10g", workers=1)
    tr = os.path.join(run.work, "protocol.trace")
    lens = [1, 3, 7, 16, 1, 3, 5, 2, 9]
    res = run.drive_json("db-protocol", hooked=True, timeout=850, **{
        "in": beh, "seed": run.seed, "lens": json.dumps(lens), "nh": 9, "nk": 1, "max": limit, "trace": tr})
    os.unlink(beh)
    if res.get("crashed"):
        return
    run.take(res, label)
    judge(run, label, tr, lens, apps, res["distinct"])


def check(run):
    run.driver(hooked=True)
    run.driver()
    protocol_model(run, "ab", run.pick(3, 4), 1, run.pick(1, 2))
    protocol(run, "ab", 3, 0, 0, run.pick(4000, 20000))
    if run.thorough():
        protocol_wrong(run)
        protocol_model(run, "abc", 3, 1, 1)
        protocol(run, "abc", 3, 0, 0, 40000)
        protocol(run, "ab", 2, 1, 1, 40000)
    interleavings(run, "commits against commits", "commits", 5, run.pick(300, 3000))
    interleavings(run, "commits against opens and reads", "readers", 4, run.pick(60, 1500))
    db.replay_exhaustive(run, ["applications"])
    db.replay_walks(run, run.pick(60, 800), 40, apps='{"a", "b"}', label="walks of two applications")
    db.record_and_validate(run, run.pick(30, 300), 60)
    run.assumptions = ["two applications of one process stand for two processes: they share nothing but the file system",
                       "databases are not deleted while several applications commit to them"]
    return run.finish("model_checking", rule="pairs of scripts from every situation of the bounded model; all interleavings with up to two switches (sampled above the limit) and random ones with many", exhaustive=False)
