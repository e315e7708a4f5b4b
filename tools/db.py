"""C01, C02, C03, C06, C07, C09 (and the data part of C08): Database.tla bound to the database application."""
import json, os
import vlib

INV = """INVARIANTS TypeOK ChainOK TilesOK OneContextPerName SameVersionSameContent
PROPERTIES AppendOnly PendingInvisible Independent NoInterference
"""


def cfg(spec="MCSpec", apps='{"a"}', names='{"n", "m"}', nh=2, nd=2, nk=2, reserved="{}", commits=3, handles=2, pending=2,
        level=6, emit="steps", ops='{"new","delete","open","write","cancel","commit","close"}', prefix="none", err=99,
        walk=False, prefers=0):
    t = "SPECIFICATION %s\n" % spec
    if not walk:
        t += "VIEW MCView\nCONSTRAINT Bound\n" + INV
    else:
        t += "INVARIANT WalkEmit\n"
    t += """CONSTANTS
  Apps = %s
  Names = %s
  Hashes = {%s}
  Datas = {%s}
  Kinds = {%s}
  Reserved = %s
  DataLen <- MCLens
  MaxCommits = %d
  MaxHandles = %d
  MaxPending = %d
  MaxLevel = %d
  Emit = "%s"
  Ops = %s
  Prefix = "%s"
  ErrDepth = %d
  Prefers = %d
CHECK_DEADLOCK FALSE
""" % (apps, names, ",".join(str(i + 1) for i in range(nh)), ",".join(str(i + 1) for i in range(nd)),
       ",".join(str(i + 1) for i in range(nk)), reserved, commits, handles, pending, level, emit, ops, prefix, err, prefers)
    return t


def lens(nd):
    return json.dumps([{1: 1, 2: 3, 3: 7, 0: 16}[d % 4] for d in range(1, nd + 1)])


# Exhaustive instances: each explores every operation sequence of its alphabet up to a depth.
def instances(run):
    q = not run.thorough()
    return [
        # everything, two databases, from an empty directory
        ("lifecycle", dict(nh=1, nd=1, nk=1, names='{"n", "m", "n.dst", "n.bck", "folder"}', reserved='{"n.dst", "n.bck", "folder"}',
                           level=5 if q else 6, err=3, handles=3, commits=4)),
        # one database, deep histories of writes, commits, cancels and reopenings
        ("history", dict(names='{"n"}', nh=2, nd=2, nk=1, level=7 if q else 8, prefix="open", handles=3, commits=5, pending=2, err=0,
                         ops='{"open","write","cancel","commit","close"}')),
        # kinds and sizes
        ("kinds", dict(names='{"n"}', nh=1, nd=3, nk=2, level=5 if q else 6, prefix="open", handles=2, commits=4, pending=3, err=0,
                       ops='{"open","write","commit","close"}')),
        # several contexts at once
        ("contexts", dict(names='{"n", "m", "o"}', nh=1, nd=1, nk=1, level=7 if q else 8, prefix="open", handles=4, commits=6, pending=1, err=4,
                          ops='{"new","open","write","cancel","commit","close"}')),
        # two applications on one directory
        ("applications", dict(apps='{"a", "b"}', names='{"n"}', nh=2, nd=1, nk=1, level=7 if q else 8, prefix="open", handles=2,
                              commits=5, pending=1, err=0)),
    ]


PLAN = {
    "C01": ["history", "kinds", "applications"],
    "C02": ["history", "contexts", "kinds"],
    "C03": ["history", "kinds", "applications"],
    "C06": ["contexts", "lifecycle", "applications"],
    "C07": ["lifecycle", "contexts", "applications"],
    "C09": ["kinds", "history", "contexts"],
    "C08": ["applications"],
}


def replay_exhaustive(run, only, maxscale=5000):
    for name, kw in instances(run):
        if name not in only:
            continue
        beh = os.path.join(run.work, name + ".ndjson")
        nd, nh, nk = kw.get("nd", 2), kw.get("nh", 2), kw.get("nk", 2)
        run.tlc("MCDatabase", cfg(**kw), name, emit=beh, timeout=600)
        if not run.samples:
            run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 400, 100000)[-1:]]
        run.take(run.drive_json("db-replay", hooked=True, **{"in": beh, "seed": run.seed, "lens": lens(nd), "nh": nh, "nk": nk,
                                                "maxscale": maxscale}), "replay " + name)
        os.unlink(beh)


def replay_walks(run, num, depth, apps='{"a"}', label="walks", nd=8):
    beh = os.path.join(run.work, label + ".ndjson")
    t = cfg(spec="WalkSpec", walk=True, apps=apps, names='{"n", "m", "o", "n.dst"}', reserved='{"n.dst"}', nh=4, nd=nd, nk=3,
            level=depth, emit="walk")
    run.tlc("MCDatabase", t, label, emit=beh, simulate=num, depth=depth, workers=1, timeout=600)
    run.take(run.drive_json("db-replay", hooked=True, **{"in": beh, "seed": run.seed, "lens": lens(nd), "nh": 4, "nk": 3}), "replay " + label)
    os.unlink(beh)


def replay_long(run, num, length, prefers, label, nh=60, nd=5):
    """One database with many writes and commits."""
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    t = cfg(spec="LongSpec", walk=True, names='{"n"}', nh=nh, nd=nd, nk=3, level=length, emit="walk", prefix="open", handles=6, prefers=prefers)
    run.tlc("MCDatabase", t, label, emit=beh, simulate=num, depth=length, workers=1, timeout=600)
    run.take(run.drive_json("db-replay", hooked=True, **{"in": beh, "seed": run.seed, "lens": lens(nd), "nh": nh, "nk": 3, "maxscale": 2}), "replay " + label)
    if prefers > 900:
        # more chunks than 16 bits count
        run.take(run.drive_json("db-replay", hooked=True, **{"in": beh, "seed": run.seed, "lens": lens(nd), "nh": nh, "nk": 3, "maxscale": 1, "chunk": 1}),
                 "replay %s, one byte at a time" % label)
    os.unlink(beh)


def replay_many(run, num, length, databases):
    """Many databases, opened and closed hundreds of times by one application, many of them at once."""
    beh = os.path.join(run.work, "many.ndjson")
    names = "{%s}" % ",".join('"db%d"' % i for i in range(databases))
    t = cfg(spec="ManySpec", walk=True, names=names, nh=2, nd=3, nk=2, level=length, emit="walk", handles=20)
    run.tlc("MCDatabase", t, "many contexts", emit=beh, simulate=num, depth=length, workers=1, timeout=600)
    run.take(run.drive_json("db-replay", hooked=True, **{"in": beh, "seed": run.seed, "lens": lens(3), "nh": 2, "nk": 2, "maxscale": 100}), "replay many contexts")
    os.unlink(beh)


def replay_huge(run, num, depth, scale, label):
    """Contents of megabytes."""
    beh = os.path.join(run.work, "huge.ndjson")
    t = cfg(spec="WalkSpec", walk=True, names='{"n", "m"}', nh=2, nd=4, nk=2, level=depth, emit="walk")
    run.tlc("MCDatabase", t, label, emit=beh, simulate=num, depth=depth, workers=1, timeout=600)
    run.take(run.drive_json("db-replay", hooked=True, **{"in": beh, "seed": run.seed, "lens": lens(4), "nh": 2, "nk": 2, "scale": scale}), "replay " + label)
    os.unlink(beh)


def record_and_validate(run, runs, length):
    """Random operations on the real code, recorded, then judged by TLC on DatabaseTrace.tla."""
    import random
    rng = random.Random(run.seed * 7 + 3)
    lens_ = [rng.choice([1, 2, 3, 5, 8, 17, 40, 99, 100, 101, 128, 255, 300, 1000, 4096, 9001]) for _ in range(24)]
    tr = os.path.join(run.work, "trace.ndjson")
    run.drive("db-random", hooked=True, seed=run.seed, runs=runs, length=length, lens=json.dumps(lens_), nh=6, nk=3, out=tr)
    if any(m["what"].startswith("the code brought") for m in run.mismatches):
        return
    lf = os.path.join(run.work, "lens.json")
    json.dump(lens_, open(lf, "w"))
    out = os.path.join(run.work, "trace-mismatches.ndjson")
    t = """SPECIFICATION TraceSpec
CONSTANTS
  Apps = {"a", "b"}
  Names = {"n", "m", "o", "n.dst", "n.bck", "folder"}
  Hashes = {1,2,3,4,5,6}
  Kinds = {1,2,3}
  Datas = {%s}
  Reserved = {"n.dst", "n.bck", "folder"}
  DataLen <- TraceLens
INVARIANT Report
VIEW TraceView
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
""" % ",".join(str(i + 1) for i in range(len(lens_)))
    r = run.tlc("DatabaseTrace", t, "trace", emit=out, workers=1, timeout=700,
                env={"VERIF_TRACE": tr, "VERIF_LENS_FILE": lf, "VERIF_SEED": str(run.seed)}, heap="8g")
    events = sum(1 for _ in open(tr))
    run.cov["recorded trace"] = {"runs": runs, "events": events}
    run.validated += runs
    n = 0
    if r["behaviours"]:
        # replay the rejected runs with the observations the specification predicts, to say which properties are broken
        res = run.drive_json("db-replay", hooked=True, **{"in": out, "seed": run.seed, "lens": json.dumps(lens_), "nh": 6, "nk": 3, "maxscale": 100})
        run.validated -= res["cases"]
        n = run.take(res, "rejected traces")
        if res["total_mismatches"] == 0:
            raise vlib.Broken("TLC rejected %d recorded runs that agree with the specification when replayed" % r["behaviours"])
    run.note("recorded trace: %d events of %d runs judged by TLC, %d rejected" % (events, runs, r["behaviours"]))
    return n


def check(run):
    plan = PLAN[run.prop]
    if run.thorough():
        plan = [n for n, _ in instances(run)]
    run.driver(hooked=True)
    replay_exhaustive(run, plan)
    replay_walks(run, run.pick(150, 2500), 45)
    if run.prop in ("C03", "C06", "C07", "C08"):
        replay_walks(run, run.pick(60, 800), 40, apps='{"a", "b"}', label="walks of two applications")
    if run.prop in ("C01", "C02", "C03", "C09"):
        replay_long(run, run.pick(2, 8), 1300, 999, "long walks of writes")
        replay_long(run, run.pick(1, 6), run.pick(2500, 5000), 500, "long walks of commits")
    if run.prop in ("C01", "C02", "C03", "C06", "C07"):
        replay_many(run, run.pick(2, 12), run.pick(2200, 3600), run.pick(60, 150))
    if run.prop in ("C01", "C09", "C02"):
        replay_huge(run, run.pick(3, 12), 40, 1 << 20, "contents of megabytes")
        replay_huge(run, run.pick(3, 12), 40, (1 << 20) + 1 + run.seed * 37 % 4000, "contents of odd megabytes")
    record_and_validate(run, run.pick(40, 400), 60)
    run.assumptions = [
        "identifiers, names, chunk sizes, content sizes and bytes, kinds and digest-sized hashes of each behaviour are drawn from VERIF_SEED",
        "one goroutine per application (the applications are not documented as safe for concurrent use)",
    ]
    return run.finish("model_checking", rule="every transition of the bounded models, random walks, recorded random traces", exhaustive=False)
