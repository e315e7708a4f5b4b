"""C04 and C05: crashes and failing file operations at every file operation of the real code."""
import json, os
import db, shared, vlib

INV = """INVARIANTS TypeOK ChainOK TilesOK OneContextPerName SameVersionSameContent
PROPERTIES DisturbedAppendOnly
"""


def cfg(kinds, level, twice=False, names='{"n"}', nh=2, nd=2, nk=1, commits=5, handles=4, pending=2, prefix="open",
        ops='{"open","write","cancel","commit","close"}'):
    return "SPECIFICATION FaultSpec\nVIEW FaultView\nCONSTRAINT FaultBound\n" + INV + """CONSTANTS
  Apps = {"a"}
  Names = %s
  Hashes = {%s}
  Datas = {%s}
  Kinds = {%s}
  Reserved = {}
  DataLen <- MCLens
  MaxCommits = %d
  MaxHandles = %d
  MaxPending = %d
  MaxLevel = %d
  Emit = "none"
  Ops = %s
  Prefix = "%s"
  ErrDepth = 0
  Prefers = 0
  Kinds_Of_Disturbance = %s
  Twice = %s
CHECK_DEADLOCK FALSE
""" % (names, ",".join(str(i + 1) for i in range(nh)), ",".join(str(i + 1) for i in range(nd)),
       ",".join(str(i + 1) for i in range(nk)), commits, handles, pending, level, ops, prefix, kinds,
       "TRUE" if twice else "FALSE")


def disturbed(run, label, nd=2, nh=2, nk=1, maxscale=1000, **kw):
    beh = os.path.join(run.work, label.replace(" ", "-") + ".ndjson")
    run.tlc("MCFault", cfg(nd=nd, nh=nh, nk=nk, **kw), label, emit=beh, timeout=600)
    if not run.samples:
        run.samples = [json.loads(x) for x in vlib.sample_lines(beh, 50, 200000)[-1:]]
    n = run.take(run.drive_json("db-fault", hooked=True, timeout=850, **{
        "in": beh, "seed": run.seed, "lens": db.lens(nd), "nh": nh, "nk": nk, "maxscale": maxscale, "prop": run.prop}), "replay " + label)
    os.unlink(beh)
    return n


def check(run):
    q = not run.thorough()
    run.driver(hooked=True)
    if run.prop == "C04":
        disturbed(run, "crashes", kinds='{"crash"}', level=6 if q else 8)
        disturbed(run, "crashes twice", kinds='{"crash"}', twice=True, level=4 if q else 6, nh=1)
        disturbed(run, "crashes beside another database", kinds='{"crash"}', names='{"n", "m"}', level=6 if q else 7, nh=1, nd=1,
                  ops='{"new","open","write","commit"}')
    else:
        disturbed(run, "failing commits", kinds='{"failcommit"}', level=5 if q else 7)
        disturbed(run, "failing opens", kinds='{"failopen"}', level=6 if q else 8)
        disturbed(run, "failures beside another database", kinds='{"failcommit", "failopen"}', names='{"n", "m"}', level=5 if q else 7,
                  nh=1, nd=1, ops='{"new","open","write","commit","close"}')
    # the same among several processes: the schedules of the protocol model with a crash or a failure
    if run.prop == "C04":
        shared.protocol_model(run, "ab", 3, 2, 0)
        shared.protocol(run, "ab", 2, 1, 0, run.pick(2500, 20000))
        if not q:
            shared.protocol(run, "ab", 3, 2, 0, 40000)
    else:
        shared.protocol_model(run, "ab", 3, 0, 2)
        shared.protocol(run, "ab", 2, 0, 1, run.pick(2000, 20000))
        if not q:
            shared.protocol(run, "ab", 3, 0, 2, 30000)
    run.assumptions = [
        "a crash stops the process; what it wrote before stays in the file system in order (no power loss)",
        "a failing file operation has no effect, a short write the effect of its prefix, a failing close still closes",
    ]
    return run.finish("model_checking", rule="every behaviour of the bounded model x every file operation of the real code inside the disturbed call x torn or failing variants", exhaustive=False)
