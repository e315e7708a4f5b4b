"""What is claimed: property -> (module, technique, level, note)."""
MC = "model_checking"
DB = "TLA+ specification (Database.tla) checked by TLC, its behaviours replayed into the real application, recorded random runs judged by TLC"
DBN = "Exhaustive on the bounded models (every operation sequence of the alphabets up to the stated depth) and on every one of their transitions replayed on the real code, with sizes, chunk sizes, names and hashes drawn per behaviour; random walks and recorded runs beyond the bounds. Trusts TLC, the driver's concretisation and the Go toolchain."
CLAIMS = {p: ("db", DB, MC, DBN) for p in ("C01", "C02", "C03", "C06", "C07", "C09")}
NOTYET = {}
for p in "C04 C05 C08 H01 H02 K01 A01 A02 A03 A04 A05 A06 A07 Q01 I01 I02".split():
    NOTYET[p] = "not claimed yet: its specification and conformance check are being built"

FAULT = "TLA+ crash and failure scripts (MCFault.tla, checked by TLC) enumerated by TLC and replayed into the real application at every system call, outcomes judged against the specification's alternatives"
CLAIMS["C04"] = ("fault", FAULT, MC, "Every file-system operation of the listed histories is a crash point (and every prefix class of every write a torn write); the state left on disk is reopened by a fresh application and driven through the specification's follow-up script. Process crash model: what was handed to the kernel survives. Histories bounded by the script alphabet.")
CLAIMS["C05"] = ("fault", FAULT, MC, "Every file-system operation of the listed histories fails once, or from that point on, or writes short; the answers and the state must be one of the specification's alternatives, and the same commit must succeed once the failure is gone. Histories bounded by the script alphabet.")
CLAIMS["C08"] = ("shared", "TLA+ specification of shared use (MCShared.tla scripts enumerated by TLC, SharedTrace.tla): the real application is run under controlled interleavings at every file operation and each recorded run is accepted or refused by TLC", MC, "All pairs of scripts of the alphabet in all situations, every schedule with at most two switches plus random ones, two concurrent applications. Trusts the interposed system calls to be the only communication between the two.")
TREE = "TLA+ specification of hash trees with free constructors (HashTree.tla), model-checked by TLC; every state of MCHashTree.tla replayed into the real trees, recorded random trees judged by TLC (HashTreeTrace.tla)"
for p in ("H01", "H02"):
    CLAIMS[p] = ("tree", TREE, MC, "Exhaustive for short lists of few distinct blocks (every list, every list handed over, also repeated and foreign blocks), bytes of the blocks drawn; recorded random trees up to 130 blocks. Digests are free constructors in the specification.")
REF = "TLA+ specification of references and contents (Reference.tla), model-checked by TLC; every value of MCReference.tla built, encoded and decoded by the real code and compared"
CLAIMS["K01"] = ("refs", REF, MC, "Every value of the bounded models and random long ones; sizes, kinds, times, hashes, proofs drawn per value.")
CLAIMS["K02"] = ("refs", REF + "; every cut and overwritten field of their encodings decoded", MC, "Every strict prefix, every 8-byte window overwritten, random bytes, for encodings of bounded size, and for database files.")
PARSE = "TLA+ specification of parsing (Parser.tla), checked by TLC; every document of the bounded classes of MCParser.tla parsed by the real code on every input, recorded parses of random documents judged by TLC (ParserTrace.tla)"
for p in ("A01", "A02", "A03", "A04", "A05"):
    CLAIMS[p] = ("asts", PARSE, MC, "Exhaustive for the bounded classes (documents and inputs); bytes, names and sharing of grammar objects drawn per document; random documents of up to 8 tokens and inputs up to 24 bytes.")
COVER = "TLA+ specification of composing and coverage (Coverage.tla over Parser.tla), checked by TLC; every document of the bounded classes of MCCoverage.tla composed and covered by the real code, recorded coverages of random documents judged by TLC (CoverageTrace.tla)"
for p in ("A06", "A07"):
    CLAIMS[p] = ("cover", COVER, MC, "Exhaustive for the bounded classes; bytes, names and sharing of grammar objects drawn per document; random documents of up to 8 tokens.")
CLAIMS["Q01"] = ("query", "TLA+ specification of queries over parse trees (Query.tla over Parser.tla), checked by TLC; every query of the bounded classes of MCQuery.tla executed by the real code on every tree of its documents, recorded random queries judged by TLC (QueryTrace.tla)", MC, "Exhaustive for the bounded classes of queries, documents and inputs; the caller's functions are drawn from nine behaviours; random nested queries up to depth 4 on random documents of up to 8 tokens.")
for p in ("I01", "I02"):
    CLAIMS[p] = ("interp", "TLA+ specification of compiling and executing programs (Interpreter.tla), checked by TLC; every program of the alphabets of MCInterpreter.tla compiled and executed by the real code, recorded random programs judged by TLC (InterpreterTrace.tla)", MC, "Exhaustive for the bounded alphabets of instructions, with every number of inputs up to three and every failing call; names, their spellings, constants and nil values drawn per program; random programs of up to 18 instructions with nested programs.")
CLAIMS["G01"] = ("script", "TLA+ specification of the grammar language (Script.tla), checked by TLC; every program of the class of MCScript.tla in every layout, and every single edit of some, read by the real parser with the shipped grammar; recorded readings of random scripts judged by TLC (ScriptTrace.tla)", MC, "Exhaustive for the bounded classes; random scripts of up to 4 instructions with comments, white space and up to three edits.")
CLAIMS["B01"] = ("build", "TLA+ specification of the builders of all kinds of values (Builders.tla), checked by TLC; every script of MCBuilders.tla run on the real builders, recorded random uses judged by TLC (BuildersTrace.tla)", MC, "Exhaustive for every assignment of two values or nothing to every field of every kind, followed by one more operation; random uses of up to four builders with lists up to 41 and texts up to 301 bytes.")
CLAIMS["G02"] = ("script", "TLA+ specification of the shipped tokens (Script.tla), checked by TLC; every token on every input of the class of MCScript.tla matched by the real parser", MC, "Exhaustive for the classes of tokens and inputs (all single bytes, all second bytes, every damage of a digest at five places).")
for p in CLAIMS:
    NOTYET.pop(p, None)
