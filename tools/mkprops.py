#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
APP = "libs/databases/infrastructure/files/application.go"
CTX = "libs/databases/infrastructure/files/context.go"
AST = "libs/asts/applications/application.go"
HT = "libs/cryptography/domain/hashtrees/"
REF = "libs/databases/domain/references/"
CON = "libs/databases/domain/contents/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Committed content is durable and reads back byte for byte",
  "Any non-empty content that is written can be committed, and once it is committed it is read back exactly, byte for byte, by its hash and by its pointer, one by one or in batches, in the same context and after closing and reopening, for any content size and any read chunk size (zero meaning all at once). When a hash was committed more than once, reading by hash gives the content of its last committed write, while the pointers of earlier writes keep giving the earlier contents. Asking for a hash that was never committed is an error, never wrong data.",
  ["histories", "inputs", "configurations"],
  "every history of create/open/write/commit/cancel/close/delete on any number of databases, every content size >= 1 byte, every read chunk size",
  "The test writes two short contents with a chunk size larger than any file; the copy loop of the second commit never meets a partial chunk, and no hash is ever rewritten.",
  [APP, CTX, REF + "contentkeys.go", REF + "contentkey.go"],
  [("copy of the old data area into the new file, chunk by chunk", APP + ": writeDataAndReferenceOnDestinationFile"),
   ("reference loading in chunks", APP + ": retrieveReference"),
   ("last write of a hash wins in the key index, the list keeps every write", REF + "contentkeys.go, contentkeys_builder.go")],
  [("database file", "8-byte reference length, reference, data area", APP)],
  ["Application.Read/ReadByHash/ReadAll/ReadAllByHashes return values", "reopened contexts"])

p("C02", "Pending writes are invisible until commit and are committed exactly once",
  "Written content is visible to no reader, of the writing context or of any other, until a commit of that context succeeds; a commit of pending writes on an up-to-date context succeeds and stores every one of them exactly once, in write order, as the bytes given at the time of the write, and leaves nothing pending. Cancelling or closing a context discards its pending writes and changes nothing that is stored. A commit with nothing pending is refused with an error and changes nothing.",
  ["histories", "inputs"],
  "every history interleaving writes, commits, cancels, closes and reopenings on several contexts, including repeated commits on one context and caller buffers reused after the write",
  "The test commits each context at most once, never cancels, never commits an empty context.",
  [APP, CTX], [("pending list appended by Write, reset by Cancel and Commit", APP + ": Write, Cancel, Commit"),
               ("content keys built from the pending list", APP + ": updateReference")],
  [("contentList", "pending writes of a context", CTX)],
  ["content key list of a context after commit", "reads before and after commit/cancel/close"])

p("C03", "The commit history is an append-only chain that accounts for every content",
  "Every successful commit appends exactly one commit to the database's history, whose parent is the previous last commit (the first has none) and which carries the time at which it was made; commits and content keys recorded earlier never change, disappear or move, also across close and reopen. Each content key names the commit that introduced it, and the values tree of a commit is the hash tree of exactly the hashes written in that commit, in write order. Every commit can be fetched by its hash, and a hash that is no commit's is an error.",
  ["histories"],
  "every history of commits and reopenings over one or more databases, every number of writes per commit",
  "The test looks at one commit list of length one.",
  [APP, REF + "commits.go", REF + "commit_builder.go", REF + "contentkey.go"],
  [("parent taken from the latest commit", APP + ": updateReference"), ("values hash tree over pending hashes", APP + ": updateReference"),
   ("list + index built from the same list", REF + "commits_builder.go")],
  [("reference", "content keys and commits of a database", APP)],
  ["Application.Commits, CommitByHash, ContentKeysByKind"])

p("C04", "A crash during a commit leaves the old or the new database, whole",
  "If the process stops at any point while a commit is running, the database is still there afterwards and a newly opened context sees either exactly the state before the commit or exactly the state after it, with all contents readable. Once the commit has returned success, only the new state is possible. After such a crash the database accepts further writes and commits normally, whatever files the crash left behind.",
  ["crash_points", "histories"],
  "every point between (and inside) the file operations of a commit, for every history leading up to it; process crashes, not power loss",
  "No test interrupts a commit; the window between removing the old file and renaming the new one is never observed.",
  [APP], [("new file written aside, then renamed over the source", APP + ": updateDatabaseOnFile")],
  [("source, destination and backup files", "what is on disk during a commit", APP)],
  ["copy of the database directory taken at every file operation, opened by a fresh application"],
  None)

p("C05", "A failing file operation never silently loses data",
  "If a file operation fails (or writes short) while a database is opened or committed, the call reports an error unless its full effect was achieved, and the database on disk holds exactly the state before or exactly the state after the commit, with all contents readable. A commit that reports success is completely stored. After a failed commit the context still serves reads of what was committed, can be closed, and the database can be opened again and committed to; the writes that were pending are still there to be committed once the failure is gone.",
  ["fault_sequences", "histories"],
  "every single failing file operation (error or short write) inside an open or a commit, for every history leading up to it",
  "No test makes a file operation fail.",
  [APP], [("error propagation of the copy and write loops", APP + ": writeDataAndReferenceOnDestinationFile, saveDataOnDisk"),
          ("read errors of the reference", APP + ": retrieveReference"), ("source connection handling in a failing commit", APP + ": updateDatabaseOnFile")],
  [("source, destination and backup files", "what is on disk during a commit", APP)],
  ["return value of Open/Commit/Close under an injected failure", "database state seen by a fresh application"])

p("C06", "Contexts are independent of each other and end with close",
  "Every open context has an identifier different from that of every other context open at the same time, and every operation acts only on the context it names: reads, writes, cancels, commits and closes of one context never change what another one sees, holds pending or will commit. A database that is already open in an application is refused a second context until the first is closed. After close, the identifier is refused by every operation until it is handed out again.",
  ["histories"],
  "every interleaving of opens and closes (in any order) with reads, writes, commits and cancels over several databases in one application",
  "The test never has two contexts open at once.",
  [APP, CTX], [("identifier allocation and the context table", APP + ": Open, Close"), ("name check on open", APP + ": Open")],
  [("contexts", "open contexts by identifier", APP)], ["identifiers returned by Open", "all context operations"])

p("C07", "Databases are created, found and deleted by name without interference",
  "A database exists from a successful create until a successful delete, and at no other time; creating an existing one, and opening or deleting a missing one, are errors that change nothing. No operation on one database, commits included, ever changes, removes or damages a database of another name, whatever the names are. Directories are not databases. Names that end like the temporary files of a commit are refused at creation, because commits of another database would overwrite them.",
  ["histories", "configurations"],
  "every history of operations, one after another (C08 has the concurrent ones), over any set of database names, including names that extend one another by the configured destination and backup extensions",
  "The test uses a single name.",
  [APP], [("stat checks", APP + ": Exists, New, Delete"), ("destination and backup file names derived from the database name", APP + ": updateDatabaseOnFile")],
  [("directory", "one file per database", APP)], ["Exists/New/Delete/Open results", "contents of the other databases"])

p("C08", "Applications sharing a database never overwrite each other's commits",
  "When several application instances or processes open, read, write and commit to the same database, every commit that reported success stays in the history with all its contents; a commit that would be based on an outdated state, or that meets another commit in progress, is refused with an error instead. A context keeps serving the consistent state it was opened on, or last committed, while others commit. This holds for every interleaving of their file operations.",
  ["schedules", "histories"],
  "every interleaving, at the granularity of file operations, of commits, opens and reads of two or more application instances on one database",
  "Every test uses a single application instance.",
  [APP], [("exclusive file lock around the file update", APP + ": updateDatabaseOnFile"), ("check that the file is still the one the context read", APP + ": updateDatabaseOnFile")],
  [("database file identity", "which version of the file a context is based on", APP)], ["commit results and the final history, over controlled interleavings of two processes"])

p("C09", "Listing by kind and pointers describe the stored contents exactly",
  "Listing a kind gives exactly the content keys committed with that kind, in commit and write order, with their hash, kind, pointer and commit; a kind without any key, and a database without any commit, is an error. The pointers of all keys of a database tile its data area in commit order: the first starts at zero, each starts where its predecessor ends, and each is as long as its content. Pointers of already committed contents never change.",
  ["histories", "inputs"],
  "every history of commits, every assignment of kinds and sizes",
  "The test lists one kind holding one key.",
  [APP, REF + "contentkeys.go", REF + "pointer.go"],
  [("next offset from the last pointer", REF + "contentkeys.go: Next"), ("filter by kind", REF + "contentkeys.go: ListByKind")],
  [("content keys", "hash, kind, pointer, commit of every write", REF + "contentkeys.go")], ["Application.ContentKeysByKind"])

p("H01", "A hash tree restores the order of its blocks",
  "Given a hash tree built over a list of blocks and any permutation of these blocks, ordering the permutation by the tree returns the blocks in their original order, whatever their number (also not a power of two), length or repetition; a part of the blocks is returned in the order of the tree. It fails with an error when a given block is not in the tree, or is given more often than the tree holds it. It never returns a block that was not given, or one given block more often than it was given, and leaves the given list untouched.",
  ["inputs"],
  "every list of at least one block (any count, any bytes, duplicates and empty blocks included) and every permutation, sub-list or replacement of it",
  "The test orders one shuffled list of distinct random blocks.",
  [HT + "hashtree.go", HT + "leaf.go", HT + "leaves.go", HT + "builder.go"],
  [("in-order walk over leaf hashes", HT + "hashtree.go: Order"), ("padding to a power of two", HT + "builder.go")],
  [("tree", "parent and leaf hashes", HT + "hashtree.go")], ["HashTree.Order result"])

p("H02", "The head of a hash tree identifies the blocks and survives encoding",
  "The head hash is a function of the block list alone: equal lists give equal heads, and two lists of the same number of blocks that differ in any block or in the order of blocks give different heads (a block that is exactly one digest long standing for itself, and missing blocks up to the next power of two counting as empty ones). The compact form keeps the head and one leaf per padded block in order. Every inner node is the tree of the blocks below it: it has the head and the leaves of that tree, and reads back from its encoding. Encoding and decoding a tree or its compact form gives back an equal one; building a tree of no blocks, or from leaves whose number is not a power of two of at least two, is refused with an error, and building a tree leaves the given blocks untouched. Digests compare equal exactly when their bytes are equal, and their text form reads back as the same digest.",
  ["inputs"],
  "every list of blocks; collision resistance of the digest is assumed (the specification treats digests as free constructors)",
  "The test builds trees over one random list and round-trips one of them.",
  [HT + "builder.go", HT + "leaves.go", HT + "parentleaf.go", HT + "adapter.go", HT + "compact_adapter.go", HT + "compact.go", "libs/cryptography/domain/hash/hash.go"],
  [("pairwise hashing of siblings", HT + "leaves.go, parentleaf.go"), ("length-prefixed encoding", HT + "adapter.go, leaf_adapter.go")],
  [("tree", "parent and leaf hashes", HT)], ["Head(), Compact(), adapters"])

p("K01", "Stored references and contents decode to what was encoded",
  "Every reference (content keys, pointers, commits with or without parent and proof) and every content collection that can be built is equal, field by field and in order, to the result of encoding and decoding it. The derived answers of the decoded value (latest commit, fetch by hash, list by kind, next free offset, mining score) are those of the original. Values that the builders accept and those they refuse are told apart as documented: mandatory fields missing, zero-length pointers, empty lists, contents without data and negative proofs are refused. The mining score is the number of leading bytes of the mining result that equal the mining value.",
  ["inputs"],
  "every structure: any number of keys, commits and contents, any kinds, offsets, lengths, times, proofs, data",
  "Each adapter test round-trips one or two fixed values.",
  [REF + "adapter.go", REF + "commit_adapter.go", REF + "commits_adapter.go", REF + "contentkey_adapter.go", REF + "contentkeys_adapter.go", REF + "pointer_adapter.go", REF + "mine.go", CON + "adapter.go", CON + "content_adapter.go"],
  [("length-prefixed little-endian encoding", REF), ("builders validate", REF)], [], ["adapters and builders of references and contents"])

p("K02", "Damaged encodings and files are refused, never a panic or wrong data",
  "Decoding any bytes into a hash tree, compact tree, leaves, pointer, content key, commit, reference or content collection gives a value or an error, never a panic, and needs no more memory than a small multiple of the bytes given. A reference that was cut short is always refused. Opening a file that is not a whole database (cut anywhere before the end of its reference, or with length fields that do not fit) gives an error or a readable context, never a panic; reading a pointer that lies outside the file is an error. The application stays usable for its other databases.",
  ["inputs"], "every strict prefix, every overwritten length field and arbitrary bytes, for every encoding of a buildable value and every database file",
  "No test decodes anything but what it just encoded.",
  [HT + "leaf_adapter.go", HT + "leaves_adapter.go", REF + "adapter.go", REF + "commits_adapter.go", REF + "commit_adapter.go", REF + "contentkeys_adapter.go", CON + "adapter.go", APP],
  [("length checks of the decoders", REF + ", " + HT + ", " + CON), ("reference length against the file size", APP + ": retrieveReference"), ("pointer bounds", APP + ": Read")], [], ["adapters; Application.Open, Read"])

p("A01", "Parsing is ordered choice with greedy, bounded repetition and recursion",
  "For every grammar made of byte values, token instances, composed values and recursion by token name (token names being distinct), and every input, the parse takes in each token the first of its lines that matches at the current position; a line matches when each of its elements, in order, repeats consecutively as often as it can up to its maximum and at least its minimum number of times (composed values each exactly their number of times), and together they consume at least one byte. A recursive element parses the enclosing token of that name, as deep and as often as needed; a token met again at the very position where an enclosing parse of it started tries only the lines after the one being tried there, so that every parse ends. The resulting tree records exactly the chosen line, elements and repetitions; when no line of the root matches, no tree with a successful block is returned.",
  ["programs", "inputs"],
  "every such grammar and every input",
  "The tests parse a few scripts with the one shipped grammar.",
  [AST, "libs/asts/domain/trees/line.go", "libs/asts/domain/grammars/cardinalities/cardinality.go"],
  [("first successful line wins", AST + ": block"), ("repetition loop with max and min", AST + ": line"), ("name stack for recursion", AST + ": token, elementContent")],
  [("remaining", "input not yet consumed", AST), ("stackMap", "tokens being parsed, by name", AST)], ["Application.Execute"])

p("A02", "A parse tree holds every input byte exactly once",
  "For every grammar without escapes and every input that parses, the bytes of the tree (channel text included) followed by its remaining bytes are exactly the input. Without channel text they are the matched bytes in input order. With escapes, exactly the escapes that were passed over are missing. No parse modifies the input, and the same application parses the same input to the same tree every time.",
  ["programs", "inputs"], "every grammar (values, tokens, recursion, channels, embedded grammars, everything-but tokens) and every input",
  "No test compares the bytes of a tree with its input.",
  [AST, "libs/asts/domain/trees/tree.go", "libs/asts/domain/trees/element.go", "libs/asts/domain/trees/value.go"],
  [("remaining slices handed on", AST), ("Bytes walks prefix, contents, suffix", "libs/asts/domain/trees")], [], ["Tree.Bytes(true), Tree.Bytes(false), Tree.Remaining"])

p("A03", "Channel text is skipped between values and never changes the structure",
  "Channel tokens are consumed, repeatedly and in any mix, in front of every value that matches (together with it, or not at all) and after every token. Inserting or removing text of condition-less channels there, text which no value of the grammar starts with, changes neither whether an input parses nor the structure and bytes of the tree apart from the channel text. A channel with conditions is consumed only where its next condition's token matches at the text after it and its previous condition's token matches at the start of the item parsed just before it (with nothing before, it does not). Channel and condition tokens are themselves parsed without channels. Channel text appears in the tree's full bytes and never in its content bytes.",
  ["programs", "inputs"], "every grammar with one or more channels and every input with channel text inserted at any value boundary",
  "One shipped grammar, a few scripts.",
  [AST], [("prefix of values and suffix of trees", AST + ": elementValue, token, channels"), ("conditions", AST + ": channelCondition")], [], ["Application.Execute"])

p("A04", "An everything-but element stops exactly where its exception begins",
  "An element defined as everything except a token consumes the input up to the first position where that token matches and leaves that match unread for what follows; when the token never matches it consumes to the end of the input. Where an escape token matches directly in front of a match of the exception, the escape and the exception match it protects are passed over, the escape itself not being part of the content; an escape token in front of anything else is plain content. When the exception matches at once, the element does not match. Exception and escape are recognised by their whole tokens, without channels; both may refer to the exception by recursion.",
  ["programs", "inputs"], "every exception and escape token of the grammar class and every input",
  "The shipped grammar uses it once, for comments.",
  [AST], [("reverse line", AST + ": block, lineInReverse")], [], ["Application.Execute"])

p("A05", "An embedded grammar parses like the grammar on its own",
  "An element that refers to another grammar matches at a position exactly when that grammar, with its own channels and none of the outer ones, parses the input from there, and yields the same tree (under the element's name, and with the conditions of its channels seeing what was parsed just before). What it leaves unread is left for the elements that follow in the outer grammar.",
  ["programs", "inputs"], "every pair of outer and embedded grammar and every input",
  "No test embeds a grammar.", [AST, "libs/asts/domain/grammars/external.go"], [("external parse", AST + ": external")], [], ["Application.Execute"])

p("A06", "Composing a token yields exactly the bytes it spells out",
  "Composing a token whose single line consists of composed values returns these values in order, each repeated its declared number of times; a token with several lines or with a non-composed element is refused with an error. Suites feed exactly these bytes to the token they test.",
  ["programs"], "every compose definition", "No test composes a token on its own.",
  [AST, "libs/asts/domain/grammars/compose.go"], [("occurrence loop", AST + ": composeCompose")], [], ["Application.Compose", "coverage results"])

p("A07", "Coverage partitions the grammar's elements by what its suites exercise",
  "The coverage of a grammar holds, for every token with suites reachable from its root and channels (embedded grammars included), one execution per suite in order, whose result is what parsing the suite's bytes with that token and the grammar's channels (none for the tokens that only the channels use) gives, or its error. An element of a line (composed values are none) counts as covered exactly when the parse of some suite used it as content, channel text not counting, and the uncovered elements are exactly all the remaining ones of those tokens; the two never overlap. A grammar without suites has everything uncovered.",
  ["programs"], "every grammar with any placement of suites, recursion and channels included",
  "The test only runs the shipped grammar and prints.",
  [AST, "libs/asts/domain/grammars/coverages/coverages.go"], [("token walk with a skip set", AST + ": coveragesToken"), ("element walk", AST + ": findElements, findCoveraredElements")], [], ["Application.Coverages/Covered/Uncovered"])

p("Q01", "Queries select from a parse tree exactly what they name",
  "Executing a query on a parse tree selects, in the line that matched, the element it names by name and index (counting only elements of that name from zero; the content of an everything-but element goes by the query's reverse name), and of its contents the one at the content index, or all of them. It passes exactly these contents, in tree order, to the content function (a single-content function gets the first), or runs every fetcher on every one of them that is a tree; a recursive fetcher stands for the query most recently begun with that token name. The query function gets the resulting instances in that order (a single function the first), and is not called when there are none, which is a result that is not valid. Invalid nested results are left out. A tree of another token, a content index that is not there, a single-content function without content, an unknown recursive name or a failing function is an error, never a panic; an element that is not there gives no content. Fetching by name gives the tree itself when it has the name, otherwise the index-th of its elements in which the name is found, the same way. Neither modifies the tree, and the remaining bytes are those of the tree.",
  ["programs", "inputs"], "every tree the parser produces and every query that can be built",
  "There is no test of queries.",
  ["libs/queries/applications/application.go", "libs/queries/domain/queries/sdk.go"], [("tree walk", "libs/queries/applications/application.go")], [], ["query Application.Execute"])

p("I01", "A program compiles exactly when its names resolve",
  "Compiling instructions succeeds exactly when there is at least one assignment or execution and every name resolves: module declarations use the index of a module there is and a new name; applications a new name and a module declared before; parameters a new name; assignments a constant, an input parameter, an application declared before, or instructions that compile on their own, with the same modules and nothing else of the outer program; attachments a declared application and a variable assigned before or else an input parameter; executions a declared application. Otherwise it fails with an error, never a panic. The compiled program has one instruction per assignment and execution, in source order, bound to the application with its number (in order of declaration), its module and exactly the attachments made before that point, in order; input parameters are numbered in order of declaration; its outputs are the assignments, in order, to a name that was an output parameter by then. Names are the same when the name function says so. Compiling is deterministic, changes nothing that was compiled before and keeps no state from one program to the next.",
  ["programs"], "every instruction list over modules, applications, parameters, assignments, attachments and executions",
  "There is no test of the compiler.",
  ["libs/interpreters/applications/application.go", "libs/interpreters/domain/programs"], [("name tables while compiling", "libs/interpreters/applications/application.go: Compile")], [], ["interpreter Application.Compile"])

p("I02", "Executing a program yields the outputs its instructions define",
  "Executing a compiled program runs its instructions in order and returns the values of its output assignments, in order: the input of that number, the constant, the list of outputs of a nested program (given the same inputs), or what the executed module answers. Every execution of an application calls its module once, after evaluating its attached values anew in the order they were attached, with a map that has exactly the attached locals (the last value attached to a local counts). An input that was not given or a failing module makes the execution stop there and fail with an error and no output. Executions are independent: the same program and inputs give the same calls and outputs every time, whatever modules do with their maps and callers with the outputs, and neither the program nor the inputs are changed.",
  ["programs", "inputs", "histories"], "every program that compiles, all input maps, modules that succeed or fail",
  "There is no test of the interpreter.",
  ["libs/interpreters/applications/application.go"], [("instruction walk", "libs/interpreters/applications/application.go: Execute")], [], ["interpreter Application.Execute"])

GR = "instances/grammars/grammars/grammar.go"
p("G01", "The shipped grammar reads exactly the programs of its language",
  "Parsing a text with the shipped grammar succeeds exactly when it starts with a root (@name;), any number of channels (-name; -name [prev]; -name [:next]; -name [prev:next];) and at least one instruction, and the tree then holds exactly these, in order and completely, up to the last well-formed instruction, the rest being the remaining bytes. An instruction assigns a name: a value (name: digits;), a compose (name: name, then |digits any number of times, suites;), an everything (name: #name or #name!escape, suites;), a token (name: lines separated by |, each of elements, a name followed by any of ? + * [n] [n,] [n,m]; suites;) or an external grammar (name: 128 hex digits, suites;); the first of these kinds that fits is the one it is. Suites are --- and valid: a & b; or invalid: c; or both in this order. A name is a lower-case letter and any letters. White space (space, tab, line feed, carriage return) and comments (two slashes, a text, to the end of the line) mean nothing anywhere between two characters, at the start and at the end.",
  ["programs", "inputs"], "every text, every layout of every program of the language",
  "The repository's test reads three fixed scripts and looks only at the remaining bytes.",
  [GR, "instances/grammars/tokens/token.go", "instances/grammars/components"],
  [("instruction, channel and suite tokens", GR), ("cardinalities of elements", "instances/grammars/components/cardinalities")], [], ["Application.Execute with the grammar of NewGrammar().Grammar()"])

p("G02", "Shipped and component tokens match exactly the texts they spell out",
  "A token made from all characters of a text matches exactly that text, byte for byte, whatever its characters; one made from any character of a text matches the first of these characters that is there, in all its bytes. The shipped tokens (variable name, 128 hex digits, hex digit, letter, byte, number, upper- and lower-case letters) take exactly the longest text of their kind at the start of an input, or do not match. The compose of a text spells exactly its bytes, suites made from texts hold exactly these texts with their outcomes, and every suite of a shipped or component token or grammar has the outcome it announces. Elements, everythings, lines, blocks, cardinalities and tokens made by the components parse every input as those the builders make of the same parts.",
  ["inputs", "programs"], "every text (any bytes) a component is made from and every input",
  "The repository's test runs one valid and one invalid input per shipped token.",
  ["instances/grammars/components", "instances/grammars/tokens/token.go"],
  [("characters of a text", "instances/grammars/components/tokens/token.go"), ("byte ranges", "instances/grammars/tokens/token.go")], [], ["Application.Execute", "Application.Coverages", "Application.Compose"])

p("B01", "Builders make exactly what they were given, or refuse",
  "Every value of the domain (parse trees, grammars, coverages, hash trees, references, contents, instructions, programs, queries) is made with a builder. What is built answers, field by field and list by list in order, exactly what its builder was last given since it was created, tells apart what it has from what it has not, and a field that was not given, or was given nothing (no object, an empty list or name), is missing from it. Building refuses with an error exactly when a mandatory field is missing or when a kind made of alternatives was given none. A built value never changes, whatever its builder does next; building leaves the builder usable and what it was given untouched; creating a builder from another gives an empty one and leaves the other as it is. Zero is a value as good as any other wherever it is not refused (zero occurences, zero-length pointers). A value looked up by name, index or hash in a built list is the one that is in it, and one that is not in it is an error; a container, element or instance has the name of what it was made of; the successful line of a block is its first successful one, the latest commit is the last one, and a list contains an error when one of its members does. (Several alternatives given at once are left open.)",
  ["inputs", "programs"], "every kind of value, every combination of given, not given and withdrawn fields, every sequence of uses of any number of builders",
  "The tests of the repository use builders only on the paths of a few complete values; optional fields, refusals, reuse of builders and most kinds are never exercised.",
  ["libs/asts/domain/trees", "libs/asts/domain/grammars", "libs/cryptography/domain/hashtrees", "libs/databases/domain/references", "libs/databases/domain/contents", "libs/interpreters/domain/instructions", "libs/interpreters/domain/programs", "libs/queries/domain/queries"],
  [("Now of every builder: mandatory fields, alternatives, optional fields", "libs/*/domain/**/*builder.go"), ("getters of the values", "libs/*/domain/**")], [], ["builders and getters of all kinds of values"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
