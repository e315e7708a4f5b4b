------------------------------ MODULE Reference ------------------------------
(* The stored reference of a database (content keys and commits) and content     *)
(* collections: what can be built, what it answers, and what its encoding may     *)
(* decode to, whole or damaged.                                                 *)
EXTENDS HashTree

(* A content key: hash h, kind k, start from, length len, commit c.             *)
(* A commit: the hashes written (values), creation time t, parent (0 for none),   *)
(* proof: 0 for none, 1 for the proof zero, then positive proofs.                 *)

EndOf(key) == key.from + key.len

RECURSIVE NextFree(_)
NextFree(keys) ==
  IF keys = <<>> THEN 0
  ELSE LET rest == NextFree(Tail(keys))
           e == EndOf(keys[1])
       IN IF e > rest THEN e ELSE rest

LastIndex(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

\* a hash that several keys carry designates the last of them
FetchKey(keys, h) == LastIndex({i \in 1..Len(keys) : keys[i].h = h})

RECURSIVE Indices(_, _, _)
Indices(keys, k, i) ==
  IF i > Len(keys) THEN <<>>
  ELSE (IF keys[i].k = k THEN <<i>> ELSE <<>>) \o Indices(keys, k, i + 1)

ByKind(keys, k) == Indices(keys, k, 1)

\* the identity of a commit: its values tree, time, parent and proof (the proof zero has no bytes)
ProofBytes(p) == IF p <= 1 THEN 0 ELSE p
SameCommit(a, b) ==
  /\ HeadOf(a.values) = HeadOf(b.values)
  /\ a.t = b.t /\ a.parent = b.parent /\ ProofBytes(a.proof) = ProofBytes(b.proof)

FetchCommit(commits, i) == LastIndex({j \in 1..Len(commits) : SameCommit(commits[i], commits[j])})

Latest(commits) == Len(commits)

HasParent(c) == c.parent # 0
HasMine(c) == c.proof # 0

\* mining: the score is the number of leading bytes of the result equal to the mining value
RECURSIVE Score(_, _)
Score(bytes, m) == IF bytes = <<>> \/ bytes[1] # m THEN 0 ELSE 1 + Score(Tail(bytes), m)

-----------------------------------------------------------------------------
(* Builders: a value can be built exactly when its mandatory fields are given    *)
(* and none of the given ones is senseless.                                     *)
Mandatory ==
  [pointer    |-> {"from", "length"},
   contentkey |-> {"hash", "kind", "content", "commit"},
   commit     |-> {"values", "created"},
   commits    |-> {"list"},
   contentkeys |-> {"list"},
   reference  |-> {"contentkeys", "commits"},
   content    |-> {"hash", "data", "kind"},
   contents   |-> {"list"}]

Optional ==
  [pointer |-> {}, contentkey |-> {}, commit |-> {"parent", "proof"}, commits |-> {}, contentkeys |-> {},
   reference |-> {}, content |-> {}, contents |-> {}]

\* given fields whose value is senseless: the empty list, no data, a length of zero, a negative proof
Senseless ==
  [pointer |-> {"length"}, contentkey |-> {}, commit |-> {"proof"}, commits |-> {"list"}, contentkeys |-> {"list"},
   reference |-> {}, content |-> {"data"}, contents |-> {"list"}]

CanBuild(b, given, bad) == Mandatory[b] \subseteq given /\ bad = {}

-----------------------------------------------------------------------------
(* Damage to an encoding, and what decoding may answer then.                     *)
(*   cut    a strict prefix of the encoding                                     *)
(*   length one of its length fields overwritten                                *)
(*   bytes  arbitrary bytes overwritten                                         *)
(* A reference that was cut is always refused; otherwise a value or an error,     *)
(* never a panic, and never more work than the size of what is there.             *)
DecodeOutcomes(what, damage) ==
  IF damage = "none" THEN {"same"}
  ELSE IF what = "reference" /\ damage = "cut" THEN {"error"}
  ELSE {"value", "error"}
=============================================================================
