----------------------------- MODULE MCReference -----------------------------
(* References and contents as a transition system: keys, then commits, are        *)
(* added one by one, then the value is sealed; every sealed value is emitted       *)
(* with what it must answer. Builders' cases are emitted from the initial state.   *)
EXTENDS Reference, TLC, Json

CONSTANTS KeyHashes, Kinds, Froms, Lens,        \* content keys
          Values, Times, Parents, Proofs,        \* commits
          MaxKeys, MaxCommits,
          Datas, MaxContents,                    \* content collections
          Long                                   \* TRUE: random long values (simulation)

VARIABLES keys, commits, conts, stage

vars == <<keys, commits, conts, stage>>

Init == keys = <<>> /\ commits = <<>> /\ conts = <<>> /\ stage = "keys"

Pick(S) == IF Long THEN {RandomElement(S)} ELSE S

AddKey ==
  /\ stage = "keys" /\ Len(keys) < MaxKeys
  /\ \E h \in Pick(KeyHashes), k \in Pick(Kinds), f \in Pick(Froms), l \in Pick(Lens) :
       keys' = Append(keys, [h |-> h, k |-> k, from |-> f, len |-> l, c |-> h])
  /\ UNCHANGED <<commits, conts, stage>>

AddCommit ==
  /\ stage \in {"keys", "commits"} /\ keys # <<>> /\ Len(commits) < MaxCommits
  /\ Long => Len(keys) = MaxKeys
  /\ \E v \in Pick(Values), t \in Pick(Times), p \in Pick(Parents), m \in Pick(Proofs) :
       commits' = Append(commits, [values |-> v, t |-> t, parent |-> p, proof |-> m])
  /\ stage' = "commits"
  /\ UNCHANGED <<keys, conts>>

RefAnswer ==
  [what |-> "reference", keys |-> keys, commits |-> commits,
   next |-> NextFree(keys),
   fetch |-> [h \in 1..(Cardinality(KeyHashes) + 1) |-> FetchKey(keys, h)],
   kinds |-> [k \in 1..(Cardinality(Kinds) + 1) |-> ByKind(keys, k)],
   latest |-> Latest(commits),
   same |-> [i \in 1..Len(commits) |-> FetchCommit(commits, i)],
   cut |-> DecodeOutcomes("reference", "cut"),
   damaged |-> DecodeOutcomes("reference", "length")]

SealReference ==
  /\ stage = "commits"
  /\ Long => Len(commits) = MaxCommits
  /\ stage' = "done"
  /\ UNCHANGED <<keys, commits, conts>>
  /\ PrintT("B " \o ToJson(RefAnswer))

AddContent ==
  /\ stage \in {"keys", "contents"} /\ keys = <<>> /\ Len(conts) < MaxContents
  /\ \E h \in Pick(KeyHashes), k \in Pick(Kinds), d \in Pick(Datas) :
       conts' = Append(conts, [h |-> h, k |-> k, d |-> d])
  /\ stage' = "contents"
  /\ UNCHANGED <<keys, commits>>

SealContents ==
  /\ stage = "contents"
  /\ Long => Len(conts) = MaxContents
  /\ stage' = "done"
  /\ UNCHANGED <<keys, commits, conts>>
  /\ PrintT("B " \o ToJson([what |-> "contents", conts |-> conts, cut |-> DecodeOutcomes("contents", "cut"),
                            damaged |-> DecodeOutcomes("contents", "length")]))

Builders ==
  /\ stage = "keys" /\ keys = <<>> /\ ~Long
  /\ \E b \in DOMAIN Mandatory :
       \E given \in SUBSET (Mandatory[b] \cup Optional[b]) :
         \E bad \in SUBSET (Senseless[b] \cap given) :
           PrintT("B " \o ToJson([what |-> "builder", builder |-> b, given |-> given, bad |-> bad, ok |-> CanBuild(b, given, bad)]))
  /\ stage' = "done"
  /\ UNCHANGED <<keys, commits, conts>>

Next == AddKey \/ AddCommit \/ SealReference \/ AddContent \/ SealContents \/ Builders

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the next free offset is behind every content, and behind none it is zero
NextFreeOK ==
  /\ \A i \in 1..Len(keys) : EndOf(keys[i]) <= NextFree(keys)
  /\ keys # <<>> => \E i \in 1..Len(keys) : EndOf(keys[i]) = NextFree(keys)

\* listing by kind partitions the keys
KindsPartition ==
  \A i \in 1..Len(keys) :
    Cardinality({k \in Kinds : \E j \in 1..Len(ByKind(keys, k)) : ByKind(keys, k)[j] = i}) = 1

\* identity is an equivalence, and the latest commit answers for itself
IdentityOK ==
  /\ \A i, j \in 1..Len(commits) : SameCommit(commits[i], commits[j]) <=> FetchCommit(commits, i) = FetchCommit(commits, j)
  /\ commits # <<>> => FetchCommit(commits, Len(commits)) = Len(commits)

MCValuesOne == {<<1>>}
MCValues == {<<1>>, <<1, 2>>, <<2, 1, 1>>}
MCValuesLong == {[i \in 1..n |-> ((i * i + n) % 5) + 1] : n \in {3, 16, 17, 127, 129, 255, 256, 257, 300}}
MCValuesWide == {<<1>>, <<2, 1>>, <<1, 2>>, <<3, 2, 1>>, <<1, 1, 1, 1>>, <<1, 2, 3, 2, 1>>, <<4, 3, 2, 1, 2, 3, 4, 1, 2>>}
=============================================================================
