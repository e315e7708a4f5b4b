----------------------------- MODULE MCHashTree ------------------------------
(* Hash trees as a transition system: blocks are listed one by one, the tree is *)
(* built, then blocks are handed over one by one to be ordered by it. Every      *)
(* state after the construction is emitted with everything the tree has to       *)
(* answer there.                                                              *)
EXTENDS HashTree, TLC, Json

CONSTANTS Blocks,      \* block identities; 0 is the empty block
          MaxBlocks, MaxGiven

VARIABLES blocks, given, stage

vars == <<blocks, given, stage>>

\* what the code must answer in the current state
Answer(bl, gv) ==
  LET o == Order(bl, gv)
  IN [blocks |-> bl, given |-> gv, leaves |-> Pad(bl), height |-> Height(bl), ok |-> o.ok,
      out |-> IF o.ok THEN o.out ELSE <<>>]

Init == blocks = <<>> /\ given = <<>> /\ stage = "listing"

List(b) ==
  /\ stage = "listing" /\ Len(blocks) < MaxBlocks
  /\ blocks' = Append(blocks, b)
  /\ UNCHANGED <<given, stage>>

\* a tree of no blocks is refused: stage stays
Build ==
  /\ stage = "listing" /\ blocks # <<>>
  /\ stage' = "built"
  /\ UNCHANGED <<blocks, given>>
  /\ PrintT("B " \o ToJson(Answer(blocks, <<>>)))

Give(b) ==
  /\ stage = "built" /\ Len(given) < MaxGiven
  /\ given' = Append(given, b)
  /\ UNCHANGED <<blocks, stage>>
  /\ PrintT("B " \o ToJson(Answer(blocks, given')))

Next == (\E b \in Blocks : List(b) \/ Give(b)) \/ Build

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* H01 on the specification
Perms(s) == {p \in [1..Len(s) -> Blocks] : \A b \in Blocks : CountIn(p, b) = CountIn(s, b)}

OrderRestores ==
  stage = "built" =>
    LET o == Order(blocks, given)
    IN /\ given \in Perms(blocks) => o.ok /\ o.out = blocks
       /\ o.ok <=> \A b \in Blocks : CountIn(given, b) <= CountIn(Pad(blocks), b)
       /\ o.ok => /\ Len(o.out) = Len(given)
                  /\ \A b \in Blocks : CountIn(o.out, b) = CountIn(given, b)

\* H02 on the specification: the head tells the padded lists of one length apart
OfLength(n) == [1..n -> Blocks]
HeadsIdentify ==
  stage = "built" /\ given = <<>> =>
    \A n \in 1..MaxBlocks : PaddedLength(n) = PaddedLength(Len(blocks)) =>
      \A other \in OfLength(n) : HeadOf(other) = HeadOf(blocks) <=> Pad(other) = Pad(blocks)

\* the height is the number of levels, the leaves a power of two
Shape ==
  stage = "built" => /\ 2 ^ (Height(blocks) - 1) = Len(Pad(blocks))
                     /\ Len(Pad(blocks)) >= 2
                     /\ SubSeq(Pad(blocks), 1, Len(blocks)) = blocks

\* every inner node is the tree of the blocks below it
Inner ==
  stage = "built" /\ given = <<>> =>
    LET n == Len(Pad(blocks))
    IN \A k \in 1..Log2(n) : LET len == 2 ^ k
         IN \A i \in 0..((n \div len) - 1) :
              At(HeadOf(blocks), n, i * len + 1, len) = HeadOf(Part(blocks, i * len + 1, len))
=============================================================================
