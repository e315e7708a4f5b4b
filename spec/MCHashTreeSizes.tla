--------------------------- MODULE MCHashTreeSizes ---------------------------
(* The shape of large trees. The number of blocks is a state; what the tree has  *)
(* to look like there follows from HashTree.tla: the blocks in their order, then   *)
(* empty blocks up to the padded length.                                        *)
EXTENDS HashTree, Integers, TLC, Json

CONSTANTS MaxPower,    \* up to 2 ^ MaxPower blocks and a few more
          Around       \* how far from a power of two

VARIABLE n

Sizes == {s \in UNION {{2 ^ p + d : d \in (-Around)..Around} : p \in 0..MaxPower} : s > 0}

Init == n = 0
Next == \E s \in Sizes :
  /\ s > n
  /\ \A x \in Sizes : x > n => s <= x
  /\ n' = s
  /\ PrintT("B " \o ToJson([n |-> s, padded |-> PaddedLength(s), height |-> Log2(PaddedLength(s)) + 1]))
Spec == Init /\ [][Next]_n

\* the padded length is the smallest power of two, from two on, that holds the blocks
SmallestPower ==
  n > 0 => /\ PaddedLength(n) >= n /\ PaddedLength(n) >= 2
           /\ PaddedLength(n) = 2 ^ Log2(PaddedLength(n))
           /\ PaddedLength(n) = 2 \/ PaddedLength(n) \div 2 < n
=============================================================================
