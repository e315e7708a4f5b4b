------------------------------ MODULE HashTree ------------------------------
(* Hash trees over lists of blocks, with digests as free constructors.        *)
(*                                                                           *)
(* A block is an abstract value from Blocks; 0 stands for the empty block.    *)
(* Leaf(b) is the digest of block b, Node(l, r) the digest of two siblings.   *)
(* Free constructors are the ideal-hash assumption: Leaf and Node are         *)
(* injective and have disjoint ranges (for inputs of one padded length).      *)
EXTENDS Naturals, Sequences, FiniteSets

Empty == 0

Leaf(b) == <<"L", b>>
Node(l, r) == <<"N", l, r>>

RECURSIVE NextPow2(_, _)
NextPow2(n, p) == IF p >= n THEN p ELSE NextPow2(n, 2 * p)

\* A tree has at least two leaves, and a power of two of them.
PaddedLength(n) == NextPow2(n, 2)

Pad(blocks) ==
  [i \in 1..PaddedLength(Len(blocks)) |->
     IF i <= Len(blocks) THEN blocks[i] ELSE Empty]

Leaves(blocks) == LET p == Pad(blocks) IN [i \in 1..Len(p) |-> Leaf(p[i])]

RECURSIVE Reduce(_)
Reduce(level) ==
  IF Len(level) = 1
  THEN level[1]
  ELSE Reduce([i \in 1..(Len(level) \div 2) |-> Node(level[2*i-1], level[2*i])])

HeadOf(blocks) == Reduce(Leaves(blocks))

(* The inner nodes: the head of any aligned part of the leaves, of a power of  *)
(* two of them, is the head of the tree over the blocks of that part.          *)
Part(blocks, from, len) == SubSeq(Pad(blocks), from, from + len - 1)
RECURSIVE At(_, _, _, _)
\* the node over leaves from..from+len-1 of the node h over first..first+size-1, walked down from the head
At(h, size, from, len) ==
  IF size = len THEN h
  ELSE IF from <= size \div 2 THEN At(h[2], size \div 2, from, len)
  ELSE At(h[3], size \div 2, from - size \div 2, len)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* Number of levels of hashes below and including the head. *)
Height(blocks) == Log2(PaddedLength(Len(blocks))) + 1

CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

(* Ordering a list of blocks by a tree: walk the leaves, and at each leaf take *)
(* a given block of that digest that was not taken yet; leaves without one are *)
(* padding or absent blocks. Every given block must have been taken.           *)
RECURSIVE Walk(_, _, _)
Walk(leaves, given, out) ==
  IF leaves = <<>> THEN [ok |-> given = <<>>, out |-> out]
  ELSE LET hits == {i \in 1..Len(given) : given[i] = leaves[1]}
       IN IF hits = {} THEN Walk(Tail(leaves), given, out)
          ELSE LET i == CHOOSE x \in hits : \A y \in hits : x <= y
               IN Walk(Tail(leaves), SubSeq(given, 1, i-1) \o SubSeq(given, i+1, Len(given)),
                       Append(out, leaves[1]))

Order(blocks, given) == Walk(Pad(blocks), given, <<>>)

=============================================================================
