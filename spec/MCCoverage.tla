----------------------------- MODULE MCCoverage -----------------------------
(* Every document of a bounded class, with what composing its tokens and      *)
(* covering its first grammar must give.                                     *)
EXTENDS Coverage, TLC, Json

CONSTANTS Class, Wide

VARIABLES doc, stage
vars == <<doc, stage>>

V(b, lo, hi) == [k |-> "value", b |-> b, lo |-> lo, hi |-> hi]
T(t, lo, hi) == [k |-> "token", t |-> t, lo |-> lo, hi |-> hi]
R(n, lo, hi) == [k |-> "rec", n |-> n, lo |-> lo, hi |-> hi]
X(g, lo, hi) == [k |-> "ext", g |-> g, n |-> "X" \o ToString(g), lo |-> lo, hi |-> hi]
E(t, x, lo, hi) == [k |-> "every", t |-> t, x |-> x, n |-> "E" \o ToString(t), lo |-> lo, hi |-> hi]
C(list) == [k |-> "compose", n |-> "C", c |-> list]
S(v, list) == [v |-> v, c |-> list]
O(b, o) == [b |-> b, o |-> o]
Tok(i, lines, suites) == [n |-> "T" \o ToString(i), l |-> lines, s |-> suites]
Ch(t) == [t |-> t, p |-> 0, x |-> 0]
Upto(A, n) == UNION {[1..k -> A] : k \in 1..n}

(* Composed values in any arrangement, and what must be refused.  *)
ComposeDocs ==
  LET spells == Upto({O(1, 1), O(2, 1), O(1, 2), O(2, 3)}, IF Wide THEN 3 ELSE 2)
      els == {C(s) : s \in spells} \cup {V(1, 1, 1)}
      one == Upto(els, 2)
      few == Upto({C(<<O(1, 1)>>), V(1, 1, 1)}, 1)
      lines == {<<l>> : l \in one} \cup {<<l, m>> : l \in few, m \in few}
      many == {O(1, 255), O(2, 256), O(1, 257), O(2, 300)}
      suites == {<<>>} \cup {<<S(TRUE, s)>> : s \in spells}
  IN {[tokens |-> <<Tok(1, l, s)>>, grammars |-> <<[root |-> 1, ch |-> <<>>]>>] :
        l \in lines \cup {<<<<C(<<O(1, 2), m>>), C(<<O(2, 1)>>)>>>> : m \in many}, s \in IF Wide THEN suites ELSE {<<>>, <<S(TRUE, <<O(1, 2), O(2, 1)>>), S(FALSE, <<O(2, 2)>>)>>}}
     \cup {[tokens |-> <<Tok(1, <<<<V(m.b, 0, -1)>>>>, <<S(TRUE, <<m>>)>>)>>, grammars |-> <<[root |-> 1, ch |-> <<>>]>>] : m \in many}

(* Suites on tokens, embedded grammars and channels.  *)
CoverDocs ==
  LET s1 == {<<>>, <<S(TRUE, <<O(1, 1)>>)>>, <<S(FALSE, <<O(2, 1)>>), S(TRUE, <<O(1, 2), O(2, 1)>>)>>}
      s2 == {<<>>, <<S(TRUE, <<O(1, 2)>>)>>, <<S(TRUE, <<O(2, 1), O(1, 1)>>), S(FALSE, <<O(3, 1)>>)>>, <<S(TRUE, <<O(1, 1), O(3, 1), O(2, 1)>>)>>}
      s3 == {<<>>, <<S(TRUE, <<O(3, 2)>>)>>}
      t1 == {<<<<V(1, 1, 1)>>>>, <<<<V(2, 0, 1), V(1, 1, 1)>>>>} \cup (IF Wide THEN {<<<<V(1, 2, 2)>>, <<R("T2", 1, 1)>>, <<V(1, 0, 1), V(2, 1, 1)>>>>} ELSE {})
      els == {V(1, 0, 1), V(2, 0, 1), T(1, 0, -1), E(1, 0, 0, 1), X(2, 0, 1), R("T2", 0, 1), C(<<O(1, 1)>>)}
      lines == Upto(els, 2)
      t2 == {<<l>> : l \in lines} \cup (IF Wide THEN {<<l, m>> : l \in lines, m \in Upto(els, 1)} ELSE {})
      t4 == {<<<<V(1, 1, 1), V(2, 0, 1)>>>>}
      s4 == IF Wide THEN {<<>>, <<S(TRUE, <<O(1, 1)>>)>>} ELSE {<<>>}
      chans == {<<>>, <<Ch(3)>>}
  IN {[tokens |-> <<Tok(1, a, x1), Tok(4, d, x4), Tok(3, <<<<V(3, 1, -1)>>>>, x3), Tok(2, b, x2)>>,
       grammars |-> <<[root |-> 4, ch |-> ch], [root |-> 2, ch |-> <<>>]>>] :
        a \in t1, b \in t2, d \in t4, x1 \in s1, x2 \in s2, x3 \in s3, x4 \in s4, ch \in chans}

Docs == IF Class = "compose" THEN ComposeDocs ELSE CoverDocs

Answer(d) == [doc |-> d,
              composed |-> [t \in 1..Len(d.tokens) |-> Composed(d, t)],
              coverages |-> Coverages(d, 1), covered |-> Covered(d, 1), uncovered |-> Uncovered(d, 1)]

Init == doc \in Docs /\ stage = "new"
Next == /\ stage = "new"
        /\ stage' = "done"
        /\ UNCHANGED doc
        /\ PrintT("B " \o ToJson(Answer(doc)))
Spec == Init /\ [][Next]_vars

(* The covered elements exist; a grammar without suites has none.  *)
PartitionOK == stage = "done" =>
  /\ Covered(doc, 1) \subseteq Elements(doc, 1)
  /\ Uncovered(doc, 1) \cap Covered(doc, 1) = {}
  /\ (\A t \in 1..Len(doc.tokens) : doc.tokens[t].s = <<>>) => Uncovered(doc, 1) = Elements(doc, 1)
(* What a token composes, it spells: suites and composed tokens agree.  *)
ComposeOK == stage = "done" =>
  \A t \in 1..Len(doc.tokens) : CanCompose(doc, t) =>
    LET r == ParseAlone(doc, Composed(doc, t).bytes, t, <<>>) IN r.ok /\ r.end = Len(Composed(doc, t).bytes) + 1
=============================================================================
