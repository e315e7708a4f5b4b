------------------------------ MODULE MCQuery -------------------------------
(***************************************************************************)
(* Every query of a bounded class over every tree of the documents: each   *)
(* state is a document; its transition emits the trees of its inputs and   *)
(* what every query answers on them.                                       *)
(***************************************************************************)
EXTENDS Query, TLC, Json, SequencesExt

CONSTANTS Class, Wide, MaxInput

VARIABLES doc, stage
vars == <<doc, stage>>

V(b, lo, hi) == [k |-> "value", b |-> b, lo |-> lo, hi |-> hi]
T(t, lo, hi) == [k |-> "token", t |-> t, lo |-> lo, hi |-> hi]
R(n, lo, hi) == [k |-> "rec", n |-> n, lo |-> lo, hi |-> hi]
X(g, lo, hi) == [k |-> "ext", g |-> g, n |-> "X" \o ToString(g), lo |-> lo, hi |-> hi]
E(t, x, lo, hi) == [k |-> "every", t |-> t, x |-> x, n |-> "E" \o ToString(t), lo |-> lo, hi |-> hi]
C(list) == [k |-> "compose", n |-> "C", c |-> list]
Tok(i, lines) == [n |-> "T" \o ToString(i), l |-> lines, s |-> <<>>]
G(root, ch) == [root |-> root, ch |-> ch]
Doc(tokens, grammars, vn) == [tokens |-> tokens, grammars |-> grammars, vn |-> vn]

BaseDocs == {
  \* the same names more than once, optional elements, repetitions
  <<<<Tok(1, <<<<V(1, 1, 2)>>>>), Tok(2, <<<<T(1, 1, 1), V(2, 0, 1), T(1, 0, -1), V(2, 0, 2)>>, <<V(2, 1, -1)>>>>)>>, <<G(2, <<>>)>>>>,
  \* recursion
  <<<<Tok(1, <<<<V(1, 1, 1), R("T1", 0, 2), V(2, 0, 1)>>>>), Tok(2, <<<<T(1, 1, -1), V(2, 0, -1)>>>>)>>, <<G(2, <<>>)>>>>,
  \* lines around the trees of their own token
  <<<<Tok(1, <<<<V(2, 1, 1), R("T1", 2, 2), V(1, 0, 2)>>, <<V(1, 1, 1)>>>>)>>, <<G(1, <<>>)>>>>,
  \* everything but
  <<<<Tok(1, <<<<V(2, 1, 1)>>>>), Tok(2, <<<<E(1, 0, 1, 1), T(1, 0, 1), E(1, 0, 0, 1), T(1, 0, -1)>>, <<T(1, 1, -1)>>>>)>>, <<G(2, <<>>)>>>>,
  \* an embedded grammar, channels
  <<<<Tok(1, <<<<V(1, 1, -1), V(2, 0, 1)>>>>), Tok(2, <<<<X(2, 1, 2), V(2, 0, 1), X(2, 0, 1)>>>>), Tok(3, <<<<V(3, 1, 1)>>>>)>>, <<G(2, <<[t |-> 3, p |-> 0, x |-> 0]>>), G(1, <<>>)>>>>,
  \* composes
  <<<<Tok(1, <<<<C(<<[b |-> 1, o |-> 2]>>), V(2, 0, 1), C(<<[b |-> 1, o |-> 1], [b |-> 2, o |-> 1]>>)>>, <<C(<<[b |-> 1, o |-> 2]>>), V(2, 0, 1)>>>>),
      Tok(2, <<<<T(1, 1, -1)>>, <<V(1, 1, -1), V(2, 1, -1)>>>>)>>, <<G(2, <<>>)>>>>,
  \* three levels
  <<<<Tok(1, <<<<V(1, 1, 2)>>>>), Tok(2, <<<<T(1, 1, 1), V(2, 0, 1)>>, <<V(2, 1, 1)>>>>), Tok(3, <<<<T(2, 1, 1), T(2, 0, -1)>>>>)>>, <<G(3, <<>>)>>>> }
Docs == {Doc(b[1], b[2], vn) : b \in BaseDocs, vn \in {0, 1}}

RECURSIVE AllInputs(_,_)
AllInputs(n, k) == IF n = 0 THEN <<<<>>>>
                   ELSE LET prev == AllInputs(n - 1, k)
                            last == SelectSeq(prev, LAMBDA s : Len(s) = n - 1)
                        IN prev \o [i \in 1..(Len(last) * k) |-> Append(last[((i - 1) \div k) + 1], ((i - 1) % k) + 1)]
Inputs(d) == SelectSeq(AllInputs(MaxInput, IF d.grammars[1].ch = <<>> THEN 2 ELSE 3), LAMBDA in : ParseGrammar(d, in, 1).ok)

-----------------------------------------------------------------------------
(* The queries of a document. *)
ConNames(d) == LET cs == UNION {UNION {{d.tokens[t].l[i][j] : j \in 1..Len(d.tokens[t].l[i])} : i \in 1..Len(d.tokens[t].l)} : t \in 1..Len(d.tokens)}
               IN {CASE c.k = "value" -> ValueName(d, c.b) [] c.k = "token" -> d.tokens[c.t].n [] OTHER -> c.n : c \in cs}
TreeNames(d) == {d.tokens[t].n : t \in 1..Len(d.tokens)} \cup UNION {XName(d, g) : g \in 1..Len(d.grammars)}
RevNames(d) == {"R"} \cup (IF \E n \in ConNames(d) : n = "E1" THEN {"E1", "T1"} ELSE {})

Q(t, r, e, i, c, in, f, fn) == [t |-> t, r |-> r, e |-> e, i |-> i, c |-> c, in |-> in, f |-> f, fn |-> fn]
Root(d) == d.tokens[d.grammars[1].root].n
Ends == {<<"each", "all">>, <<"first", "one">>, <<"empty", "all">>, <<"cfail", "all">>, <<"sfail", "one">>, <<"twice", "all">>,
         <<"each", "drop">>, <<"each", "qfail">>, <<"each", "one">>}
Some == {<<"each", "all">>, <<"first", "one">>}

\* one query
FlatQueries(d) ==
  {Q(Root(d), r, e, i, c, m[1], <<>>, m[2]) : r \in RevNames(d), e \in ConNames(d) \cup {"R", "Z"}, i \in 0..2, c \in -1..2, m \in IF Wide THEN Ends ELSE Some}
  \cup {Q(Root(d), r, e, 0, -1, m[1], <<>>, m[2]) : r \in RevNames(d), e \in ConNames(d) \cup {"R", "Z"}, m \in Ends}
  \cup {Q(t, "R", e, 0, -1, "each", <<>>, "all") : t \in TreeNames(d) \cup {"Z"}, e \in ConNames(d)}

F(q) == [q |-> <<q>>, n |-> ""]
N(n) == [q |-> <<>>, n |-> n]
\* queries over the trees a first query selects
DeepQueries(d) ==
  LET inner == {Q(t, r, e, i, c, m[1], <<>>, m[2]) : t \in TreeNames(d), r \in IF "E1" \in ConNames(d) THEN {"R", "E1"} ELSE {"R"},
                                                     e \in ConNames(d) \cup {"R"}, i \in 0..1, c \in IF Wide THEN -1..1 ELSE {-1},
                                                     m \in {<<"each", "all">>, <<"first", "one">>, <<"each", "drop">>}}
      plain == {x \in inner : x.fn = "all" /\ x.i = 0 /\ x.r = "R" /\ x.c = -1}
      heads == {<<e, i, c>> : e \in ConNames(d), i \in 0..1, c \in {-1, 0}}
      byname == {N(n) : n \in TreeNames(d)}
      below == {F(q) : q \in inner} \cup byname
      \* a query that goes through the trees of its own token
      loops == {Q(t, "R", e, 0, -1, "fetch", f, fn) : t \in TreeNames(d), e \in {n \in ConNames(d) : n \in TreeNames(d)}, fn \in {"all", "one"},
                  f \in {<<N(n)>> : n \in TreeNames(d)} \cup {<<N(n), F(q)>> : n \in TreeNames(d), q \in plain}
                        \cup {<<F(q), N(n)>> : n \in TreeNames(d), q \in plain}
                        \cup {<<F(q)>> : q \in {x \in inner : x.fn = "all" /\ x.i = 0}}}
  IN {Q(Root(d), "R", h[1], h[2], h[3], "fetch", <<f>>, fn) : h \in heads, f \in below, fn \in {"all", "one"}}
     \cup loops
     \cup {Q(Root(d), "R", e, 0, -1, "fetch", <<F(l)>>, "all") : e \in {n \in ConNames(d) : n \in TreeNames(d)}, l \in {x \in loops : x.fn = "all" /\ x.t = x.e}}
     \cup (IF Wide THEN {Q(Root(d), "R", e, 0, -1, "fetch", <<f, g>>, "all") : e \in {n \in ConNames(d) : n \in TreeNames(d)},
                           f \in byname \cup {F(x) : x \in plain}, g \in byname \cup {F(x) : x \in plain}} ELSE {})

QuerySet(d) == IF Class = "flat" THEN FlatQueries(d) ELSE DeepQueries(d)
Names(d) == ConNames(d) \cup TreeNames(d) \cup {"Z"}

Case(d) ==
  LET qs == SetToSeq(QuerySet(d))
      ins == Inputs(d)
      ns == SetToSeq(Names(d))
  IN [doc |-> d, qs |-> qs, names |-> ns,
      runs |-> [x \in 1..Len(ins) |->
        LET tree == ParseGrammar(d, ins[x], 1).tree
        IN [i |-> ins[x], tree |-> tree, r |-> [y \in 1..Len(qs) |-> Answer(d, qs[y], tree)],
            fetch |-> [y \in 1..Len(ns) |-> [k \in 1..4 |-> Fetch(d, tree, ns[y], k - 1)]]]]]

Init == doc \in Docs /\ stage = "new"
Next == /\ stage = "new"
        /\ stage' = "done"
        /\ UNCHANGED doc
        /\ PrintT("B " \o ToJson(Case(doc)))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties. *)
RECURSIVE Leaves(_), LeavesOf(_,_)
LeavesOf(v, i) == IF i > Len(v) THEN <<>> ELSE Leaves(v[i]) \o LeavesOf(v, i + 1)
Leaves(x) == IF x.n = "" THEN <<x.p>> ELSE LeavesOf(x.v, 1)

RECURSIVE At(_,_)
At(tree, p) == p # <<>> /\ p[1] \in 1..Len(tree.e) /\ Len(p) > 1 /\ p[2] \in 1..Len(tree.e[p[1]].x)
               /\ (Len(p) > 2 => /\ "t" \in DOMAIN tree.e[p[1]].x[p[2]]
                                 /\ At(tree.e[p[1]].x[p[2]].t, SubSeq(p, 3, Len(p))))
RECURSIVE Before(_,_)
Before(p, q) == IF p = <<>> \/ q = <<>> THEN p = <<>> /\ q # <<>>
                ELSE IF p[1] = q[1] THEN Before(Tail(p), Tail(q)) ELSE p[1] < q[1]

\* what a chain of queries (one fetcher each, "each" at the end) designates, place by place
RECURSIVE Designates(_,_,_,_)
Designates(d, q, tree, p) ==
  /\ tree.n = q.t
  /\ p[1] \in 1..Len(tree.e)
  /\ ElementName(d, tree, tree.e[p[1]], q.r) = q.e
  /\ Cardinality({i \in 1..(p[1] - 1) : ElementName(d, tree, tree.e[i], q.r) = q.e}) = q.i
  /\ q.c = -1 \/ p[2] = q.c + 1
  /\ IF q.in = "each" THEN Len(p) = 2
     ELSE Len(p) > 2 /\ Designates(d, q.f[1].q[1], tree.e[p[1]].x[p[2]].t, SubSeq(p, 3, Len(p)))
RECURSIVE Chain(_)
Chain(q) == q.fn = "all" /\ (q.in = "each" \/ (q.in = "fetch" /\ Len(q.f) = 1 /\ q.f[1].q # <<>> /\ Chain(q.f[1].q[1])))
RECURSIVE Paths(_)
Paths(tree) == UNION {UNION {LET x == tree.e[i].x[j]
                             IN {<<i, j>>} \cup (IF "t" \in DOMAIN x THEN {<<i, j>> \o p : p \in Paths(x.t)} ELSE {})
                             : j \in 1..Len(tree.e[i].x)} : i \in 1..Len(tree.e)}

SelectOK ==
  stage = "done" =>
    LET ins == Inputs(doc)
    IN \A x \in 1..Len(ins) :
         LET tree == ParseGrammar(doc, ins[x], 1).tree
             all == Paths(tree)
         IN \A q \in QuerySet(doc) :
              LET a == Answer(doc, q, tree)
                  ls == LeavesOf(a.v, 1)
              IN /\ a.st = "ok" <=> a.v # <<>>
                 /\ \A i \in 1..Len(ls) : At(tree, ls[i])                \* nothing from elsewhere
                 /\ Chain(q) => /\ \A i \in 1..(Len(ls) - 1) : Before(ls[i], ls[i + 1])    \* tree order, once each
                                /\ a.st # "error" => {ls[i] : i \in 1..Len(ls)} = {p \in all : Designates(doc, q, tree, p)}

\* a fetched place has the name, and the first one is the first in tree order (elements come before what they hold)
RECURSIVE Walk(_,_)
Walk(tree, p) == p = <<>> \/ (p[1] \in 1..Len(tree.e) /\ (Len(p) = 1 \/ ("t" \in DOMAIN tree.e[p[1]].x[p[2]] /\ Walk(tree.e[p[1]].x[p[2]].t, SubSeq(p, 3, Len(p))))))
RECURSIVE NameAt(_,_,_)
NameAt(d, tree, p) == IF p = <<>> THEN tree.n
                      ELSE IF Len(p) = 1 THEN (IF tree.e[p[1]].c = 0 THEN "" ELSE ElementName(d, tree, tree.e[p[1]], ""))
                      ELSE NameAt(d, tree.e[p[1]].x[p[2]].t, SubSeq(p, 3, Len(p)))
RECURSIVE Places(_)
Places(tree) == {<<>>} \cup UNION {{<<i>>} \cup UNION {IF "t" \in DOMAIN tree.e[i].x[j] THEN {<<i, j>> \o p : p \in Places(tree.e[i].x[j].t)} ELSE {} : j \in 1..Len(tree.e[i].x)} : i \in 1..Len(tree.e)}
FetchOK ==
  stage = "done" =>
    LET ins == Inputs(doc)
    IN \A x \in 1..Len(ins) :
         LET tree == ParseGrammar(doc, ins[x], 1).tree
         IN \A n \in Names(doc) :
              LET named == {p \in Places(tree) : NameAt(doc, tree, p) = n}
                  a == Fetch(doc, tree, n, 0)
              IN /\ a.ok <=> named # {}
                 /\ a.ok => a.p \in named /\ \A p \in named : p = a.p \/ Before(a.p, p)
                 /\ \A k \in 1..3 : LET b == Fetch(doc, tree, n, k) IN b.ok => b.p \in named
=============================================================================
