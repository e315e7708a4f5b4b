------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* Every document of a bounded class, parsed on every input up to a bound. *)
(* Each document is a state; its transition emits what every input must    *)
(* give, and the properties are invariants over all of these parses.       *)
(***************************************************************************)
EXTENDS Parser, TLC, Json

CONSTANTS Class,      \* which class of documents
          Wide,       \* TRUE: the larger variant of the class
          Alphabet,   \* bytes of the inputs
          MaxInput    \* length of the inputs

VARIABLES doc, stage
vars == <<doc, stage>>

-----------------------------------------------------------------------------
(* Building blocks.  *)
V(b, lo, hi) == [k |-> "value", b |-> b, lo |-> lo, hi |-> hi]
T(t, lo, hi) == [k |-> "token", t |-> t, lo |-> lo, hi |-> hi]
R(n, lo, hi) == [k |-> "rec", n |-> n, lo |-> lo, hi |-> hi]
X(g, lo, hi) == [k |-> "ext", g |-> g, n |-> "X" \o ToString(g), lo |-> lo, hi |-> hi]
E(t, x, lo, hi) == [k |-> "every", t |-> t, x |-> x, n |-> "E" \o ToString(t), lo |-> lo, hi |-> hi]
C(list) == [k |-> "compose", n |-> "C", c |-> list]
Tok(i, lines) == [n |-> "T" \o ToString(i), l |-> lines, s |-> <<>>]
Ch(t, p, x) == [t |-> t, p |-> p, x |-> x]
Doc(tokens, grammars) == [tokens |-> tokens, grammars |-> grammars]
G(root, ch) == [root |-> root, ch |-> ch]

Upto(S, n) == UNION {[1..k -> S] : k \in 1..n}
Cards == {<<1, 1>>, <<0, 1>>, <<0, -1>>, <<2, 2>>} \cup (IF Wide THEN {<<1, -1>>, <<1, 2>>, <<2, -1>>, <<0, 0>>, <<2, 1>>, <<0, 2>>} ELSE {})
FewCards == {<<1, 1>>, <<0, -1>>} \cup (IF Wide THEN {<<0, 1>>, <<1, -1>>, <<2, 2>>} ELSE {})

-----------------------------------------------------------------------------
(* One token: ordered lines of values, repetition, recursion.  *)
ChoiceDocs ==
  LET els == {V(b, c[1], c[2]) : b \in {1, 2}, c \in Cards} \cup {R("T1", 1, 1), R("T1", 0, -1), R("T2", 1, 1)}
      lines == Upto(els, 2)
      ones == Upto(els, 1)
      root == {<<l>> : l \in IF Wide THEN Upto(els, 3) ELSE lines}
              \cup {<<l, m>> : l \in lines, m \in IF Wide THEN lines ELSE ones}
  IN {Doc(<<Tok(1, r)>>, <<G(1, <<>>)>>) : r \in root}

(* Two tokens that use each other.  *)
NestedDocs ==
  LET inner == {V(1, 1, 1), V(2, 1, 1), R("T2", 1, 1), R("T1", 1, 1)}
      il == Upto(inner, 2)
      inners == {<<l>> : l \in il} \cup {<<l, m>> : l \in il, m \in IF Wide THEN il ELSE Upto({V(1, 1, 1), V(2, 1, 1)}, 1)}
      outer == {V(1, 1, 1), R("T2", 1, 1)} \cup {T(1, c[1], c[2]) : c \in FewCards}
      ol == Upto(outer, 2)
      outers == {<<l>> : l \in ol} \cup {<<l, <<V(2, 1, 1)>>>> : l \in ol}
  IN {Doc(<<Tok(1, i), Tok(2, o)>>, <<G(2, <<>>)>>) : i \in inners, o \in outers}

(* Composed values among other elements.  *)
ComposeDocs ==
  LET cl == {C(<<[b |-> 1, o |-> 1]>>), C(<<[b |-> 1, o |-> 2]>>), C(<<[b |-> 1, o |-> 1], [b |-> 2, o |-> 1]>>),
             C(<<[b |-> 2, o |-> 2], [b |-> 1, o |-> 1]>>), C(<<[b |-> 1, o |-> 1], [b |-> 1, o |-> 1]>>)}
      els == cl \cup {V(1, 0, 1), V(2, 0, -1), R("T1", 0, 1)}
      lines == {l \in Upto(els, IF Wide THEN 3 ELSE 2) : \E i \in 1..Len(l) : l[i].k = "compose"}
      root == {<<l>> : l \in lines} \cup {<<l, <<c>>>> : l \in lines, c \in cl}
      chans == {<<>>, <<Ch(1, 0, 0)>>}
  IN {Doc(<<Tok(1, <<<<V(3, 1, 1)>>>>), Tok(2, [i \in 1..Len(r) |-> [j \in 1..Len(r[i]) |->
        IF r[i][j].k = "rec" THEN R("T2", 0, 1) ELSE r[i][j]]])>>, <<G(2, ch)>>) : r \in root, ch \in chans}

(* Channels: 3 (and 4) are blanks that only channel tokens use.  *)
ChannelToks == {<<<<V(3, 1, 1)>>>>, <<<<V(3, 1, -1)>>>>, <<<<V(3, 2, 2)>>, <<V(3, 1, 1), V(4, 1, 1)>>>>, <<<<V(3, 1, 1)>>, <<V(4, 1, 1)>>>>,
                <<<<V(3, 0, 1), V(4, 0, 1)>>>>}
ChannelDocs ==
  LET conds == {<<0, 0>>, <<3, 0>>, <<0, 4>>, <<3, 4>>}
      els == {V(1, 1, 1), V(2, 0, 1), T(5, 1, 1)} \cup (IF Wide THEN {T(5, 0, -1), R("T6", 0, 1)} ELSE {})
      root == {<<l>> : l \in Upto(els, 2)}
      t5 == {<<<<V(1, 1, -1)>>>>, <<<<V(1, 1, 1), V(2, 1, 1)>>, <<V(2, 1, 1)>>>>}
      chans == {<<Ch(1, c[1], c[2])>> : c \in conds} \cup {<<Ch(1, c[1], c[2]), Ch(2, 0, 0)>> : c \in conds}
               \cup (IF Wide THEN {<<Ch(2, 0, 0), Ch(1, c[1], c[2])>> : c \in conds} ELSE {})
      firsts == IF Wide THEN ChannelToks ELSE {<<<<V(3, 1, 1)>>>>, <<<<V(3, 2, 2)>>, <<V(3, 1, 1), V(4, 1, 1)>>>>, <<<<V(3, 0, 1), V(4, 0, 1)>>>>}
      befores == {<<<<V(1, 1, 1)>>>>} \cup (IF Wide THEN {<<<<V(3, 1, 1)>>, <<V(2, 1, 1)>>>>} ELSE {})
      afters == {<<<<V(2, 1, 1)>>>>} \cup (IF Wide THEN {<<<<V(1, 0, 1), V(4, 0, -1)>>>>} ELSE {})
  IN {Doc(<<Tok(1, c1), Tok(2, <<<<V(4, 1, 1)>>>>), Tok(3, b), Tok(4, a), Tok(5, i), Tok(6, r)>>, <<G(6, ch)>>) :
        c1 \in firsts, b \in befores, a \in afters, i \in t5, r \in root, ch \in chans}

(* Everything but a token, with and without an escape.  *)
EveryDocs ==
  LET exc == {<<<<V(2, 1, 1)>>>>, <<<<V(2, 1, 1), V(1, 1, 1)>>>>, <<<<V(2, 1, 1), V(2, 1, 1)>>, <<V(3, 1, 1)>>>>,
              <<<<T(1, 1, 1), V(3, 0, 1)>>>>, <<<<V(2, 1, 1), E(1, 0, 1, 1)>>>>, <<<<V(2, 1, 1), R("T4", 0, 1)>>>>}
             \cup (IF Wide THEN {<<<<V(2, 0, 1), V(3, 1, 1)>>>>, <<<<V(2, 1, -1)>>>>, <<<<R("T4", 1, 1)>>, <<V(2, 1, 1)>>>>, <<<<V(1, 0, 1)>>, <<V(3, 1, 1)>>>>} ELSE {})
      esc == {<<<<V(3, 1, 1)>>>>, <<<<V(3, 1, 1), V(1, 1, 1)>>, <<V(2, 1, 1)>>>>}
             \cup (IF Wide THEN {<<<<V(3, 1, -1)>>>>, <<<<V(1, 1, 1)>>, <<V(3, 1, 1)>>>>} ELSE {})
      cards == {<<1, 1>>, <<0, 1>>, <<0, -1>>}
      roots == {<<<<E(2, x, c[1], c[2])>>>> : x \in {0, 3}, c \in cards}
               \cup {<<<<E(2, 2, 1, 1)>>>>, <<<<V(1, 0, 1), E(2, 2, 1, 1), T(2, 1, 1)>>>>}  \* a doubled exception stands for itself
               \cup {<<<<V(1, 1, 1), E(2, x, c[1], c[2]), T(2, 0, 1)>>>> : x \in {0, 3}, c \in cards}
               \cup {<<<<E(2, x, 1, 1), T(2, 1, 1), V(1, 0, -1)>>, <<V(2, 1, 1), E(2, x, 0, 1)>>>> : x \in {0, 3}}
      chans == {<<>>, <<Ch(5, 0, 0)>>}
  IN {Doc(<<Tok(1, <<<<V(2, 1, 1)>>>>), Tok(2, e), Tok(3, x), Tok(4, r), Tok(5, <<<<V(3, 1, 1)>>>>)>>, <<G(4, ch)>>) :
        e \in exc, x \in esc, r \in roots, ch \in chans}

(* Embedded grammars with channels of their own.  *)
ExtDocs ==
  LET t1 == {<<<<V(1, 1, -1)>>>>, <<<<V(1, 1, 1), V(2, 1, 1)>>, <<V(2, 1, 1)>>>>, <<<<V(1, 1, 1), R("T1", 0, 1), V(2, 0, 1)>>>>, <<<<R("T2", 1, 1)>>, <<V(1, 1, 1)>>>>}
      ch == {<<>>, <<Ch(3, 0, 0)>>, <<Ch(4, 0, 0)>>, <<Ch(3, 1, 0)>>} \cup (IF Wide THEN {<<Ch(4, 0, 1), Ch(3, 0, 0)>>} ELSE {})
      els == {X(2, c[1], c[2]) : c \in FewCards}
      follow == {<<>>, <<V(1, 1, 1)>>, <<V(2, 0, -1)>>, <<X(2, 1, 1)>>, <<R("T1", 0, 1)>>}
      lead == {<<>>, <<V(2, 1, 1)>>}
      roots == {<<l \o <<e>> \o f>> : l \in lead, e \in els, f \in follow} \cup {<<<<e>> \o f, <<V(1, 1, 1)>>>> : e \in els, f \in {<<V(2, 1, 1)>>}}
      chx == {<<>>, <<Ch(3, 0, 0)>>}
  IN {Doc(<<Tok(1, i), Tok(2, r), Tok(3, <<<<V(3, 1, 1)>>>>), Tok(4, <<<<V(4, 1, 1)>>>>)>>, <<G(2, o), G(1, c)>>) :
        i \in t1, r \in roots, o \in chx, c \in ch}

(* Long inputs: repetition, nesting and channel text beyond the width of a byte. *)
LongDocs ==
  LET blank == <<Tok(1, <<<<V(3, 1, 1)>>>>), Tok(2, <<<<V(2, 1, 1)>>>>)>>
      One(lines, ch) == Doc(Append(blank, Tok(3, lines)), <<G(3, ch), G(2, <<>>)>>)
      cards == {<<0, -1>>, <<1, 1>>, <<255, 256>>, <<256, 256>>, <<257, -1>>, <<0, 255>>, <<2, 300>>}
      values == {One(<<<<V(b, c[1], c[2]), V(2, 0, 1)>>>>, ch) : b \in {1, 2}, c \in cards, ch \in {<<>>, <<Ch(1, 0, 0)>>}}
      tokens == {One(<<<<T(2, c[1], c[2]), V(1, 0, -1)>>>>, <<>>) : c \in cards}
      embedded == {One(<<<<X(2, c[1], c[2]), V(1, 0, -1)>>>>, <<Ch(1, 0, 0)>>) : c \in cards}
      nested == {One(<<<<V(1, 1, 1), R("T3", 0, 1), V(2, 1, 1)>>>>, <<>>), One(<<<<V(1, 1, 1), R("T3", 1, 1)>>, <<V(2, 1, 1)>>>>, <<>>)}
      every == {One(<<<<E(2, x, 0, 1), V(2, 1, 1)>>>>, <<>>) : x \in {0, 1}}
      compose == {One(<<<<C(<<[b |-> 1, o |-> o], [b |-> 2, o |-> 1]>>)>>>>, <<>>) : o \in {255, 256, 257, 300}}
  IN values \cup tokens \cup embedded \cup nested \cup every \cup compose

(* Elements, lines and blocks of every cardinality, as the components make them. *)
MadeDocs ==
  LET cards == {<<lo, hi>> : lo \in 0..2, hi \in -1..(IF Wide THEN 4 ELSE 3)}
      inner == {<<<<V(1, 1, 1)>>>>, <<<<V(1, 1, 1)>>, <<V(2, 1, 1)>>>>, <<<<V(1, 1, 1), V(2, 1, 1)>>>>}
      El(c) == T(1, c[1], c[2])
      roots == {<<<<El(c)>>>> : c \in cards} \cup {<<<<El(c), V(2, 1, 1)>>>> : c \in cards}
               \cup {<<<<V(1, 1, 1), El(c)>>, <<V(2, 1, 1)>>>> : c \in cards}
               \cup {<<<<El(c), El(d)>>>> : c \in cards, d \in cards} \cup {<<<<El(c)>>, <<El(d)>>>> : c \in cards, d \in cards}
  IN {Doc(<<Tok(1, i), Tok(2, r)>>, <<G(2, <<>>)>>) : i \in inner, r \in roots}

Docs == CASE Class = "made" -> MadeDocs [] Class = "long" -> LongDocs [] Class = "choice" -> ChoiceDocs [] Class = "nested" -> NestedDocs [] Class = "compose" -> ComposeDocs
          [] Class = "channel" -> ChannelDocs [] Class = "every" -> EveryDocs [] Class = "ext" -> ExtDocs

-----------------------------------------------------------------------------
RECURSIVE AllInputs(_)
AllInputs(n) == IF n = 0 THEN <<<<>>>>
                ELSE LET prev == AllInputs(n - 1)
                         last == SelectSeq(prev, LAMBDA s : Len(s) = n - 1)
                         k == Len(Alphabet)
                     IN prev \o [i \in 1..(Len(last) * k) |-> Append(last[((i - 1) \div k) + 1], Alphabet[((i - 1) % k) + 1])]
Times(b, n) == [i \in 1..n |-> b]
LongInputs == LET ns == IF Wide THEN <<255, 256, 257, 300>> ELSE <<256, 300>>
                  w == Len(ns)
              IN [i \in 1..(6 * w) |->
                    LET n == ns[((i - 1) % w) + 1]
                        k == (i - 1) \div w
                    IN CASE k = 0 -> Times(1, n) [] k = 1 -> Append(Times(1, n), 2)
                         [] k = 2 -> Times(2, n) [] k = 3 -> Times(1, n) \o Times(2, n)
                         [] k = 4 -> <<1>> \o Times(3, n) \o <<2>> [] k = 5 -> Times(3, n) \o Times(1, 2) \o <<3, 2>>]
Inputs == IF Class = "long" THEN LongInputs ELSE AllInputs(MaxInput)

Runs(d) == [i \in 1..Len(Inputs) |->
              LET r == ParseGrammar(d, Inputs[i], 1)
              IN IF r.ok THEN [i |-> Inputs[i], ok |-> TRUE, end |-> r.end, tree |-> r.tree,
                               full |-> TreeBytes(r.tree, TRUE), bare |-> TreeBytes(r.tree, FALSE)]
                 ELSE [i |-> Inputs[i], ok |-> FALSE]]

Init == doc \in Docs /\ stage = "new"
Next == /\ stage = "new"
        /\ stage' = "done"
        /\ UNCHANGED doc
        /\ PrintT("B " \o ToJson([doc |-> doc, runs |-> Runs(doc)]))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
HasEscape(d) == \E t \in 1..Len(d.tokens) : \E i \in 1..Len(d.tokens[t].l) : \E j \in 1..Len(d.tokens[t].l[i]) :
                  d.tokens[t].l[i][j].k = "every" /\ d.tokens[t].l[i][j].x # 0
Has(d, kinds) == \E t \in 1..Len(d.tokens) : \E i \in 1..Len(d.tokens[t].l) : \E j \in 1..Len(d.tokens[t].l[i]) :
                  d.tokens[t].l[i][j].k \in kinds

(* A02: the bytes of the tree are the bytes it consumed.  *)
BytesOK ==
  stage = "done" /\ ~HasEscape(doc) =>
    \A i \in 1..Len(Inputs) :
      LET r == ParseGrammar(doc, Inputs[i], 1)
      IN r.ok => /\ r.end > 1
                 /\ TreeBytes(r.tree, TRUE) = SubSeq(Inputs[i], 1, r.end - 1)

(* A01: the elements of every tree obey the grammar's order and cardinalities.  *)
ByName(d, n) == CHOOSE t \in 1..Len(d.tokens) : d.tokens[t].n = n
RECURSIVE Shaped(_,_)
ShapedLine(d, line, els) ==
  /\ els # <<>>
  /\ \A i \in 1..Len(els) : els[i].c \in 1..Len(line)
  /\ \A i \in 1..(Len(els) - 1) : els[i].c < els[i + 1].c
  /\ \A c \in 1..Len(line) :
       LET mine == SelectSeq(els, LAMBDA e : e.c = c)
           n == IF mine = <<>> THEN 0 ELSE Len(mine[1].x)
       IN IF line[c].k = "compose" THEN n > 0 ELSE line[c].lo <= n /\ (line[c].hi >= 0 => n <= line[c].hi)
Shaped(d, t) ==
  \/ \E g \in 1..Len(d.grammars) : t.n = "X" \o ToString(g) /\ Shaped(d, [t EXCEPT !.n = d.tokens[d.grammars[g].root].n])
  \/ \E tok \in 1..Len(d.tokens) :
       /\ d.tokens[tok].n = t.n
       /\ \/ t.l = 1 /\ Len(t.e) = 1 /\ t.e[1].c = 0   \* everything but this token
          \/ /\ t.l \in 1..Len(d.tokens[tok].l)
             /\ ShapedLine(d, d.tokens[tok].l[t.l], t.e)
       /\ \A i \in 1..Len(t.e) : \A j \in 1..Len(t.e[i].x) : "t" \in DOMAIN t.e[i].x[j] => Shaped(d, t.e[i].x[j].t)
ShapeOK ==
  stage = "done" /\ Class # "long" =>
    \A i \in 1..Len(Inputs) :
      LET r == ParseGrammar(doc, Inputs[i], 1) IN r.ok => Shaped(doc, r.tree)

(* A03: without conditions, blanks that only the channels use change nothing but the channel text. *)
Blank == {3, 4}
Strip(s) == SelectSeq(s, LAMBDA b : b \notin Blank)
SingleBlank(d) == /\ Len(d.grammars) = 1
                  /\ \A c \in 1..Len(d.grammars[1].ch) :
                       LET ch == d.grammars[1].ch[c] IN ch.p = 0 /\ ch.x = 0 /\ d.tokens[ch.t].l \in {<<<<V(3, 1, 1)>>>>, <<<<V(4, 1, 1)>>>>, <<<<V(3, 1, -1)>>>>}
Covers(d, s) == \A i \in 1..Len(s) : s[i] \in Blank => \E c \in 1..Len(d.grammars[1].ch) : d.tokens[d.grammars[1].ch[c].t].l[1][1].b = s[i]
ChannelOK ==
  stage = "done" /\ Class = "channel" /\ SingleBlank(doc) =>
    \A i \in 1..Len(Inputs) :
      Covers(doc, Inputs[i]) =>
        LET r == ParseGrammar(doc, Inputs[i], 1)
            s == ParseGrammar(doc, Strip(Inputs[i]), 1)
        IN /\ r.ok <=> s.ok
           /\ r.ok => /\ Bare(r.tree) = Bare(s.tree)
                      /\ TreeBytes(r.tree, FALSE) = TreeBytes(s.tree, FALSE)

(* A04: an everything-but element ends where its exception matches, or at the end of the input. *)
EveryOK ==
  stage = "done" /\ Class = "every" /\ ~HasEscape(doc) =>
    \A i \in 1..Len(Inputs) :
      LET in == Inputs[i]
          c == doc.tokens[4].l[1][1]
          r == EveryFrom(doc, in, c, NoEnv, 1, <<>>)
      IN c.k = "every" =>
           /\ r.end > Len(in) \/ ParseTok(doc, in, c.t, NoEnv, <<>>, 0, r.end).ok
           /\ \A p \in 1..(r.end - 1) : ~ParseTok(doc, in, c.t, NoEnv, <<>>, 0, p).ok
           /\ Len(r.x) = r.end - 1

(* A05: an embedded grammar (without conditions) parses as it would on its own. *)
EmbedOK ==
  stage = "done" /\ Class = "ext" /\ (\A c \in 1..Len(doc.grammars[2].ch) : doc.grammars[2].ch[c].p = 0) =>
    \A i \in 1..Len(Inputs) :
      LET in == Inputs[i]
      IN \A p \in 1..Len(in) :
           LET a == ParseEl(doc, in, X(2, 1, 1), NoEnv, doc.grammars[1].ch, IF p > 1 THEN p - 1 ELSE 0, p)
               b == ParseGrammar(doc, SubSeq(in, p, Len(in)), 2)
           IN /\ a.ok <=> b.ok
              /\ a.ok => a.end = b.end + p - 1 /\ a.content.t = [b.tree EXCEPT !.n = "X2"]
-----------------------------------------------------------------------------
Two == <<1, 2>>
Three == <<1, 2, 3>>
Four == <<1, 2, 3, 4>>
=============================================================================
