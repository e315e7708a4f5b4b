------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* The grammar language: what a script declares (G01), and the texts the   *)
(* tokens it is made of stand for (G02). A text is a sequence of bytes.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Lower == 97..122
Upper == 65..90
Digit == 48..57
Hex == Digit \cup 97..102 \cup 65..70
Blank == {32, 9, 10, 13}
EndOfLine == {10, 13}
Slash == 47  Colon == 58  Semi == 59  Comma == 44  Hash == 35  Bang == 33  Pipe == 124  Amp == 38
At == 64     Dash == 45   Quest == 63 Plus == 43   Star == 42  Open == 91  Close == 93

-----------------------------------------------------------------------------
(* Between any two characters: white space, and comments to the end of     *)
(* their line. A comment has a text: two slashes alone are none.           *)
RECURSIVE LineEnd(_,_), Skip(_,_)
LineEnd(s, i) == IF i > Len(s) \/ s[i] \in EndOfLine THEN i ELSE LineEnd(s, i + 1)
Skip(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF s[i] \in Blank THEN Skip(s, i + 1)
  ELSE IF /\ s[i] = Slash /\ i + 2 <= Len(s) /\ s[i + 1] = Slash /\ s[i + 2] \notin EndOfLine THEN Skip(s, LineEnd(s, i + 2))
  ELSE i

No == [ok |-> FALSE, end |-> 0, v |-> <<>>]
Yes(end, v) == [ok |-> TRUE, end |-> end, v |-> v]

\* one character of a set
One(s, i, set) == LET j == Skip(s, i) IN IF j <= Len(s) /\ s[j] \in set THEN Yes(j + 1, <<s[j]>>) ELSE No

RECURSIVE Word(_,_,_), Many(_,_,_,_), Count(_,_,_,_)
\* the characters of a word, in order
Word(s, i, w) == IF w = <<>> THEN Yes(i, <<>>)
                 ELSE LET c == One(s, i, {w[1]}) IN IF c.ok THEN Word(s, c.end, Tail(w)) ELSE No
\* as many characters of a set as there are
Many(s, i, set, acc) == LET c == One(s, i, set) IN IF c.ok THEN Many(s, c.end, set, acc \o c.v) ELSE Yes(i, acc)
Count(s, i, set, n) == IF n = 0 THEN Yes(i, <<>>)
                       ELSE LET c == One(s, i, set) IN
                            IF ~c.ok THEN No ELSE LET r == Count(s, c.end, set, n - 1) IN IF r.ok THEN Yes(r.end, c.v \o r.v) ELSE No

Name(s, i) == LET c == One(s, i, Lower) IN IF c.ok THEN Many(s, c.end, Lower \cup Upper, c.v) ELSE No
Number(s, i) == LET r == Many(s, i, Digit, <<>>) IN IF r.v = <<>> THEN No ELSE r

-----------------------------------------------------------------------------
(* Suites: --- valid: a & b; invalid: c;   one of the two at least         *)
RECURSIVE MoreNames(_,_,_)
MoreNames(s, i, acc) ==
  LET d == One(s, i, {Amp})
      n == IF d.ok THEN Name(s, d.end) ELSE No
  IN IF n.ok THEN MoreNames(s, n.end, Append(acc, n.v)) ELSE Yes(i, acc)
SuiteBlock(s, i) ==
  LET c == One(s, i, {Colon})
      n == IF c.ok THEN Name(s, c.end) ELSE No
      m == IF n.ok THEN MoreNames(s, n.end, <<n.v>>) ELSE No
      e == IF m.ok THEN One(s, m.end, {Semi}) ELSE No
  IN IF e.ok THEN Yes(e.end, m.v) ELSE No
ValidWord == <<118, 97, 108, 105, 100>>
InvalidWord == <<105, 110>> \o ValidWord
SuitePart(s, i, word) == LET w == Word(s, i, word) IN IF w.ok THEN SuiteBlock(s, w.end) ELSE No
Suites(s, i) ==
  LET p == Word(s, i, <<Dash, Dash, Dash>>)
      v == IF p.ok THEN SuitePart(s, p.end, ValidWord) ELSE No
      x == IF p.ok THEN SuitePart(s, IF v.ok THEN v.end ELSE p.end, InvalidWord) ELSE No
  IN IF ~v.ok /\ ~x.ok THEN No
     ELSE Yes(IF x.ok THEN x.end ELSE v.end, [valid |-> v.v, invalid |-> x.v])

-----------------------------------------------------------------------------
(* What is assigned.                                                       *)
RECURSIVE Amounts(_,_,_), Cards(_,_,_), Elements(_,_,_), Lines(_,_,_)
\* name|4
Amounts(s, i, acc) ==
  LET p == One(s, i, {Pipe})
      n == IF p.ok THEN Number(s, p.end) ELSE No
  IN IF n.ok THEN Amounts(s, n.end, Append(acc, n.v)) ELSE Yes(i, acc)
Compose(s, i) == LET n == Name(s, i) IN IF ~n.ok THEN No ELSE LET a == Amounts(s, n.end, <<>>) IN Yes(a.end, [name |-> n.v, times |-> a.v])

\* #name or #name!name
Everything(s, i) ==
  LET h == One(s, i, {Hash})
      n == IF h.ok THEN Name(s, h.end) ELSE No
      b == IF n.ok THEN One(s, n.end, {Bang}) ELSE No
      e == IF b.ok THEN Name(s, b.end) ELSE No
  IN IF ~n.ok THEN No ELSE IF e.ok THEN Yes(e.end, [name |-> n.v, escape |-> e.v]) ELSE Yes(n.end, [name |-> n.v, escape |-> <<>>])

\* ? + * [n] [n,] [n,m]; the characters without what lies between them
Card(s, i) ==
  LET c == One(s, i, {Quest, Plus, Star})
      o == One(s, i, {Open})
      n == IF o.ok THEN Number(s, o.end) ELSE No
      x == IF n.ok THEN One(s, n.end, {Close}) ELSE No
      k == IF n.ok THEN One(s, n.end, {Comma}) ELSE No
      m == IF k.ok THEN Many(s, k.end, Digit, <<>>) ELSE No
      y == IF m.ok THEN One(s, m.end, {Close}) ELSE No
  IN IF c.ok THEN c
     ELSE IF x.ok THEN Yes(x.end, o.v \o n.v \o x.v)
     ELSE IF y.ok THEN Yes(y.end, o.v \o n.v \o k.v \o m.v \o y.v) ELSE No
Cards(s, i, acc) == LET c == Card(s, i) IN IF c.ok THEN Cards(s, c.end, Append(acc, c.v)) ELSE Yes(i, acc)
Elements(s, i, acc) ==
  LET n == Name(s, i)
      c == IF n.ok THEN Cards(s, n.end, <<>>) ELSE No
  IN IF c.ok THEN Elements(s, c.end, Append(acc, [name |-> n.v, cards |-> c.v])) ELSE IF acc = <<>> THEN No ELSE Yes(i, acc)
\* elements | elements
Lines(s, i, acc) ==
  LET p == IF acc = <<>> THEN Yes(i, <<>>) ELSE One(s, i, {Pipe})
      l == IF p.ok THEN Elements(s, p.end, <<>>) ELSE No
  IN IF l.ok THEN Lines(s, l.end, Append(acc, l.v)) ELSE IF acc = <<>> THEN No ELSE Yes(i, acc)

-----------------------------------------------------------------------------
(* Instructions: the first of the kinds that fits. An instruction is       *)
(* [k, n, t, m, x, l, s]: kind, name; number, name or digest it assigns;   *)
(* amounts of a compose, escape of an everything, lines of a token; suites *)
Tested(s, n, r) ==
  LET u == IF r.ok THEN Suites(s, r.end) ELSE No
      e == IF u.ok THEN One(s, u.end, {Semi}) ELSE No
  IN IF e.ok THEN Yes(e.end, [k |-> r.v.k, n |-> n, t |-> r.v.t, m |-> r.v.m, x |-> r.v.x, l |-> r.v.l, s |-> u.v]) ELSE No
NoSuites == [valid |-> <<>>, invalid |-> <<>>]
Body(k, t, m, x, l) == [k |-> k, t |-> t, m |-> m, x |-> x, l |-> l]
As(kind, r) == IF ~r.ok THEN No
               ELSE Yes(r.end, CASE kind = "compose" -> Body(kind, r.v.name, r.v.times, <<>>, <<>>)
                                 [] kind = "everything" -> Body(kind, r.v.name, <<>>, r.v.escape, <<>>)
                                 [] kind = "token" -> Body(kind, <<>>, <<>>, <<>>, r.v)
                                 [] kind = "external" -> Body(kind, r.v, <<>>, <<>>, <<>>))
Instruction(s, i) ==
  LET n == Name(s, i)
      c == IF n.ok THEN One(s, n.end, {Colon}) ELSE No
      d == IF c.ok THEN Number(s, c.end) ELSE No
      e == IF d.ok THEN One(s, d.end, {Semi}) ELSE No
      compose == Tested(s, n.v, As("compose", Compose(s, c.end)))
      every == Tested(s, n.v, As("everything", Everything(s, c.end)))
      token == Tested(s, n.v, As("token", Lines(s, c.end, <<>>)))
      extern == Tested(s, n.v, As("external", Count(s, c.end, Hex, 128)))
  IN IF ~c.ok THEN No
     ELSE IF e.ok THEN Yes(e.end, [k |-> "value", n |-> n.v, t |-> d.v, m |-> <<>>, x |-> <<>>, l |-> <<>>, s |-> NoSuites])
     ELSE IF compose.ok THEN compose
     ELSE IF every.ok THEN every
     ELSE IF token.ok THEN token
     ELSE extern

(* -name; -name [prev]; -name [:next]; -name [prev:next];                  *)
Conditions(s, i) ==
  LET o == One(s, i, {Open})
      p == IF o.ok THEN Name(s, o.end) ELSE No
      c == IF o.ok THEN One(s, IF p.ok THEN p.end ELSE o.end, {Colon}) ELSE No
      n == IF c.ok THEN Name(s, c.end) ELSE No
      e == IF n.ok THEN One(s, n.end, {Close}) ELSE IF p.ok THEN One(s, p.end, {Close}) ELSE No
  IN IF e.ok THEN Yes(e.end, [prev |-> p.v, next |-> n.v]) ELSE No
Channel(s, i) ==
  LET d == One(s, i, {Dash})
      n == IF d.ok THEN Name(s, d.end) ELSE No
      b == IF n.ok THEN Conditions(s, n.end) ELSE No
      e == IF n.ok THEN One(s, IF b.ok THEN b.end ELSE n.end, {Semi}) ELSE No
  IN IF e.ok THEN Yes(e.end, [n |-> n.v, prev |-> IF b.ok THEN b.v.prev ELSE <<>>, next |-> IF b.ok THEN b.v.next ELSE <<>>]) ELSE No

Root(s, i) ==
  LET a == One(s, i, {At})
      n == IF a.ok THEN Name(s, a.end) ELSE No
      e == IF n.ok THEN One(s, n.end, {Semi}) ELSE No
  IN IF e.ok THEN Yes(e.end, n.v) ELSE No

RECURSIVE Channels(_,_,_), Instructions(_,_,_)
Channels(s, i, acc) == LET c == Channel(s, i) IN IF c.ok THEN Channels(s, c.end, Append(acc, c.v)) ELSE Yes(i, acc)
Instructions(s, i, acc) == LET c == Instruction(s, i) IN IF c.ok THEN Instructions(s, c.end, Append(acc, c.v)) ELSE Yes(i, acc)

(* What a script declares, and how much of it was read.                    *)
Nothing == [ok |-> FALSE, end |-> 0, root |-> <<>>, ch |-> <<>>, ins |-> <<>>]
Read(s) ==
  LET r == Root(s, 1)
      c == IF r.ok THEN Channels(s, r.end, <<>>) ELSE No
      n == IF r.ok THEN Instructions(s, c.end, <<>>) ELSE No
  IN IF ~r.ok \/ n.v = <<>> THEN Nothing
     ELSE [ok |-> TRUE, end |-> Skip(s, n.end), root |-> r.v, ch |-> c.v, ins |-> n.v]

-----------------------------------------------------------------------------
(* The same the other way round: the text of a script, with something (a   *)
(* text that stands for nothing) in front of each of its characters.       *)
RECURSIVE Flat(_)
Flat(list) == IF list = <<>> THEN <<>> ELSE list[1] \o Flat(Tail(list))
RECURSIVE Sep(_,_)
Sep(list, d) == IF list = <<>> THEN <<>> ELSE IF Len(list) = 1 THEN list[1] ELSE list[1] \o d \o Sep(Tail(list), d)

SuiteText(word, names) == IF names = <<>> THEN <<>> ELSE word \o <<Colon>> \o Sep(names, <<Amp>>) \o <<Semi>>
SuitesText(u) == <<Dash, Dash, Dash>> \o SuiteText(ValidWord, u.valid) \o SuiteText(InvalidWord, u.invalid)
BodyText(x) ==
  CASE x.k = "value" -> x.t
    [] x.k = "compose" -> x.t \o Flat([j \in 1..Len(x.m) |-> <<Pipe>> \o x.m[j]])
    [] x.k = "everything" -> <<Hash>> \o x.t \o (IF x.x = <<>> THEN <<>> ELSE <<Bang>> \o x.x)
    [] x.k = "token" -> Sep([j \in 1..Len(x.l) |-> Flat([h \in 1..Len(x.l[j]) |-> x.l[j][h].name \o Flat(x.l[j][h].cards)])], <<Pipe>>)
    [] x.k = "external" -> x.t
InsText(x) == x.n \o <<Colon>> \o BodyText(x) \o (IF x.k = "value" THEN <<>> ELSE SuitesText(x.s)) \o <<Semi>>
ChText(c) == <<Dash>> \o c.n
             \o (IF c.prev = <<>> /\ c.next = <<>> THEN <<>>
                 ELSE <<Open>> \o c.prev \o (IF c.next = <<>> THEN <<>> ELSE <<Colon>> \o c.next) \o <<Close>>)
             \o <<Semi>>
Text(p) == <<At>> \o p.root \o <<Semi>> \o Flat([j \in 1..Len(p.ch) |-> ChText(p.ch[j])]) \o Flat([j \in 1..Len(p.ins) |-> InsText(p.ins[j])])
\* gaps[((j - 1) mod n) + 1] in front of the j-th character
Laid(s, gaps) == Flat([j \in 1..Len(s) |-> gaps[((j - 1) % Len(gaps)) + 1] \o <<s[j]>>])

-----------------------------------------------------------------------------
(* The tokens (G02): the length of the text a token takes at the start of  *)
(* an input, -1 when it does not match. No channels here.                  *)
StartsWith(in, w) == Len(w) <= Len(in) /\ SubSeq(in, 1, Len(w)) = w
RECURSIVE Run(_,_,_)
Run(in, i, set) == IF i <= Len(in) /\ in[i] \in set THEN Run(in, i + 1, set) ELSE i - 1
Takes(t, in) ==
  LET first(set) == IF in # <<>> /\ in[1] \in set THEN 1 ELSE -1
  IN CASE t.k = "all" -> IF StartsWith(in, t.w) THEN Len(t.w) ELSE -1
       [] t.k = "any" -> LET hits == {j \in 1..Len(t.c) : StartsWith(in, t.c[j])}
                         IN IF hits = {} THEN -1 ELSE Len(t.c[CHOOSE j \in hits : \A h \in hits : j <= h])
       [] t.k = "variableName" -> IF in # <<>> /\ in[1] \in Lower THEN Run(in, 2, Lower \cup Upper) ELSE -1
       [] t.k = "sha512Hex" -> IF Len(in) >= 128 /\ Run(in, 1, Hex) >= 128 THEN 128 ELSE -1
       [] t.k = "anyHexChar" -> first(Hex)
       [] t.k = "anyLetter" -> first(Lower \cup Upper)
       [] t.k = "anyByte" -> first(0..255)
       [] t.k = "anyNumber" -> first(Digit)
       [] t.k = "aToFUpper" -> first(65..70)
       [] t.k = "aToFLower" -> first(97..102)
       [] t.k = "upper" -> first(Upper)
       [] t.k = "lower" -> first(Lower)
=============================================================================
