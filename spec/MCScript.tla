------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* Scripts of the grammar language: every program of a bounded class in    *)
(* every layout ("programs"), and every single edit of some ("edits");     *)
(* the tokens of the language on every input of a class ("tokens"). Every  *)
(* state is one of them; its transition emits what the texts declare.      *)
(***************************************************************************)
EXTENDS Script, TLC, Json, SequencesExt

CONSTANTS Class, Wide

VARIABLES what, stage
vars == <<what, stage>>

\* the bytes of a text in printable characters
Printable == " !~#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[~]^_`abcdefghijklmnopqrstuvwxyz{|}"
CodeOf(c) == CHOOSE j \in 1..Len(Printable) : SubSeq(Printable, j, j) = c
B(str) == [j \in 1..Len(str) |-> CodeOf(SubSeq(str, j, j)) + 31]

U(v, x) == [valid |-> v, invalid |-> x]
I(k, n, t, m, x, l, s) == [k |-> k, n |-> B(n), t |-> t, m |-> m, x |-> x, l |-> l, s |-> s]
V(n, d) == I("value", n, B(d), <<>>, <<>>, <<>>, NoSuites)
C(n, m, times, s) == I("compose", n, B(m), times, <<>>, <<>>, s)
E(n, m, x, s) == I("everything", n, B(m), <<>>, B(x), <<>>, s)
T(n, lines, s) == I("token", n, <<>>, <<>>, <<>>, lines, s)
X(n, s) == I("external", n, [j \in 1..128 |-> IF j % 3 = 0 THEN 48 + (j % 10) ELSE IF j % 3 = 1 THEN 97 + (j % 6) ELSE 65 + (j % 6)], <<>>, <<>>, <<>>, s)
El(n, cards) == [name |-> B(n), cards |-> cards]

Vs == U(<<B("v")>>, <<>>)
SuiteSet == {U(v, x) : v \in {<<>>, <<B("v")>>, <<B("valid"), B("bB")>>}, x \in {<<>>, <<B("x")>>, <<B("y"), B("invalid"), B("zZ")>>}} \ {U(<<>>, <<>>)}
CardSet == {B("?"), B("+"), B("*"), B("[2]"), B("[234]"), B("[0,]"), B("[10,]"), B("[0,234]"), B("[1,1]")}
Ins ==
  {V(n, d) : n \in {"a", "aB", "valueName"}, d \in {"0", "45", "255", "0123456789"}}
  \cup {C(n, m, t, Vs) : n \in {"a", "zZ"}, m \in {"b", "myCompose"}, t \in {<<>>, <<B("4")>>, <<B("234")>>, <<B("1"), B("02")>>}}
  \cup {C("a", "b", <<>>, s) : s \in SuiteSet}
  \cup {E("a", m, x, Vs) : m \in {"b", "myToken"}, x \in {"", "c", "myEscape"}}
  \cup {E("a", "b", "c", s) : s \in SuiteSet}
  \cup {T("a", <<<<El("b", <<c>>)>>>>, Vs) : c \in CardSet}
  \cup {T("a", <<<<El("b", <<c>>), El("c", <<d>>)>>, <<El("d", <<>>)>>>>, Vs) : c \in CardSet, d \in IF Wide THEN CardSet ELSE {B("*"), B("[2]")}}
  \cup {T("a", <<<<El("b", <<B("*"), B("?")>>)>>, <<El("c", <<>>)>>, <<El("d", <<>>)>>>>, s) : s \in SuiteSet}
  \cup {T("tokenName", <<<<El("first", <<B("[2]")>>), El("second", <<B("+")>>), El("third", <<>>)>>, <<El("fourth", <<>>)>>>>, s) : s \in SuiteSet}
  \cup {X("a", Vs), X("extern", U(<<B("v"), B("w")>>, <<B("x")>>))}
FewIns == {V("a", "1"), C("bC", "d", <<B("2")>>, Vs), E("e", "f", "g", U(<<>>, <<B("x")>>)), T("t", <<<<El("b", <<B("*")>>), El("c", <<>>)>>, <<El("d", <<>>)>>>>, Vs), X("x", Vs)}
Ch(n, p, x) == [n |-> B(n), prev |-> B(p), next |-> B(x)]
ChSet == {Ch("c", "", ""), Ch("c", "p", ""), Ch("c", "", "n"), Ch("myChannel", "prevToken", "nextToken")}
P(r, ch, ins) == [root |-> B(r), ch |-> ch, ins |-> ins]
Programs ==
  {P("r", <<>>, <<x>>) : x \in Ins}
  \cup {P("root", <<c>>, <<x>>) : c \in ChSet, x \in FewIns}
  \cup {P("r", <<c, d>>, <<V("a", "1")>>) : c \in ChSet, d \in ChSet}
  \cup {P("r", <<Ch("c", "", "")>>, <<x, y>>) : x \in IF Wide THEN Ins ELSE FewIns, y \in FewIns}
  \cup {P("r", <<>>, <<x, y, z>>) : x \in FewIns, y \in FewIns, z \in FewIns}

Comment == <<47, 47>> \o B(" a; @b:1; //c") \o <<10>>
Layouts == {<<<<>>>>, <<<<32>>>>, <<<<10, 9>>, <<>>, <<>>>>, <<<<>>, <<13, 10>>, <<>>, <<32, 32>>, <<>>>>,
            <<Comment, <<>>, <<>>, <<32>>>>, <<<<>>, <<9>> \o Comment \o Comment \o <<32>>, <<>>, <<>>, <<>>, <<>>, <<>>>>}
Tails == {<<>>, <<10>>, <<32>> \o Comment \o <<9>>, <<47, 47, 97>>}

Edited == {B("@r;a:1;"), B("@rO;-c;-d[p];-e[:n];-f[p:n];a:12;b:c|3---valid:v;;"), B("@r;a:#b!c---valid:v&w;invalid:x;;b:3;"),
           B("@r;t:a?b*|c[2]d[1,]e[0,3]+---invalid:v;;"), B("@r;a:b---valid:c;;b:c*---invalid:d;;d:4;")}
          \cup (IF Wide THEN {Text(P("r", <<>>, <<X("a", Vs), V("b", "1")>>)), Laid(B("@r;-c[p];a:b|2---valid:v;;"), <<<<32>>, Comment>>)} ELSE {})
Extra == {97, 65, 49, 58, 59, 124, 45, 91, 93, 44, 35, 33, 38, 64, 42, 47, 32, 10, 0, 255}
Cut(s, j, n) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + n, Len(s))
Put(s, j, n, x) == SubSeq(s, 1, j - 1) \o x \o SubSeq(s, j + n, Len(s))
Edits(s) == {Cut(s, j, 1) : j \in 1..Len(s)} \cup {SubSeq(s, 1, j) : j \in 1..Len(s)} \cup {SubSeq(s, j, Len(s)) : j \in 1..Len(s)}
            \cup {Put(s, j, 1, <<c>>) : j \in 1..Len(s), c \in Extra} \cup {Put(s, j, 0, <<c>>) : j \in 1..(Len(s) + 1), c \in Extra}
            \cup {Put(s, j, 2, <<s[j + 1], s[j]>>) : j \in 1..(Len(s) - 1)}
            \cup {Put(s, j, 0, <<47, 47, 10>>) : j \in 1..(Len(s) + 1)}

(* Programs as pieces, small ones and big ones: without one, with one twice,*)
(* two exchanged, one somewhere else, one replaced, one more.              *)
Pieces == {
  <<B("@"), B("r"), B(";"), B("-"), B("c"), B("["), B("p"), B(":"), B("n"), B("]"), B(";"), B("a"), B(":"), B("1"), B(";")>>,
  <<B("@r;"), B("b:"), B("c"), B("|"), B("3"), B("---"), B("valid:v&w;"), B("invalid:x;"), B(";"), B("d:4;")>>,
  <<B("@r;"), B("b:"), B("#"), B("c"), B("!"), B("e"), B("---"), B("valid"), B(":"), B("v"), B("&"), B("w"), B(";"), B("invalid"), B(":x;"), B(";")>>,
  <<B("@r;"), B("t:"), B("a"), B("?"), B("b"), B("*"), B("|"), B("c"), B("[2]"), B("[1,]"), B("[0,3]"), B("---"), B("invalid:v;"), B(";")>>,
  <<B("@r;"), B("-c;"), B("-d[p];"), B("-e[:n];"), B("a:1;"), B("b:c---valid:v;;"), B("e:#f---valid:v;;"), B("t:a*---valid:v;;"), Text(P("r", <<>>, <<X("x", Vs)>>))>>,
  <<B("@r;t:b"), B("["), B("1"), B(","), B("2"), B("]"), B("+"), B("---valid:v;;")>>}
More == {B("valid:y;"), B("invalid:z;"), B("---"), B(";"), B(":"), B("!"), B("["), B(","), B("]"), B("1"), B("q"), B("-k;"), B("|"), B("@s;"), B("k:9;"), B("&u"), B("+")}
Exchanged(x, i, j) == [x EXCEPT ![i] = x[j], ![j] = x[i]]
Moved(x, i, j) == LET y == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x)) IN SubSeq(y, 1, j - 1) \o <<x[i]>> \o SubSeq(y, j, Len(y))
Rearranged(x) ==
  LET n == Len(x) own == {x[j] : j \in 1..n} IN
  {x} \cup {SubSeq(x, 1, j - 1) \o SubSeq(x, j + 1, n) : j \in 1..n}
  \cup {Exchanged(x, i, j) : i \in 1..n, j \in 1..n}
  \cup {Moved(x, i, j) : i \in 1..n, j \in 1..n}
  \cup {SubSeq(x, 1, j - 1) \o <<y>> \o SubSeq(x, j, n) : j \in 1..(n + 1), y \in own \cup More}
  \cup {SubSeq(x, 1, j - 1) \o <<y>> \o SubSeq(x, j + 1, n) : j \in 1..n, y \in More \cup (IF Wide THEN own ELSE {})}
  \cup (IF Wide THEN {SubSeq(x, 1, i - 1) \o SubSeq(x, j + 1, n) : i \in 1..n, j \in 1..n} \cup {SubSeq(x, 1, j) \o SubSeq(x, i, n) : i \in 1..n, j \in 1..n} ELSE {})

\* programs in which one thing is repeated many times
Times == IF Wide THEN {3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65} ELSE {3, 4, 5, 6, 8, 9, 17}
Few == {n \in Times : n <= 17}
Letters == B("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
NameOf(n) == [j \in 1..n |-> IF j = 1 THEN Letters[(n % 26) + 1] ELSE Letters[((j * 7 + n) % 52) + 1]]
Digits(n) == [j \in 1..n |-> 48 + ((j * 7 + n) % 10)]
Nm(k, t, m, x, l, s) == [k |-> k, n |-> B("a"), t |-> t, m |-> m, x |-> x, l |-> l, s |-> s]
Rep(n, x) == [j \in 1..n |-> x]
LongOf(n) ==
  {P("r", <<>>, <<Nm("value", Digits(n), <<>>, <<>>, <<>>, NoSuites)>>),
   P("r", <<>>, <<[Nm("value", Digits(1), <<>>, <<>>, <<>>, NoSuites) EXCEPT !.n = NameOf(n)]>>),
   [root |-> NameOf(n), ch |-> <<>>, ins |-> <<V("a", "1")>>],
   P("r", <<[n |-> NameOf(n), prev |-> NameOf(n + 1), next |-> NameOf(n + 2)]>>, <<V("a", "1")>>),
   P("r", <<>>, <<Nm("compose", NameOf(n), <<Digits(n)>>, <<>>, <<>>, Vs)>>),
   P("r", <<>>, <<Nm("everything", NameOf(n), <<>>, NameOf(n + 1), <<>>, Vs)>>),
   P("r", <<>>, <<Nm("external", X("a", Vs).t, <<>>, <<>>, <<>>, U([j \in 1..n |-> NameOf(j)], <<>>))>>)}
  \cup (IF n \notin Few THEN {} ELSE
  {P("r", <<>>, <<Nm("compose", B("b"), [j \in 1..n |-> Digits((j % 3) + 1)], <<>>, <<>>, Vs)>>),
   P("r", <<>>, <<Nm("compose", B("b"), <<>>, <<>>, <<>>, U([j \in 1..n |-> NameOf(j)], <<>>))>>),
   P("r", <<>>, <<Nm("compose", B("b"), <<>>, <<>>, <<>>, U(<<>>, [j \in 1..n |-> NameOf((j % 5) + 1)]))>>),
   P("r", <<>>, <<Nm("everything", B("b"), <<>>, <<>>, <<>>, U([j \in 1..n |-> NameOf(2)], [j \in 1..n |-> NameOf(3)]))>>),
   P("r", <<>>, <<Nm("token", <<>>, <<>>, <<>>, <<<<El("b", Rep(n, B("*"))), El("c", <<>>)>>>>, Vs)>>),
   P("r", <<>>, <<Nm("token", <<>>, <<>>, <<>>, <<<<El("b", [j \in 1..n |-> IF j % 2 = 0 THEN B("[2]") ELSE B("[0,3]")])>>>>, Vs)>>),
   P("r", <<>>, <<Nm("token", <<>>, <<>>, <<>>, <<[j \in 1..n |-> [name |-> NameOf(j), cards |-> <<B("+")>>]]>>, Vs)>>),
   P("r", <<>>, <<Nm("token", <<>>, <<>>, <<>>, [j \in 1..n |-> <<[name |-> NameOf(j), cards |-> <<>>]>>], Vs)>>),
   P("r", <<>>, <<Nm("token", <<>>, <<>>, <<>>, <<<<[name |-> NameOf(n), cards |-> <<<<91>> \o Digits(n) \o <<44>> \o Digits(n + 1) \o <<93>>>>]>>>>, Vs)>>),
   P("r", [j \in 1..n |-> [n |-> NameOf(j), prev |-> IF j % 2 = 0 THEN B("p") ELSE <<>>, next |-> IF j % 3 = 0 THEN B("n") ELSE <<>>]], <<V("a", "1")>>),
   P("r", <<>>, [j \in 1..n |-> V("a", "1")]),
   P("r", <<>>, [j \in 1..n |-> IF j % 2 = 0 THEN C("bC", "d", <<B("2")>>, Vs) ELSE E("e", "f", "g", Vs)])})
LongPrograms == UNION {LongOf(n) : n \in Times} \cup (IF Wide THEN {P("r", <<>>, <<[V("a", "1") EXCEPT !.n = NameOf(n)]>>) : n \in {127, 128, 129, 255, 256, 257, 300}} ELSE {P("r", <<>>, <<[V("a", "1") EXCEPT !.n = NameOf(257)]>>)})
RECURSIVE Joined(_, _)
Joined(n, g) == IF n = 0 THEN <<>> ELSE g \o Joined(n - 1, g)
LongLayouts == {<<<<>>>>} \cup {<<<<>>, Joined(n, <<32>>), <<>>, <<>>, <<>>>> : n \in {7, 19}} \cup {<<Joined(n, Comment), <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>> : n \in {5}}
               \cup {<<<<47, 47, 97, 13>>, <<>>, <<>>>>, <<<<>>, <<>>, <<>>, <<47, 47>> \o NameOf(40) \o <<10>>>>}

-----------------------------------------------------------------------------
(* Tokens and their inputs.                                                *)
Words == {B("a"), B("valid"), B("---"), <<195, 169>>, <<226, 134, 146, 120>>, <<0, 1>>, <<97, 195, 188, 98>>}
         \cup {[j \in 1..n |-> 97] : n \in {2, 9, 64, 255, 256, 257}} \cup {[j \in 1..n |-> 33 + ((j * 7) % 90)] : n \in {5, 33, 300, 1025}}
Alternatives == {<<B("a")>>, <<B("1"), B("0")>>, <<<<195, 169>>, B("e"), <<195, 188>>>>, <<<<226, 134, 146>>, <<195, 160>>, B("b"), B("b")>>, <<<<0>>, <<127>>>>,
                 [j \in 1..60 |-> <<33 + j>>], [j \in 1..128 |-> <<j - 1>>], [j \in 1..30 |-> <<195, 159 + j>>], [j \in 1..300 |-> <<196 + (j \div 64), 128 + (j % 64)>>], <<B("a"), B("a"), B("b"), B("a")>>}
Plain == {"variableName", "sha512Hex", "anyHexChar", "anyLetter", "anyByte", "anyNumber", "aToFUpper", "aToFLower", "upper", "lower"}
Toks == {[k |-> "all", w |-> w] : w \in Words} \cup {[k |-> "any", c |-> c] : c \in Alternatives} \cup {[k |-> k] : k \in Plain}
HexRun(n) == [j \in 1..n |-> IF j % 7 = 0 THEN 70 ELSE IF j % 2 = 0 THEN 48 + (j % 10) ELSE 97 + (j % 6)]
Inputs(t) ==
  {<<b>> : b \in 0..255} \cup {<<b, 97>> : b \in {97, 65, 48, 195, 226, 0}} \cup {<<97, b>> : b \in 0..255}
  \cup (CASE t.k = "all" -> {SubSeq(t.w, 1, j) : j \in 1..Len(t.w)} \cup {t.w \o <<b>> : b \in {0, 97, 195}} \cup {[t.w EXCEPT ![j] = b] : j \in 1..Len(t.w), b \in {0, 97, 195, 233, 169}}
          [] t.k = "any" -> {t.c[j] : j \in 1..Len(t.c)} \cup {t.c[j] \o t.c[h] : j \in 1..Len(t.c), h \in {1, Len(t.c)}} \cup {SubSeq(t.c[j], 1, 1) \o <<b>> : j \in {1, Len(t.c)}, b \in 0..255}
          [] t.k = "sha512Hex" -> {HexRun(n) : n \in {1, 64, 126, 127, 128, 129, 130, 256}}
                                  \cup {[HexRun(128) EXCEPT ![j] = b] : j \in {1, 2, 64, 127, 128}, b \in {71, 103, 47, 58, 64, 96, 0, 65, 57}}
          [] t.k = "variableName" -> {B(x) : x \in {"a", "aB", "aBcDeF", "A", "aB1c", "zZaA", "a b", "azAZ[", "myVariable;"}} \cup {NameOf(n) : n \in {31, 64, 127, 128, 254, 255, 256, 257, 258, 300, 1000}} \cup {NameOf(n) \o <<48>> : n \in {64, 255, 256, 257}} \cup {<<97>> \o B("Zz") \o <<b>> : b \in 0..255}
          [] OTHER -> {})

-----------------------------------------------------------------------------
States == CASE Class = "programs" -> Programs [] Class = "long" -> LongPrograms [] Class = "edits" -> Edited [] Class = "pieces" -> Pieces [] Class = "tokens" -> Toks

TextsOf(x) ==
  CASE Class = "programs" -> {Laid(Text(x), g) \o t : g \in Layouts, t \in Tails}
    [] Class = "long" -> {Laid(Text(x), g) : g \in LongLayouts}
    [] Class = "edits" -> Edits(x)
    [] Class = "pieces" -> {Flat(y) : y \in Rearranged(x)}

\* what is emitted: the runs of a state, some at a time
Chunk == 250
Emit(tag, runs) == \A k \in 0..((Len(runs) - 1) \div Chunk) :
  PrintT("B " \o ToJson(tag @@ [runs |-> SubSeq(runs, k * Chunk + 1, IF (k + 1) * Chunk < Len(runs) THEN (k + 1) * Chunk ELSE Len(runs))]))
Emitted(x) ==
  IF Class = "tokens" THEN LET ins == SetToSeq(Inputs(x)) IN PrintT("B " \o ToJson([tok |-> x, runs |-> [j \in 1..Len(ins) |-> [i |-> ins[j], n |-> Takes(x, ins[j])]]]))
  ELSE LET ts == SetToSeq(TextsOf(x)) IN Emit([class |-> Class], [j \in 1..Len(ts) |-> [i |-> ts[j], r |-> Read(ts[j])]])

Init == what \in States /\ stage = "new"
Next == /\ stage = "new"
        /\ stage' = "done"
        /\ UNCHANGED what
        /\ Emitted(what)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* A program is read back from its text, in every layout, wholly.          *)
ReadsBack ==
  stage = "done" /\ Class \in {"programs", "long"} =>
    \A t \in TextsOf(what) :
      LET r == Read(t)
      IN r.ok /\ r.root = what.root /\ r.ch = what.ch /\ r.ins = what.ins /\ r.end = Len(t) + 1
\* what is read is a program, and its text is what was read
Stable ==
  stage = "done" /\ Class \in {"edits", "pieces"} =>
    \A t \in TextsOf(what) :
      LET r == Read(t)
          again == Read(Text([root |-> r.root, ch |-> r.ch, ins |-> r.ins]))
      IN r.ok => r.end <= Len(t) + 1 /\ again.ok /\ again.root = r.root /\ again.ch = r.ch /\ again.ins = r.ins
TokensOK ==
  Class = "tokens" => \A in \in Inputs(what) : Takes(what, in) \in (1..Len(in)) \cup {-1}
=============================================================================
