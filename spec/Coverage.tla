------------------------------ MODULE Coverage ------------------------------
(***************************************************************************)
(* Composing tokens (A06) and the coverage of a grammar by its suites      *)
(* (A07), over the documents and parses of Parser.tla.  A suite is [v, c]: *)
(* whether it is meant to match, and what it spells.                       *)
(***************************************************************************)
EXTENDS Parser

RECURSIVE Times(_,_), Spelled(_)
Times(b, n) == IF n = 0 THEN <<>> ELSE <<b>> \o Times(b, n - 1)
Spelled(list) == IF list = <<>> THEN <<>> ELSE Times(Head(list).b, Head(list).o) \o Spelled(Tail(list))

(* Composing: one line, made of composed values only.  *)
CanCompose(D, t) == LET ls == D.tokens[t].l IN Len(ls) = 1 /\ \A i \in 1..Len(ls[1]) : ls[1][i].k = "compose"
RECURSIVE ComposedFrom(_,_)
ComposedFrom(line, i) == IF i > Len(line) THEN <<>> ELSE Spelled(line[i].c) \o ComposedFrom(line, i + 1)
Composed(D, t) == IF CanCompose(D, t) THEN [ok |-> TRUE, bytes |-> ComposedFrom(D.tokens[t].l[1], 1)] ELSE [ok |-> FALSE, bytes |-> <<>>]

(***************************************************************************)
(* The tokens of a grammar: those its root uses, and those its channels    *)
(* use.  The tokens of conditions do not count, and embedded grammars are  *)
(* looked at on their own.                                                 *)
(***************************************************************************)
Containers(D, t) == UNION {{D.tokens[t].l[i][j] : j \in 1..Len(D.tokens[t].l[i])} : i \in 1..Len(D.tokens[t].l)}
Uses(D, t) == {c.t : c \in {x \in Containers(D, t) : x.k \in {"token", "every"}}}
              \cup {c.x : c \in {x \in Containers(D, t) : x.k = "every" /\ x.x # 0}}
RECURSIVE Closure(_,_)
Closure(D, S) == LET more == S \cup UNION {Uses(D, t) : t \in S} IN IF more = S THEN S ELSE Closure(D, more)
ChannelTokens(D, g) == {D.grammars[g].ch[i].t : i \in 1..Len(D.grammars[g].ch)}
RootTokens(D, g) == Closure(D, {D.grammars[g].root})
SideTokens(D, g) == Closure(D, ChannelTokens(D, g)) \ RootTokens(D, g)
Embedded(D, g) == {c.g : c \in {x \in UNION {Containers(D, t) : t \in RootTokens(D, g) \cup SideTokens(D, g)} : x.k = "ext"}}

(* What the suites of a token give, in order.  *)
Executions(D, t, ch) ==
  [i \in 1..Len(D.tokens[t].s) |->
     LET in == Spelled(D.tokens[t].s[i].c)
         r == ParseAlone(D, in, t, ch)
     IN [v |-> D.tokens[t].s[i].v, i |-> in, ok |-> r.ok, end |-> r.end, tree |-> r.tree]]

(* The coverage: one entry per token with suites.  *)
RECURSIVE Coverages(_,_)
Coverages(D, g) ==
  {[t |-> D.tokens[t].n, x |-> Executions(D, t, D.grammars[g].ch)] : t \in {u \in RootTokens(D, g) : D.tokens[u].s # <<>>}}
  \cup {[t |-> D.tokens[t].n, x |-> Executions(D, t, <<>>)] : t \in {u \in SideTokens(D, g) : D.tokens[u].s # <<>>}}
  \cup UNION {Coverages(D, h) : h \in Embedded(D, g)}

(***************************************************************************)
(* Elements are named by token, line and position; composed values are no  *)
(* elements.                                                               *)
(***************************************************************************)
RECURSIVE Elements(_,_)
Elements(D, g) ==
  UNION {UNION {{[n |-> D.tokens[t].n, l |-> i, c |-> j] : j \in {k \in 1..Len(D.tokens[t].l[i]) : D.tokens[t].l[i][k].k # "compose"}}
                : i \in 1..Len(D.tokens[t].l)} : t \in RootTokens(D, g) \cup SideTokens(D, g)}
  \cup UNION {Elements(D, h) : h \in Embedded(D, g)}

TokenNamed(D, n) == CHOOSE t \in 1..Len(D.tokens) : D.tokens[t].n = n
(* The elements a tree used, in its content (not in its channel text).  *)
RECURSIVE Used(_,_,_)
Used(D, name, tree) ==
  UNION {LET el == tree.e[i]
             k == TokenNamed(D, name)
         IN IF el.c = 0 THEN {}
            ELSE LET c == D.tokens[k].l[tree.l][el.c]
                 IN (IF c.k = "compose" THEN {} ELSE {[n |-> name, l |-> tree.l, c |-> el.c]})
                    \cup UNION {IF "t" \in DOMAIN el.x[j]
                                THEN Used(D, IF c.k = "ext" THEN D.tokens[D.grammars[c.g].root].n ELSE el.x[j].t.n, el.x[j].t)
                                ELSE {} : j \in 1..Len(el.x)}
         : i \in 1..Len(tree.e)}
Covered(D, g) ==
  UNION {UNION {IF e.x[i].ok THEN Used(D, e.t, e.x[i].tree) ELSE {} : i \in 1..Len(e.x)} : e \in Coverages(D, g)}
Uncovered(D, g) == Elements(D, g) \ Covered(D, g)
=============================================================================
