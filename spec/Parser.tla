------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* What parsing means (A01-A05), independently of how it is programmed.    *)
(*                                                                         *)
(* A document D = [tokens, grammars] holds tokens [n, l, s] (name, lines,  *)
(* suites) and grammars [root, ch].  Tokens and grammars are referred to   *)
(* by their index.  A line is a sequence of containers:                    *)
(*   [k |-> "value",   b |-> byte,            lo, hi]                      *)
(*   [k |-> "token",   t |-> token,           lo, hi]                      *)
(*   [k |-> "rec",     n |-> token name,      lo, hi]                      *)
(*   [k |-> "every",   t |-> exception, x |-> escape or 0, n |-> name, lo, hi] *)
(*   [k |-> "ext",     g |-> grammar, n |-> name, lo, hi]                  *)
(*   [k |-> "compose", n |-> name, c |-> sequence of [b, o] (byte, times)] *)
(* hi = -1 means no maximum.  A channel is [t, p, x]: its token, and the   *)
(* tokens of its previous/next condition, 0 for none.                      *)
(*                                                                         *)
(* A match is [ok, end, tree].  A tree is [n, l, e, s]: token name, chosen *)
(* line, elements, suffix.  An element is [c, x]: container index (0 when  *)
(* it has none) and contents; a content is [v, p] (byte, prefix) or [t].   *)
(* pos is the position of the next unread byte; prev is the position of    *)
(* the item parsed just before, 0 when there is none.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoMatch == [ok |-> FALSE, end |-> 0, tree |-> <<>>]
NoEnv == <<>>

RECURSIVE ParseTok(_,_,_,_,_,_,_), TryLines(_,_,_,_,_,_,_,_),
          ParseLine(_,_,_,_,_,_,_,_), Repeat(_,_,_,_,_,_,_,_), ParseEl(_,_,_,_,_,_,_),
          Spell(_,_,_,_,_,_,_), Passes(_,_,_,_,_,_), OnePass(_,_,_,_,_,_,_),
          EveryFrom(_,_,_,_,_,_)

(***************************************************************************)
(* Tokens.  env maps the names of the tokens being parsed to their index,  *)
(* the position where they started and the line they are trying.  A token  *)
(* that comes up again where an enclosing parse of it started only tries   *)
(* the lines after the one being tried there.                              *)
(***************************************************************************)
ParseTok(D, in, t, env, ch, prev, pos) ==
  LET name  == D.tokens[t].n
      first == IF name \in DOMAIN env /\ env[name].pos = pos THEN env[name].line + 1 ELSE 1
      r     == TryLines(D, in, t, first, env, ch, prev, pos)
  IN IF ~r.ok THEN NoMatch
     ELSE LET suffix == Passes(D, in, ch, pos, r.end, <<>>)
          IN [ok |-> TRUE, end |-> suffix.end, tree |-> [r.tree EXCEPT !.s = suffix.trees]]

(* The first line that matches is taken.  *)
TryLines(D, in, t, i, env, ch, prev, pos) ==
  IF i > Len(D.tokens[t].l) THEN NoMatch
  ELSE LET name == D.tokens[t].n
           env2 == [x \in (DOMAIN env) \cup {name} |-> IF x = name THEN [tok |-> t, pos |-> pos, line |-> i] ELSE env[x]]
           r    == ParseLine(D, in, D.tokens[t].l[i], 1, env2, ch, prev, [pos |-> pos, e |-> <<>>])
       IN IF r.ok /\ r.e # <<>>
          THEN [ok |-> TRUE, end |-> r.end, tree |-> [n |-> name, l |-> i, e |-> r.e, s |-> <<>>]]
          ELSE TryLines(D, in, t, i + 1, env, ch, prev, pos)

(***************************************************************************)
(* Lines: every container in its turn.  An element that does not occur     *)
(* leaves no trace in the tree.                                            *)
(***************************************************************************)
ParseLine(D, in, line, i, env, ch, prev, st) ==
  IF i > Len(line) THEN [ok |-> TRUE, end |-> st.pos, e |-> st.e]
  ELSE LET c == line[i]
           r == IF c.k = "compose"
                THEN Spell(D, in, c.c, ch, prev, st.pos, <<>>)
                ELSE Repeat(D, in, c, env, ch, prev, st.pos, <<>>)
       IN IF IF c.k = "compose" THEN ~r.ok ELSE Len(r.x) < c.lo
          THEN [ok |-> FALSE, end |-> 0, e |-> <<>>]
          ELSE ParseLine(D, in, line, i + 1, env, ch, r.prev,
                         [pos |-> r.pos, e |-> IF r.x = <<>> THEN st.e ELSE Append(st.e, [c |-> i, x |-> r.x])])

(* As many repetitions as there are, up to the maximum.  *)
Repeat(D, in, c, env, ch, prev, pos, x) ==
  LET stop == [ok |-> TRUE, x |-> x, pos |-> pos, prev |-> prev]
  IN IF pos > Len(in) \/ (c.hi >= 0 /\ Len(x) >= c.hi) THEN stop
     ELSE LET r == ParseEl(D, in, c, env, ch, prev, pos)
          IN IF r.ok THEN Repeat(D, in, c, env, ch, pos, r.end, Append(x, r.content)) ELSE stop

(* One byte, in front of which channel text is skipped.  *)
ParseByte(D, in, b, ch, prev, pos) ==
  LET prefix == Passes(D, in, ch, prev, pos, <<>>)
  IN IF prefix.end <= Len(in) /\ in[prefix.end] = b
     THEN [ok |-> TRUE, end |-> prefix.end + 1, content |-> [v |-> b, p |-> prefix.trees]]
     ELSE [ok |-> FALSE]

(* The exception of an everything counts as being parsed in front of every byte. *)
WithException(D, c, env) ==
  LET name == D.tokens[c.t].n
  IN IF name \in DOMAIN env THEN env
     ELSE [x \in (DOMAIN env) \cup {name} |-> IF x = name THEN [tok |-> c.t, pos |-> 0, line |-> 0] ELSE env[x]]

ParseEl(D, in, c, env, ch, prev, pos) ==
  LET AsContent(r) == IF r.ok THEN [ok |-> TRUE, end |-> r.end, content |-> [t |-> r.tree]] ELSE [ok |-> FALSE]
      Renamed(r) == IF r.ok THEN [r EXCEPT !.tree.n = c.n] ELSE r
  IN CASE c.k = "value" -> ParseByte(D, in, c.b, ch, prev, pos)
       [] c.k = "token" -> AsContent(ParseTok(D, in, c.t, env, ch, prev, pos))
       [] c.k = "rec"   -> IF c.n \in DOMAIN env THEN AsContent(ParseTok(D, in, env[c.n].tok, env, ch, prev, pos)) ELSE [ok |-> FALSE]
       [] c.k = "ext"   -> AsContent(Renamed(ParseTok(D, in, D.grammars[c.g].root, NoEnv, D.grammars[c.g].ch, prev, pos)))
       [] c.k = "every" -> LET r == EveryFrom(D, in, c, WithException(D, c, env), pos, <<>>)
                           IN IF r.x = <<>> THEN [ok |-> FALSE]
                              ELSE [ok |-> TRUE, end |-> r.end,
                                    content |-> [t |-> [n |-> D.tokens[c.t].n, l |-> 1, e |-> <<[c |-> 0, x |-> r.x]>>, s |-> <<>>]]]

(* The values a compose spells out, each its number of times.  *)
Spell(D, in, list, ch, prev, pos, x) ==
  IF list = <<>> THEN [ok |-> TRUE, x |-> x, pos |-> pos, prev |-> prev]
  ELSE LET r == ParseByte(D, in, Head(list).b, ch, prev, pos)
           rest == IF Head(list).o > 1 THEN <<[Head(list) EXCEPT !.o = @ - 1]>> \o Tail(list) ELSE Tail(list)
       IN IF r.ok THEN Spell(D, in, rest, ch, pos, r.end, Append(x, r.content))
          ELSE [ok |-> FALSE, x |-> <<>>, pos |-> pos, prev |-> prev]

(***************************************************************************)
(* Everything but the exception token, parsed without channels.  An escape *)
(* in front of an exception is dropped and makes the exception content.    *)
(* The exception is an enclosing token of both: they may recur to it.      *)
(***************************************************************************)
EveryFrom(D, in, c, env, pos, x) ==
  IF pos > Len(in) THEN [end |-> pos, x |-> x]
  ELSE LET esc == IF c.x = 0 THEN NoMatch ELSE ParseTok(D, in, c.x, env, <<>>, 0, pos)
           prot == IF esc.ok THEN ParseTok(D, in, c.t, env, <<>>, 0, esc.end) ELSE NoMatch
           exc == ParseTok(D, in, c.t, env, <<>>, 0, pos)
           Plain(from, to) == [i \in 1..(to - from) |-> [v |-> in[from + i - 1], p |-> <<>>]]
       IN IF prot.ok THEN EveryFrom(D, in, c, env, prot.end, x \o Plain(esc.end, prot.end))
          ELSE IF exc.ok THEN [end |-> pos, x |-> x]
          ELSE EveryFrom(D, in, c, env, pos + 1, x \o Plain(pos, pos + 1))

(***************************************************************************)
(* Channels: consumed again and again until none of them matches.          *)
(***************************************************************************)
ParseChannel(D, in, c, prev, pos) ==
  LET r == ParseTok(D, in, c.t, NoEnv, <<>>, prev, pos)
      before == c.p = 0 \/ (prev # 0 /\ ParseTok(D, in, c.p, NoEnv, <<>>, 0, prev).ok)
      after  == c.x = 0 \/ ParseTok(D, in, c.x, NoEnv, <<>>, 0, r.end).ok
  IN IF r.ok /\ before /\ after THEN r ELSE NoMatch

OnePass(D, in, ch, i, prev, pos, trees) ==
  IF i > Len(ch) THEN [end |-> pos, prev |-> prev, trees |-> trees]
  ELSE LET r == ParseChannel(D, in, ch[i], prev, pos)
       IN IF r.ok THEN OnePass(D, in, ch, i + 1, pos, r.end, Append(trees, r.tree))
          ELSE OnePass(D, in, ch, i + 1, prev, pos, trees)

Passes(D, in, ch, prev, pos, trees) ==
  IF ch = <<>> THEN [end |-> pos, trees |-> trees]
  ELSE LET r == OnePass(D, in, ch, 1, prev, pos, trees)
       IN IF r.end = pos THEN [end |-> pos, trees |-> trees]
          ELSE Passes(D, in, ch, r.prev, r.end, r.trees)

(* A whole grammar on a whole input.  *)
ParseGrammar(D, in, g) == ParseTok(D, in, D.grammars[g].root, NoEnv, D.grammars[g].ch, 0, 1)
(* One token on its own, as a suite does.  *)
ParseAlone(D, in, t, ch) == ParseTok(D, in, t, NoEnv, ch, 0, 1)

(***************************************************************************)
(* The bytes of a tree, with and without the channel text.                 *)
(***************************************************************************)
RECURSIVE TreeBytes(_,_), SeqBytes(_,_), ContentBytes(_,_), ElementBytes(_,_)
TreesBytes(trees, full) == SeqBytes([i \in 1..Len(trees) |-> TreeBytes(trees[i], full)], 1)
SeqBytes(parts, i) == IF i > Len(parts) THEN <<>> ELSE parts[i] \o SeqBytes(parts, i + 1)
ContentBytes(x, full) == IF "t" \in DOMAIN x THEN TreeBytes(x.t, full)
                         ELSE (IF full THEN TreesBytes(x.p, full) ELSE <<>>) \o <<x.v>>
ElementBytes(e, full) == SeqBytes([i \in 1..Len(e.x) |-> ContentBytes(e.x[i], full)], 1)
TreeBytes(t, full) == SeqBytes([i \in 1..Len(t.e) |-> ElementBytes(t.e[i], full)], 1)
                      \o (IF full THEN TreesBytes(t.s, full) ELSE <<>>)

(***************************************************************************)
(* What is left of a tree when the channel text is taken out.              *)
(***************************************************************************)
RECURSIVE Bare(_), BareElement(_)
BareContent(x) == IF "t" \in DOMAIN x THEN [t |-> Bare(x.t)] ELSE [x EXCEPT !.p = <<>>]
BareElement(e) == [e EXCEPT !.x = [i \in 1..Len(e.x) |-> BareContent(e.x[i])]]
Bare(t) == [t EXCEPT !.s = <<>>, !.e = [i \in 1..Len(t.e) |-> BareElement(t.e[i])]]
=============================================================================
