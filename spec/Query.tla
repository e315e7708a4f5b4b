------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* Selecting from parse trees (Q01).                                       *)
(*                                                                         *)
(* A query is [t, r, e, i, c, in, f, fn]:                                  *)
(*   t: the name of the token of the trees it applies to                   *)
(*   e, i: the name and index of the element it selects there; an element  *)
(*         without grammar (the content of everything-but) has the name r  *)
(*   c: the index of the content it keeps, -1 for all of them              *)
(*   in: what it does with the contents: a content function, or "fetch"    *)
(*   f: its fetchers, each <<query>> or <<>> with the name of a query      *)
(*   fn: its query function                                                *)
(* The functions are the caller's; those of the specification are told     *)
(* apart by what they answer:                                              *)
(*   content functions: "each" (all contents), "first" (single content),   *)
(*     "twice" (single content, two instances), "empty" (no instance),     *)
(*     "cfail" (fails), "sfail" (single content, fails)                    *)
(*   query functions: "all" (keeps the list), "one" (single instance),     *)
(*     "drop" (not valid), "qfail" (fails)                                 *)
(* Places in a tree are paths: element, content, element, content...       *)
(***************************************************************************)
EXTENDS Parser, TLC

\* the token a tree of this name was parsed with: the trees of embedded grammars have the name of the external
XName(D, g) == LET t == {D.tokens[k].l : k \in 1..Len(D.tokens)}
                   cs == UNION {UNION {{l[i][j] : j \in 1..Len(l[i])} : i \in 1..Len(l)} : l \in t}
               IN {c.n : c \in {x \in cs : x.k = "ext" /\ x.g = g}}
TokenOf(D, n) ==
  IF \E k \in 1..Len(D.tokens) : D.tokens[k].n = n THEN CHOOSE k \in 1..Len(D.tokens) : D.tokens[k].n = n
  ELSE D.grammars[CHOOSE g \in 1..Len(D.grammars) : n \in XName(D, g)].root

\* the name of an element of a tree
ValueName(D, b) == IF D.vn = 1 THEN "v" ELSE "v" \o ToString(b)
ElementName(D, tree, e, r) ==
  IF e.c = 0 THEN r
  ELSE LET c == D.tokens[TokenOf(D, tree.n)].l[tree.l][e.c]
       IN CASE c.k = "value" -> ValueName(D, c.b)
            [] c.k = "token" -> D.tokens[c.t].n
            [] OTHER -> c.n

-----------------------------------------------------------------------------
(* The contents a query selects in a tree, as paths. *)
Select(D, q, tree) ==
  LET hits == SelectSeq([i \in 1..Len(tree.e) |-> i], LAMBDA i : ElementName(D, tree, tree.e[i], q.r) = q.e)
      n == IF Len(hits) > q.i THEN Len(tree.e[hits[q.i + 1]].x) ELSE 0
  IN CASE tree.n # q.t -> [ok |-> FALSE, list |-> <<>>]
       [] tree.n = q.t /\ Len(hits) <= q.i -> [ok |-> TRUE, list |-> <<>>]
       [] tree.n = q.t /\ Len(hits) > q.i /\ q.c = -1 -> [ok |-> TRUE, list |-> [j \in 1..n |-> <<hits[q.i + 1], j>>]]
       [] tree.n = q.t /\ Len(hits) > q.i /\ q.c # -1 /\ q.c < n -> [ok |-> TRUE, list |-> <<<<hits[q.i + 1], q.c + 1>>>>]
       [] OTHER -> [ok |-> FALSE, list |-> <<>>]

Leaf(p) == [p |-> p, n |-> "", v |-> <<>>]
Node(n, v) == [p |-> <<>>, n |-> n, v |-> v]
\* a result: its state, what it lists, the queries begun so far by name, and the calls made to the caller's functions
Res(st, v, prev, log) == [st |-> st, v |-> v, prev |-> prev, log |-> log]

RECURSIVE Exec(_,_,_,_,_,_), FetchAll(_,_,_,_,_,_,_,_)

\* the instances of the contents
Inside(D, q, tree, path, list, prev, log) ==
  LET paths == [i \in 1..Len(list) |-> path \o list[i]]
      leaves == [i \in 1..Len(list) |-> Leaf(paths[i])]
      many == Append(log, [n |-> q.t, k |-> q.in, a |-> leaves])
      single == Append(log, [n |-> q.t, k |-> q.in, a |-> IF list = <<>> THEN <<>> ELSE <<leaves[1]>>])
  IN CASE q.in = "each"  -> Res("ok", leaves, prev, many)
       [] q.in = "empty" -> Res("ok", <<>>, prev, many)
       [] q.in = "cfail" -> Res("error", <<>>, prev, many)
       [] q.in = "first" -> IF list = <<>> THEN Res("error", <<>>, prev, log) ELSE Res("ok", <<leaves[1]>>, prev, single)
       [] q.in = "twice" -> IF list = <<>> THEN Res("error", <<>>, prev, log) ELSE Res("ok", <<leaves[1], leaves[1]>>, prev, single)
       [] q.in = "sfail" -> Res("error", <<>>, prev, log)
       [] q.in = "fetch" -> FetchAll(D, q, tree, path, list, 1, 1, Res("ok", <<>>, prev, log))

\* every fetcher on every content that is a tree
FetchAll(D, q, tree, path, list, i, k, acc) ==
  IF acc.st = "error" \/ i > Len(list) THEN acc
  ELSE IF k > Len(q.f) THEN FetchAll(D, q, tree, path, list, i + 1, 1, acc)
  ELSE LET x == tree.e[list[i][1]].x[list[i][2]]
           f == q.f[k]
           known == f.q # <<>> \/ f.n \in DOMAIN acc.prev
       IN IF "t" \notin DOMAIN x THEN FetchAll(D, q, tree, path, list, i, k + 1, acc)
          ELSE IF ~known THEN Res("error", <<>>, acc.prev, acc.log)
          ELSE LET query == IF f.q # <<>> THEN f.q[1] ELSE acc.prev[f.n]
                   r == Exec(D, query, x.t, path \o list[i], acc.prev, acc.log)
               IN FetchAll(D, q, tree, path, list, i, k + 1,
                           Res(IF r.st = "error" THEN "error" ELSE "ok", IF r.st = "ok" THEN acc.v \o r.v ELSE acc.v, r.prev, r.log))

Exec(D, q, tree, path, prev, log) ==
  LET sel == Select(D, q, tree)
      begun == [n \in (DOMAIN prev) \cup {q.t} |-> IF n = q.t THEN q ELSE prev[n]]
      in == Inside(D, q, tree, path, sel.list, begun, log)
      called == Append(in.log, [n |-> q.t, k |-> q.fn, a |-> IF q.fn = "one" THEN <<in.v[1]>> ELSE in.v])
  IN IF ~sel.ok THEN Res("error", <<>>, prev, log)
     ELSE IF in.st = "error" THEN in
     ELSE IF in.v = <<>> THEN Res("none", <<>>, in.prev, in.log)
     ELSE CASE q.fn = "all"   -> Res("ok", <<Node(q.t, in.v)>>, in.prev, called)
            [] q.fn = "one"   -> Res("ok", <<Node(q.t, <<in.v[1]>>)>>, in.prev, called)
            [] q.fn = "drop"  -> Res("none", <<>>, in.prev, called)
            [] q.fn = "qfail" -> Res("error", <<>>, in.prev, called)

\* what the caller sees
Answer(D, q, tree) ==
  LET r == Exec(D, q, tree, <<>>, <<>>, <<>>)
  IN IF r.st = "error" THEN [st |-> "error", v |-> <<>>, log |-> <<>>] ELSE [st |-> r.st, v |-> r.v, log |-> r.log]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Fetching by name: the tree itself when it has the name, otherwise the   *)
(* k-th (from 0) of its elements in which the name is found: the element   *)
(* itself, or the first of its trees in which it is found the same way.    *)
(***************************************************************************)
Nowhere == [ok |-> FALSE, p |-> <<>>]
RECURSIVE Fetch(_,_,_,_)
FetchElement(D, tree, i, n, k) ==
  IF tree.e[i].c # 0 /\ ElementName(D, tree, tree.e[i], "") = n THEN [ok |-> TRUE, p |-> <<i>>]
  ELSE LET in == [j \in 1..Len(tree.e[i].x) |-> IF "t" \in DOMAIN tree.e[i].x[j] THEN Fetch(D, tree.e[i].x[j].t, n, k) ELSE Nowhere]
           hits == SelectSeq([j \in 1..Len(in) |-> j], LAMBDA j : in[j].ok)
       IN IF hits = <<>> THEN Nowhere ELSE [ok |-> TRUE, p |-> <<i, hits[1]>> \o in[hits[1]].p]
Fetch(D, tree, n, k) ==
  IF tree.n = n THEN [ok |-> TRUE, p |-> <<>>]
  ELSE LET in == [i \in 1..Len(tree.e) |-> FetchElement(D, tree, i, n, k)]
           hits == SelectSeq([i \in 1..Len(in) |-> i], LAMBDA i : in[i].ok)
       IN IF Len(hits) > k THEN in[hits[k + 1]] ELSE Nowhere
=============================================================================
