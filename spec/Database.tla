------------------------------ MODULE Database ------------------------------
(* The database application: contexts, pending writes, commits.              *)
(* One or more application instances share one directory. Every operation,   *)
(* commits included, is atomic here; CommitProtocol.tla refines the commit    *)
(* into file operations, crashes and failures.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, HashTree

CONSTANTS
  Apps,        \* application instances
  Names,       \* database names
  Hashes,      \* content hashes (positive naturals)
  Datas,       \* content identities (positive naturals)
  DataLen,     \* [Datas -> positive naturals] length in bytes
  Kinds,       \* content kinds (naturals)
  Reserved     \* names no database can have: reserved extensions, directories (subset of Names)

VARIABLES
  dir,         \* [Names -> stored database or Absent]
  ctx,         \* [Apps -> sequence of contexts, indexed by handle]
  clock,       \* next version identity; also identifies commits
  act          \* the last operation with its result, for behaviours and traces

vars == <<dir, ctx, clock, act>>

Absent == [ver |-> 0, keys |-> <<>>, commits |-> <<>>]
Exists(n) == dir[n].ver # 0

(* A stored database:                                                        *)
(*   ver      identity of this version of the file                           *)
(*   keys     every write ever committed: hash, data, kind, start, commit     *)
(*   commits  the history: identity, parent (0 for none), hashes written      *)

DataSize(keys) ==
  IF keys = <<>> THEN 0
  ELSE keys[Len(keys)].from + keys[Len(keys)].len

RECURSIVE AppendKeys(_, _, _)
AppendKeys(keys, pending, c) ==
  IF pending = <<>> THEN keys
  ELSE LET w == pending[1]
           k == [h |-> w.h, d |-> w.d, k |-> w.k, c |-> c,
                 from |-> DataSize(keys), len |-> w.len]
       IN AppendKeys(Append(keys, k), Tail(pending), c)

LastCommit(db) == IF db.commits = <<>> THEN 0 ELSE db.commits[Len(db.commits)].id

Committed(db, pending, c) ==
  [ver     |-> c,
   keys    |-> AppendKeys(db.keys, pending, c),
   commits |-> Append(db.commits,
                 [id |-> c, parent |-> LastCommit(db),
                  values |-> [i \in 1..Len(pending) |-> pending[i].h]])]

(* Contexts. base is what the context serves: the version it read on open, or *)
(* the one it committed last.                                                *)
IsOpen(a, i) == i \in 1..Len(ctx[a]) /\ ctx[a][i].open
OpenOn(a, n) == \E i \in 1..Len(ctx[a]) : ctx[a][i].open /\ ctx[a][i].name = n

Ok  == "ok"
Err == "err"

-----------------------------------------------------------------------------
Init ==
  /\ dir = [n \in Names |-> Absent]
  /\ ctx = [a \in Apps |-> <<>>]
  /\ clock = 1
  /\ act = [op |-> "init", app |-> "", name |-> "", i |-> 0, h |-> 0, d |-> 0, k |-> 0, res |-> Ok]

Note(op, a, n, i, h, d, k, res) ==
  act' = [op |-> op, app |-> a, name |-> n, i |-> i, h |-> h, d |-> d, k |-> k, res |-> res]

New(a, n) ==
  IF n \in Reserved \/ Exists(n)
  THEN /\ Note("new", a, n, 0, 0, 0, 0, Err)
       /\ UNCHANGED <<dir, ctx, clock>>
  ELSE /\ dir' = [dir EXCEPT ![n] = [Absent EXCEPT !.ver = clock]]
       /\ clock' = clock + 1
       /\ Note("new", a, n, 0, 0, 0, 0, Ok)
       /\ UNCHANGED ctx

Delete(a, n) ==
  IF Exists(n)
  THEN /\ dir' = [dir EXCEPT ![n] = Absent]
       /\ Note("delete", a, n, 0, 0, 0, 0, Ok)
       /\ UNCHANGED <<ctx, clock>>
  ELSE /\ Note("delete", a, n, 0, 0, 0, 0, Err)
       /\ UNCHANGED <<dir, ctx, clock>>

Open(a, n) ==
  IF Exists(n) /\ ~OpenOn(a, n)
  THEN /\ ctx' = [ctx EXCEPT ![a] = Append(@, [open |-> TRUE, name |-> n, base |-> dir[n], pending |-> <<>>])]
       /\ Note("open", a, n, Len(ctx[a]) + 1, 0, 0, 0, Ok)
       /\ UNCHANGED <<dir, clock>>
  ELSE /\ Note("open", a, n, 0, 0, 0, 0, Err)
       /\ UNCHANGED <<dir, ctx, clock>>

(* d = 0 stands for empty content, which is refused. *)
Write(a, i, h, d, k) ==
  IF IsOpen(a, i) /\ d # 0
  THEN /\ ctx' = [ctx EXCEPT ![a][i].pending = Append(@, [h |-> h, d |-> d, k |-> k, len |-> DataLen[d]])]
       /\ Note("write", a, ctx[a][i].name, i, h, d, k, Ok)
       /\ UNCHANGED <<dir, clock>>
  ELSE /\ Note("write", a, "", i, h, d, k, Err)
       /\ UNCHANGED <<dir, ctx, clock>>

Cancel(a, i) ==
  IF IsOpen(a, i)
  THEN /\ ctx' = [ctx EXCEPT ![a][i].pending = <<>>]
       /\ Note("cancel", a, ctx[a][i].name, i, 0, 0, 0, Ok)
       /\ UNCHANGED <<dir, clock>>
  ELSE /\ Note("cancel", a, "", i, 0, 0, 0, Err)
       /\ UNCHANGED <<dir, ctx, clock>>

(* A commit is refused when there is nothing to commit, and when the database  *)
(* is no longer the version the context is based on.                          *)
CanCommit(a, i) ==
  /\ IsOpen(a, i)
  /\ ctx[a][i].pending # <<>>
  /\ ctx[a][i].base.ver = dir[ctx[a][i].name].ver

Commit(a, i) ==
  IF CanCommit(a, i)
  THEN LET c  == ctx[a][i]
           db == Committed(c.base, c.pending, clock)
       IN /\ dir' = [dir EXCEPT ![c.name] = db]
          /\ ctx' = [ctx EXCEPT ![a][i].base = db, ![a][i].pending = <<>>]
          /\ clock' = clock + 1
          /\ Note("commit", a, c.name, i, 0, 0, 0, Ok)
  ELSE /\ Note("commit", a, IF IsOpen(a, i) THEN ctx[a][i].name ELSE "", i, 0, 0, 0, Err)
       /\ UNCHANGED <<dir, ctx, clock>>

Close(a, i) ==
  IF IsOpen(a, i)
  THEN /\ ctx' = [ctx EXCEPT ![a][i] = [open |-> FALSE, name |-> @.name, base |-> Absent, pending |-> <<>>]]
       /\ Note("close", a, ctx[a][i].name, i, 0, 0, 0, Ok)
       /\ UNCHANGED <<dir, clock>>
  ELSE /\ Note("close", a, "", i, 0, 0, 0, Err)
       /\ UNCHANGED <<dir, ctx, clock>>

Next ==
  \E a \in Apps :
    \/ \E n \in Names : New(a, n) \/ Delete(a, n) \/ Open(a, n)
    \/ \E i \in 1..(Len(ctx[a]) + 1) :
         \/ Cancel(a, i) \/ Commit(a, i) \/ Close(a, i)
         \/ \E h \in Hashes, d \in Datas \cup {0}, k \in Kinds : Write(a, i, h, d, k)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Observations: what the application shows of a stored version.              *)

KeysOfKind(db, k) == SelectSeq(db.keys, LAMBDA e : e.k = k)

ReadByHash(db, h) ==
  LET s == {i \in 1..Len(db.keys) : db.keys[i].h = h}
  IN IF s = {} THEN 0 ELSE db.keys[CHOOSE i \in s : \A j \in s : j <= i].d

CommitView(c) == [id |-> c.id, parent |-> c.parent, leaves |-> Pad(c.values)]

View(db) ==
  [kinds   |-> [k \in Kinds |-> KeysOfKind(db, k)],
   reads   |-> [h \in Hashes |-> ReadByHash(db, h)],
   commits |-> [i \in 1..Len(db.commits) |-> CommitView(db.commits[i])]]

-----------------------------------------------------------------------------
(* The properties, on the specification.                                      *)

Versions == {dir[n] : n \in Names} \cup
            UNION {{ctx[a][i].base : i \in 1..Len(ctx[a])} : a \in Apps}

TypeOK ==
  /\ clock \in Nat
  /\ \A n \in Names : dir[n].ver < clock
  /\ \A a \in Apps : \A i \in 1..Len(ctx[a]) : ctx[a][i].name \in Names

\* C03: chain of parents; every key belongs to a commit of the history, every commit
\*      accounts for exactly its keys in order.
ChainOK ==
  \A db \in Versions :
    /\ \A i \in 1..Len(db.commits) :
         db.commits[i].parent = (IF i = 1 THEN 0 ELSE db.commits[i-1].id)
    /\ \A i, j \in 1..Len(db.commits) : i # j => db.commits[i].id # db.commits[j].id
    /\ \A i \in 1..Len(db.commits) :
         LET mine == SelectSeq(db.keys, LAMBDA e : e.c = db.commits[i].id)
         IN db.commits[i].values = [x \in 1..Len(mine) |-> mine[x].h] /\ mine # <<>>
    /\ \A i \in 1..Len(db.keys) : \E j \in 1..Len(db.commits) : db.keys[i].c = db.commits[j].id

\* C09: the pointers tile the data area.
TilesOK ==
  \A db \in Versions :
    \A i \in 1..Len(db.keys) :
      /\ db.keys[i].from = (IF i = 1 THEN 0 ELSE db.keys[i-1].from + db.keys[i-1].len)
      /\ db.keys[i].len = DataLen[db.keys[i].d]

\* C06: one context per application and database.
OneContextPerName ==
  \A a \in Apps : \A i, j \in 1..Len(ctx[a]) :
    (i # j /\ ctx[a][i].open /\ ctx[a][j].open) => ctx[a][i].name # ctx[a][j].name

\* C08: a context based on the stored version agrees with it.
SameVersionSameContent ==
  \A a \in Apps : \A i \in 1..Len(ctx[a]) :
    (ctx[a][i].open /\ ctx[a][i].base.ver = dir[ctx[a][i].name].ver)
      => ctx[a][i].base = dir[ctx[a][i].name]

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

\* C03, C08: the history of a database only grows, until it is deleted.
AppendOnly ==
  [][\A n \in Names :
       (dir[n].ver # 0 /\ act'.op # "delete") =>
         /\ IsPrefix(dir[n].keys, dir'[n].keys)
         /\ IsPrefix(dir[n].commits, dir'[n].commits)
         /\ Len(dir'[n].commits) - Len(dir[n].commits) \in {0, 1}]_vars

\* C02: only a successful commit shows anything new; it shows exactly the pending writes.
PendingInvisible ==
  [][\A n \in Names :
       dir'[n] # dir[n] =>
         \/ act'.op \in {"new", "delete"} /\ act'.res = Ok /\ act'.name = n
         \/ /\ act'.op = "commit" /\ act'.res = Ok /\ act'.name = n
            /\ LET p == ctx[act'.app][act'.i].pending
                   new == SubSeq(dir'[n].keys, Len(dir[n].keys) + 1, Len(dir'[n].keys))
               IN /\ p # <<>> /\ Len(new) = Len(p)
                  /\ \A x \in 1..Len(p) : new[x].h = p[x].h /\ new[x].d = p[x].d /\ new[x].k = p[x].k
                  /\ ctx'[act'.app][act'.i].pending = <<>>]_vars

\* C06: an operation touches at most the context it names.
Independent ==
  [][\A a \in Apps : \A i \in 1..Len(ctx[a]) :
       ~(a = act'.app /\ i = act'.i) => ctx'[a][i] = ctx[a][i]]_vars

\* C07: an operation touches at most the database it names, and errors change nothing.
NoInterference ==
  [][/\ \A n \in Names : n # act'.name => dir'[n] = dir[n]
     /\ act'.res = Err => UNCHANGED <<dir, ctx>>]_vars
=============================================================================
