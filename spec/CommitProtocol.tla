---------------------------- MODULE CommitProtocol ----------------------------
(* A commit at the level of files: what Database takes as one atomic step is     *)
(* here the sequence of file operations that the code goes through, of several    *)
(* processes in any interleaving, with crashes (a process stops and its locks      *)
(* and descriptors are gone) and failures (an operation has no or half of its      *)
(* effect and the commit is given up) at any of them.                            *)
(*                                                                              *)
(* A file (inode) holds a reference and data units. A version is the sequence      *)
(* of the commits it consists of; each of them added one data unit, named like     *)
(* it. An empty file is a database without any commit.                           *)
(*                                                                              *)
(* Variant names a protocol: "ok" is the one of the code; the others each have    *)
(* one thing wrong, and TLC must find that they break what is claimed here         *)
(* (that the claims can fail).                                                  *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Procs, MaxCommits, MaxCrashes, MaxFaults, MaxDeletes, Variant

VARIABLES files,   \* inode -> content
          path,    \* name ("src", "dst", "bck") -> inode, 0: there is none
          lock,    \* inode -> the process that holds it, or "none"
          proc,    \* process -> what it is doing
          done,    \* the commits that reported success, in order
          spent    \* crashes, failures, commits, deletes so far

vars == <<files, path, lock, proc, done, spent>>

NoRef == <<0>>
Empty == [ref |-> NoRef, data |-> <<>>, torn |-> FALSE]
Version(c) == IF c.ref = NoRef THEN <<>> ELSE c.ref
Whole(c) == ~c.torn /\ (IF c.ref = NoRef THEN c.data = <<>> ELSE c.data = c.ref)

\* at: the next file operation; conn: the inode its context reads; base: the version it read; new: the inode opened for
\* after the commit; fd: what it locked; id: the commit it is making
Out == [at |-> "out", conn |-> 0, base |-> <<>>, new |-> 0, fd |-> 0, dst |-> 0, id |-> 0]

Init ==
  /\ files = <<Empty>>
  /\ path = [src |-> 1, dst |-> 0, bck |-> 0]
  /\ lock = <<"none">>
  /\ proc = [p \in Procs |-> Out]
  /\ done = <<>>
  /\ spent = [crash |-> 0, fault |-> 0, commit |-> 0, delete |-> 0]

-----------------------------------------------------------------------------
Fresh == Len(files) + 1
Go(p, at) == proc' = [proc EXCEPT ![p].at = at]
Is(p, at) == proc[p].at = at
Keep == UNCHANGED <<files, path, lock, done, spent>>

\* an error: the lock is given back, the context stays what it is
GiveUp(p) ==
  /\ proc' = [proc EXCEPT ![p] = [Out EXCEPT !.at = "idle", !.conn = proc[p].conn, !.base = proc[p].base]]
  /\ lock' = [i \in 1..Len(lock) |-> IF lock[i] = p THEN "none" ELSE lock[i]]

(* Opening: the file, then its reference.                                  *)
OpenFile(p) ==
  /\ Is(p, "out") /\ path.src # 0
  /\ proc' = [proc EXCEPT ![p] = [Out EXCEPT !.at = "read", !.conn = path.src]]
  /\ Keep
ReadReference(p) ==
  /\ Is(p, "read")
  /\ proc' = [proc EXCEPT ![p].at = "idle", ![p].base = Version(files[proc[p].conn])]
  /\ Keep

Begin(p) ==
  /\ Is(p, "idle") /\ spent.commit < MaxCommits
  /\ spent' = [spent EXCEPT !.commit = @ + 1]
  /\ proc' = [proc EXCEPT ![p].at = IF Variant = "locklate" THEN "create" ELSE "stat1", ![p].id = spent.commit + 1]
  /\ UNCHANGED <<files, path, lock, done>>

\* is the database still the file of the context?
Stat1(p) ==
  /\ Is(p, "stat1")
  /\ IF path.src = proc[p].conn THEN Go(p, IF Variant = "nolock" THEN "create" ELSE "lockopen") /\ Keep
     ELSE GiveUp(p) /\ UNCHANGED <<files, path, done, spent>>
\* opening it for the lock creates it when it is missing
LockOpen(p) ==
  /\ Is(p, "lockopen")
  /\ IF path.src # 0
     THEN /\ proc' = [proc EXCEPT ![p].at = "flock", ![p].fd = path.src]
          /\ Keep
     ELSE /\ files' = Append(files, Empty)
          /\ lock' = Append(lock, "none")
          /\ path' = [path EXCEPT !.src = Fresh]
          /\ proc' = [proc EXCEPT ![p].at = "flock", ![p].fd = Fresh]
          /\ UNCHANGED <<done, spent>>
AfterLock == CASE Variant = "nostat2" -> "create" [] Variant = "locklate" -> "opendst" [] OTHER -> "stat2"
Flock(p) ==
  /\ Is(p, "flock")
  /\ IF lock[proc[p].fd] = "none"
     THEN /\ lock' = [lock EXCEPT ![proc[p].fd] = p]
          /\ Go(p, AfterLock)
          /\ UNCHANGED <<files, path, done, spent>>
     ELSE GiveUp(p) /\ UNCHANGED <<files, path, done, spent>>
Stat2(p) ==
  /\ Is(p, "stat2")
  /\ IF path.src = proc[p].conn THEN Go(p, "create") /\ Keep
     ELSE GiveUp(p) /\ UNCHANGED <<files, path, done, spent>>

\* creating a file empties it when it is there
Target == IF Variant = "inplace" THEN "src" ELSE "dst"
Created(p, name, at) ==
  IF path[name] # 0
  THEN /\ files' = [files EXCEPT ![path[name]] = Empty]
       /\ proc' = [proc EXCEPT ![p].at = at, ![p].dst = IF name = "bck" THEN @ ELSE path[name]]
       /\ UNCHANGED <<path, lock>>
  ELSE /\ files' = Append(files, Empty)
       /\ lock' = Append(lock, "none")
       /\ path' = [path EXCEPT ![name] = Fresh]
       /\ proc' = [proc EXCEPT ![p].at = at, ![p].dst = IF name = "bck" THEN @ ELSE Fresh]
Create(p) == Is(p, "create") /\ Created(p, Target, "ref") /\ UNCHANGED <<done, spent>>
WriteRef(p) ==
  /\ Is(p, "ref")
  /\ files' = [files EXCEPT ![proc[p].dst].ref = Append(proc[p].base, proc[p].id)]
  /\ Go(p, IF Variant = "renamefirst" THEN "rename" ELSE "copy")
  /\ UNCHANGED <<path, lock, done, spent>>
\* the old data, unit by unit, from the file of the context
Copy(p) ==
  /\ Is(p, "copy")
  /\ LET from == files[proc[p].conn].data
         k == Len(files[proc[p].dst].data) + 1
     IN IF k <= Len(from)
        THEN files' = [files EXCEPT ![proc[p].dst].data = Append(@, from[k])] /\ UNCHANGED proc
        ELSE Go(p, "data") /\ UNCHANGED files
  /\ UNCHANGED <<path, lock, done, spent>>
WriteData(p) ==
  /\ Is(p, "data")
  /\ files' = [files EXCEPT ![proc[p].dst].data = Append(@, proc[p].id)]
  /\ Go(p, CASE Variant = "renamefirst" -> "unlink" [] Variant = "locklate" -> "lockopen" [] Variant = "inplace" -> "unlink" [] OTHER -> "backup")
  /\ UNCHANGED <<path, lock, done, spent>>
\* the copy of the old file: nothing ever reads it
Backup(p) == Is(p, "backup") /\ Created(p, "bck", "copybck") /\ UNCHANGED <<done, spent>>
CopyBackup(p) ==
  /\ Is(p, "copybck")
  /\ IF path.bck = 0 THEN UNCHANGED files ELSE files' = [files EXCEPT ![path.bck] = files[proc[p].conn]]
  /\ Go(p, "opendst")
  /\ UNCHANGED <<path, lock, done, spent>>
OpenDst(p) ==
  /\ Is(p, "opendst")
  /\ IF path.dst = 0 THEN GiveUp(p) /\ UNCHANGED <<files, path, done, spent>>
     ELSE /\ proc' = [proc EXCEPT ![p].at = IF Variant = "removefirst" THEN "remove" ELSE IF Variant = "unlockearly" THEN "early" ELSE "rename", ![p].new = path.dst]
          /\ Keep
Remove(p) ==
  /\ Is(p, "remove")
  /\ path' = [path EXCEPT !.src = 0]
  /\ Go(p, "rename")
  /\ UNCHANGED <<files, lock, done, spent>>
Early(p) ==
  /\ Is(p, "early")
  /\ lock' = [i \in 1..Len(lock) |-> IF lock[i] = p THEN "none" ELSE lock[i]]
  /\ Go(p, "rename")
  /\ UNCHANGED <<files, path, done, spent>>
\* this is where the commit takes effect
Rename(p) ==
  /\ Is(p, "rename")
  /\ IF path.dst = 0 THEN GiveUp(p) /\ UNCHANGED <<files, path, done, spent>>
     ELSE /\ path' = [path EXCEPT !.src = path.dst, !.dst = 0]
          /\ proc' = [proc EXCEPT ![p].at = IF Variant = "renamefirst" THEN "copy" ELSE "unlink", ![p].new = path.dst]
          /\ UNCHANGED <<files, lock, done, spent>>
Unlink(p) ==
  /\ Is(p, "unlink")
  /\ path' = [path EXCEPT !.bck = 0]
  /\ Go(p, "unlock")
  /\ UNCHANGED <<files, lock, done, spent>>
Unlock(p) ==
  /\ Is(p, "unlock")
  /\ lock' = [i \in 1..Len(lock) |-> IF lock[i] = p THEN "none" ELSE lock[i]]
  /\ proc' = [proc EXCEPT ![p] = [Out EXCEPT !.at = "idle", !.conn = IF Variant = "keepconn" \/ proc[p].new = 0 THEN proc[p].conn ELSE proc[p].new,
                                             !.base = Append(proc[p].base, proc[p].id)]]
  /\ done' = Append(done, proc[p].id)
  /\ UNCHANGED <<files, path, spent>>

Committing(p) == proc[p].at \notin {"out", "read", "idle"}
Effective(p) == proc[p].at \in {"unlink", "unlock"}

\* the process stops; it comes back as a new one
Crash(p) ==
  /\ spent.crash < MaxCrashes /\ ~Is(p, "out")
  /\ spent' = [spent EXCEPT !.crash = @ + 1]
  /\ proc' = [proc EXCEPT ![p] = Out]
  /\ lock' = [i \in 1..Len(lock) |-> IF lock[i] = p THEN "none" ELSE lock[i]]
  /\ IF proc[p].at \in {"ref", "data", "copy"}   \* in the middle of a write
     THEN files' \in {files, [files EXCEPT ![proc[p].dst].torn = TRUE]} ELSE UNCHANGED files
  /\ UNCHANGED <<path, done>>
\* an operation fails: before the commit took effect it is given up, afterwards what is left to do does not matter
Fault(p) ==
  /\ spent.fault < MaxFaults /\ Committing(p) /\ Variant # "renamefirst"
  /\ spent' = [spent EXCEPT !.fault = @ + 1]
  /\ IF Effective(p) THEN Go(p, "unlock") /\ UNCHANGED <<files, lock>>
     ELSE /\ GiveUp(p)
          /\ IF proc[p].at \in {"ref", "data", "copy"}
             THEN files' \in {files, [files EXCEPT ![proc[p].dst].torn = TRUE]} ELSE UNCHANGED files
  /\ UNCHANGED <<path, done>>

Delete ==
  /\ spent.delete < MaxDeletes /\ path.src # 0
  /\ spent' = [spent EXCEPT !.delete = @ + 1]
  /\ path' = [path EXCEPT !.src = 0]
  /\ UNCHANGED <<files, lock, proc, done>>

Step(p) ==
  \/ OpenFile(p) \/ ReadReference(p) \/ Begin(p) \/ Stat1(p) \/ LockOpen(p) \/ Flock(p) \/ Stat2(p) \/ Create(p)
  \/ WriteRef(p) \/ Copy(p) \/ WriteData(p) \/ Backup(p) \/ CopyBackup(p) \/ OpenDst(p) \/ Remove(p) \/ Early(p)
  \/ Rename(p) \/ Unlink(p) \/ Unlock(p)
Next == Delete \/ \E p \in Procs : Step(p) \/ Crash(p) \/ Fault(p)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in Procs : WF_vars(Step(p))

-----------------------------------------------------------------------------
Stored == IF path.src = 0 THEN <<0>> ELSE Version(files[path.src])
Range(s) == {s[j] : j \in 1..Len(s)}

(* The database is there and whole at every moment (C04, C05).              *)
StoredWhole == MaxDeletes = 0 => path.src # 0 /\ Whole(files[path.src])
(* What reported success stays (C08).                                       *)
NothingLost == MaxDeletes = 0 => Range(done) \subseteq Range(Stored)
(* The file of a context never changes: it goes on showing its version.      *)
ContextsKept ==
  \A p \in Procs : proc[p].at \notin {"out", "read"} /\ ~(Effective(p) /\ Variant = "renamefirst") =>
     /\ Whole(files[proc[p].conn])
     /\ Version(files[proc[p].conn]) = proc[p].base
(* A lock is held by a process that is committing.                          *)
NoStaleLock == \A i \in 1..Len(lock) : lock[i] # "none" => Committing(lock[i])
(* A deleted database is gone: only with deletes (see DESIGN.md)             *)
DeletedStaysGone == spent.delete > 0 => path.src = 0

(* Refinement: the stored version changes only by appending the commit of a   *)
(* process whose base it is: Commit of Database.                            *)
Atomic ==
  [][ Stored' # Stored =>
        \E p \in Procs : Committing(p) /\ proc[p].base = Stored /\ Stored' = Append(Stored, proc[p].id) ]_vars
(* A success was effective when it was reported, an error had no effect.       *)
Honest ==
  [][ \A p \in Procs :
        /\ Is(p, "unlock") /\ proc'[p].at = "idle" => proc[p].id \in Range(Stored)
        /\ Committing(p) /\ ~Is(p, "unlock") /\ proc'[p].at = "idle" => proc[p].id \notin Range(Stored') ]_vars
(* No process waits for ever.                                               *)
Ends == \A p \in Procs : Committing(p) ~> ~Committing(p)
=============================================================================
