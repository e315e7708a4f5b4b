------------------------------ MODULE Builders ------------------------------
(* The builders every value of the domain is made with.                      *)
(*                                                                           *)
(* A kind of value has fields. A builder holds what each field was last given *)
(* since it was created; Now makes a value of exactly that, or refuses when a *)
(* field that has to be there is not, or when none of the alternatives is.    *)
(* A value that was made stays what it was, whatever its builder does next;   *)
(* creating a builder from another gives an empty one and leaves the other    *)
(* as it is.                                                                  *)
(*                                                                           *)
(* What a field is given is a sequence of numbers:                            *)
(*   one    the object of that number, <<>> is no object                      *)
(*   val    the value of that number                                         *)
(*   list   objects;  nums  numbers                                           *)
(*   text   characters, bytes  bytes (not given: <<>>), rest  bytes           *)
(*   num    a number, 0 as good as any other;  count  a number, 0 is nothing  *)
(*   flag   <<1>> when it was raised                                          *)
(* must: the field has to be there; may: it can be missing; alt: exactly one  *)
(* of these has to be there (more than one is left open: Now is not enabled). *)
EXTENDS Naturals, Sequences, FiniteSets

F(set, get, has, type, need) == [set |-> set, get |-> get, has |-> has, type |-> type, need |-> need]
Must(name, type) == F("With" \o name, name, "", type, "must")
May(name, type) == F("With" \o name, name, "Has" \o name, type, "may")
Alt(name, type) == F("With" \o name, name, "Is" \o name, type, "alt")
K(kind, fields, extra) == [kind |-> kind, fields |-> fields, extra |-> extra]
ListOf(kind, extra) == K(kind, <<Must("List", "list")>>, extra)

Table == <<
  \* libs/asts/domain/trees
  ListOf("trees.Trees", <<>>),
  K("trees.Tree", <<Must("Grammar", "one"), Must("Block", "one"), May("Suffix", "one"), May("Remaining", "rest")>>, <<>>),
  K("trees.Block", <<Must("Lines", "list")>>, <<"Successful">>),
  K("trees.Line", <<Must("Index", "num"), Must("Grammar", "one"), May("Elements", "one"), F("IsReverse", "IsReverse", "", "flag", "may")>>, <<>>),
  ListOf("trees.Elements", <<"Fetch">>),
  K("trees.Element", <<Must("Contents", "one"), May("Grammar", "one")>>, <<>>),
  ListOf("trees.Contents", <<>>),
  K("trees.Content", <<Alt("Value", "one"), Alt("Tree", "one")>>, <<>>),
  K("trees.Value", <<Must("Content", "num"), May("Prefix", "one")>>, <<>>),
  \* libs/asts/domain/grammars
  K("grammars.Grammar", <<Must("Root", "one"), May("Channels", "one")>>, <<>>),
  ListOf("grammars.Channels", <<>>),
  K("grammars.Channel", <<Must("Token", "one"), May("Condition", "one")>>, <<>>),
  K("grammars.ChannelCondition", <<May("Previous", "one"), May("Next", "one")>>, <<"any">>),
  K("grammars.External", <<Must("Name", "text"), Must("Grammar", "one")>>, <<>>),
  K("grammars.Instance", <<Alt("Token", "one"), Alt("Everything", "one")>>, <<"Name">>),
  K("grammars.Everything", <<Must("Name", "text"), Must("Exception", "one"), May("Escape", "one")>>, <<>>),
  ListOf("grammars.Tokens", <<>>),
  K("grammars.Token", <<Must("Name", "text"), Must("Block", "one"), May("Suites", "one")>>, <<>>),
  ListOf("grammars.Suites", <<>>),
  K("grammars.Suite", <<F("WithValid", "Valid", "IsValid", "one", "alt"), F("WithInvalid", "Invalid", "IsInvalid", "one", "alt")>>, <<>>),
  K("grammars.Block", <<Must("Lines", "list")>>, <<>>),
  K("grammars.Line", <<Must("Containers", "list")>>, <<>>),
  K("grammars.Container", <<Alt("Element", "one"), Alt("Compose", "one")>>, <<"Name">>),
  K("grammars.Element", <<Must("Cardinality", "one"), F("WithValue", "Content.Value", "Content.IsValue", "one", "alt"),
      F("WithExternal", "Content.External", "Content.IsExternal", "one", "alt"),
      F("WithInstance", "Content.Instance", "Content.IsInstance", "one", "alt"),
      F("WithRecursive", "Content.Recursive", "Content.IsRecursive", "text", "alt")>>, <<"Name">>),
  K("grammars.Compose", <<Must("Name", "text"), Must("List", "list")>>, <<>>),
  K("grammars.ComposeElement", <<Must("Value", "one"), Must("Occurences", "count")>>, <<>>),
  K("values.Value", <<Must("Name", "text"), Must("Number", "num")>>, <<>>),
  K("cardinalities.Cardinality", <<Must("Min", "num"), May("Max", "num")>>, <<>>),
  \* libs/asts/domain/grammars/coverages
  ListOf("coverages.Coverages", <<"Error">>),
  K("coverages.Coverage", <<Must("Token", "one"), Must("Executions", "one")>>, <<>>),
  ListOf("coverages.Executions", <<"Error">>),
  K("coverages.Execution", <<Must("Expectation", "one"), Must("Result", "one")>>, <<>>),
  K("coverages.Result", <<Alt("Tree", "one"), Alt("Error", "text")>>, <<>>),
  \* libs/cryptography/domain/hashtrees
  K("hashtrees.HashTree", <<Must("Head", "val"), Must("Parent", "one")>>, <<>>),
  K("hashtrees.ParentLeaf", <<Must("Left", "one"), Must("Right", "one")>>, <<>>),
  K("hashtrees.Leaf", <<Must("Head", "val"), May("Parent", "one")>>, <<>>),
  K("hashtrees.Leaves", <<F("WithList", "Leaves", "", "list", "must")>>, <<>>),
  K("hashtrees.Compact", <<Must("Head", "val"), Must("Leaves", "one")>>, <<>>),
  \* libs/databases/domain
  K("references.Reference", <<Must("ContentKeys", "one"), Must("Commits", "one")>>, <<>>),
  ListOf("references.Commits", <<"Fetch", "Latest">>),
  K("references.Commit", <<Must("Values", "one"), F("CreatedOn", "CreatedOn", "", "val", "must"), May("Parent", "val"),
      F("WithProof", "Mine.Proof", "HasMine", "one", "may")>>, <<>>),
  ListOf("references.ContentKeys", <<"Fetch">>),
  K("references.ContentKey", <<Must("Hash", "val"), Must("Kind", "num"), Must("Content", "one"), Must("Commit", "val")>>, <<>>),
  K("references.Pointer", <<F("From", "From", "", "num", "must"), Must("Length", "count")>>, <<>>),
  ListOf("contents.Contents", <<>>),
  K("contents.Content", <<Must("Hash", "val"), Must("Data", "rest"), Must("Kind", "num")>>, <<>>),
  \* libs/interpreters/domain/instructions
  K("instructions.Instructions", <<Must("List", "list"), May("Remaining", "rest")>>, <<>>),
  K("instructions.Instruction", <<Alt("Module", "one"), Alt("Application", "one"), Alt("Parameter", "one"), Alt("Assignment", "one"),
      Alt("Attachment", "one"), Alt("Execution", "bytes")>>, <<>>),
  K("instructions.Assignment", <<Must("Variable", "bytes"), Must("Value", "one")>>, <<>>),
  K("instructions.Value", <<Alt("Variable", "bytes"), Alt("Constant", "bytes"), Alt("Instructions", "one"), Alt("Execution", "bytes")>>, <<>>),
  K("instructions.Module", <<Must("Index", "num"), Must("Name", "bytes")>>, <<>>),
  K("instructions.Application", <<Must("Module", "bytes"), Must("Name", "bytes")>>, <<>>),
  K("instructions.Parameter", <<Must("Name", "bytes"), F("IsInput", "IsInput", "", "flag", "may")>>, <<>>),
  K("instructions.Attachment", <<Must("Variable", "one"), Must("Application", "bytes")>>, <<>>),
  K("instructions.Variable", <<Must("Current", "bytes"), Must("Target", "num")>>, <<>>),
  \* libs/interpreters/domain/programs
  K("programs.Program", <<Must("Instructions", "one"), May("Outputs", "nums")>>, <<>>),
  ListOf("programs.Instructions", <<>>),
  K("programs.Instruction", <<Alt("Value", "one"), Alt("Execution", "one")>>, <<>>),
  K("programs.Application", <<Must("Index", "num"), Must("Module", "one"), May("Attachments", "one")>>, <<>>),
  ListOf("programs.Attachments", <<>>),
  K("programs.Attachment", <<Must("Value", "one"), Must("Local", "num")>>, <<>>),
  K("programs.Value", <<Alt("Input", "num"), Alt("Constant", "bytes"), Alt("Execution", "one"), Alt("Program", "one")>>, <<>>),
  ListOf("programs.Modules", <<"Fetch">>),
  K("programs.Module", <<Must("Index", "num"), F("WithFunc", "Func", "", "one", "must")>>, <<>>),
  \* libs/queries/domain/queries
  K("queries.Query", <<Must("Token", "one"), Must("Inside", "one"), Must("Fn", "one")>>, <<>>),
  K("queries.QueryFn", <<Alt("Single", "one"), Alt("Multi", "one")>>, <<>>),
  K("queries.Token", <<Must("Name", "text"), Must("ReverseName", "text"), Must("Element", "one"), May("Content", "num")>>, <<>>),
  K("queries.Element", <<Must("Name", "text"), Must("Index", "num")>>, <<>>),
  K("queries.Inside", <<Alt("Fn", "one"), Alt("Fetchers", "one")>>, <<>>),
  ListOf("queries.Fetchers", <<>>),
  K("queries.Fetcher", <<Alt("Recursive", "text"), Alt("Query", "one")>>, <<>>),
  K("queries.ContentFn", <<Alt("Single", "one"), Alt("Multi", "one")>>, <<>>)
>>

KindOf(name) == LET i == CHOOSE i \in 1..Len(Table) : Table[i].kind = name IN Table[i]
NFields(k) == Len(k.fields)
Field(k, f) == k.fields[f]
FieldsOf(k, need) == {f \in 1..NFields(k) : Field(k, f).need = need}
Has(k, name) == \E i \in 1..Len(k.extra) : k.extra[i] = name

Blank(k) == [f \in 1..NFields(k) |-> <<>>]

\* what a field holds once it was given v
Given(k, f, v) == IF Field(k, f).type = "count" /\ v = <<0>> THEN <<>> ELSE v
With(k, b, f, v) == [b EXCEPT ![f] = Given(k, f, v)]

Present(b) == {f \in DOMAIN b : b[f] # <<>>}
\* left open: several alternatives at once, and a condition of nothing
Open(k, b) == \/ Cardinality(Present(b) \cap FieldsOf(k, "alt")) > 1
              \/ Has(k, "any") /\ Present(b) = {}
Complete(k, b) ==
  /\ FieldsOf(k, "must") \subseteq Present(b)
  /\ FieldsOf(k, "alt") # {} => Present(b) \cap FieldsOf(k, "alt") # {}

(* What can be asked of a value besides its fields.                           *)
(* Of the lines the objects but the first are successful; of the executions   *)
(* and coverages the objects but the first hold an error.                     *)
Successful(list) ==
  IF \E i \in 1..Len(list) : list[i] # 1
  THEN <<list[CHOOSE i \in 1..Len(list) : list[i] # 1 /\ \A j \in 1..(i - 1) : list[j] = 1]>>
  ELSE <<>>
Error(list) == IF \E i \in 1..Len(list) : list[i] # 1 THEN <<1>> ELSE <<>>
\* asked for each of the objects by its name: the object, or 0
Pool == 3
Fetch(list) == [o \in 1..Pool |-> IF \E i \in 1..Len(list) : list[i] = o THEN o ELSE 0]
Latest(list) == <<list[Len(list)]>>
\* the name of a value with alternatives is the name of the one it has: its place and what it was given
Name(k, b) == LET f == CHOOSE f \in FieldsOf(k, "alt") : b[f] # <<>> IN <<f>> \o b[f]

ListField(k) == CHOOSE f \in 1..NFields(k) : Field(k, f).type = "list"
Extra(k, b) ==
  [i \in 1..Len(k.extra) |->
     LET x == k.extra[i]
     IN IF x = "any" THEN <<>>
        ELSE IF x = "Name" THEN Name(k, b)
        ELSE LET list == b[ListField(k)]
             IN IF x = "Successful" THEN Successful(list)
                ELSE IF x = "Error" THEN Error(list)
                ELSE IF x = "Fetch" THEN Fetch(list)
                ELSE Latest(list)]

\* everything a value answers; has is 2 where there is nothing to ask
Read(k, b) ==
  [fields |-> b,
   has |-> [f \in 1..NFields(k) |-> IF Field(k, f).has = "" THEN 2 ELSE IF b[f] # <<>> THEN 1 ELSE 0],
   extra |-> Extra(k, b)]

Refused == [fields |-> <<>>, has |-> <<>>, extra |-> <<>>]

(* The machine: builders and the values built so far.                         *)
VARIABLES kind, builders, built

bvars == <<kind, builders, built>>

Start(k) == kind = k /\ builders = <<Blank(k)>> /\ built = <<>>

Set(i, f, v) == builders' = [builders EXCEPT ![i] = With(kind, builders[i], f, v)] /\ UNCHANGED <<kind, built>>

Create(i) == builders' = Append(builders, Blank(kind)) /\ UNCHANGED <<kind, built>>

NowOf(b) == IF Complete(kind, b) THEN Read(kind, b) ELSE Refused

Now(i) ==
  /\ ~Open(kind, builders[i])
  /\ built' = Append(built, NowOf(builders[i]))
  /\ UNCHANGED <<kind, builders>>
=============================================================================
