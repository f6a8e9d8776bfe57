------------------------------- MODULE Terms -------------------------------
(* C17.  The algebra of supported values: atoms that exist once (types,     *)
(* singletons, functions, modules, descriptors ...), atoms that are values,  *)
(* and constructors.  A value is the last node of a sequence of nodes, each  *)
(* built from earlier ones (so parts may be shared).  Copying a value gives  *)
(* the value of the same term: unique atoms as the identical object, the     *)
(* rest rebuilt, with the same sharing of everything that can be changed.    *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Unique, Types, Funcs, Classes, Hashable, Plain, Cons, MaxNodes, Protos, Options, Random, Nested
VARIABLES nodes, done, how
vars == <<nodes, done, how>>
Node(c, a) == [c |-> c, a |-> a]
Atoms == Unique \cup Types \cup Funcs \cup Hashable \cup Plain
\* --- sorts ---------------------------------------------------------------------
RECURSIVE IsHash(_)
HashCons == {"tuple", "fset", "nt", "glist", "gdict", "List", "Dict", "Union", "Optional", "Call", "Tuple", "union", "TypeOf", "ClassVar", "Annot", "gtuple", "CallE"}
IsHash(i) == LET n == nodes[i] IN n.c \in Unique \cup Types \cup Funcs \cup Hashable \/ (n.c \in HashCons /\ \A j \in DOMAIN n.a : IsHash(n.a[j]))
TypeCons == {"glist", "gdict", "List", "Dict", "Union", "Optional", "Call", "Tuple", "union", "TypeOf", "gtuple", "CallE"}
IsType(i) == nodes[i].c \in Types \/ nodes[i].c \in TypeCons
IsFunc(i) == nodes[i].c \in Funcs
IsDict(i) == nodes[i].c = "dict"
IsODict(i) == nodes[i].c = "odict"
IsList(i) == nodes[i].c = "list"
IsInst(i) == nodes[i].c = "inst"
IsClass(i) == nodes[i].c \in Types /\ nodes[i].c \in Classes
Of(s, i) == CASE s = "any" -> TRUE [] s = "hash" -> IsHash(i) [] s = "type" -> IsType(i) [] s = "class" -> nodes[i].c \in Types [] s = "func" -> IsFunc(i) [] s = "dict" -> IsDict(i) [] s = "odict" -> IsODict(i) [] s = "list" -> IsList(i) [] s = "inst" -> IsInst(i)
Sig(c) == CASE c \in {"list", "tuple", "deque"} -> {<<>>, <<"any">>, <<"any", "any">>, <<"any", "any", "any">>, <<"any", "any", "any", "any">>}
  [] c \in {"set", "fset"} -> {<<>>, <<"hash">>, <<"hash", "hash">>}
  [] c \in {"dict", "odict"} -> {<<>>, <<"hash", "any">>, <<"hash", "any", "hash", "any">>}
  [] c = "ddict" -> {<<"func", "hash", "any">>}
  [] c = "slice" -> {<<"any", "any", "any">>}
  [] c = "pmeth" -> {<<"func", "any">>}
  [] c \in {"partial", "partialkw"} -> {<<"func">>, <<"func", "any">>, <<"func", "any", "any">>, <<"func", "any", "any", "any", "any">>}
  [] c \in {"mproxy", "keys", "values", "items", "chainmap"} -> {<<"dict">>}
  [] c \in {"okeys", "ovalues", "oitems"} -> {<<"odict">>}
  [] c = "igetter" -> {<<"any">>, <<"any", "any">>}
  [] c \in {"inst", "slotinst", "simplens", "exc", "cell", "agetter", "mcaller", "dci"} -> {<<"any">>}
  [] c = "nt" -> {<<"any", "any">>}
  [] c \in {"prop", "static", "classm", "cprop"} -> {<<"func">>}
  [] c \in {"meth", "cmeth", "super", "super2"} -> {<<"inst">>}
  [] c \in {"bmeth", "mwrap"} -> {<<"list">>}
  [] c \in {"glist", "List", "Optional", "TypeOf", "ClassVar", "CallE"} -> {<<"type">>}
  [] c \in {"gdict", "Dict", "Union", "Call"} -> {<<"type", "type">>}
  [] c = "union" -> {<<"class", "class">>}
  [] c = "Tuple" -> {<<>>, <<"type">>, <<"type", "type">>}
  [] c = "gtuple" -> {<<>>, <<"type">>, <<"type", "type">>}
  [] c = "Annot" -> {<<"type", "hash">>}
Ok(c, s, a) == \A j \in DOMAIN s : Of(s[j], a[j])
\* --- building ------------------------------------------------------------------
Pick(X) == IF Random THEN {RandomElement(IF Len(nodes) >= 0 THEN X ELSE {})} ELSE X
Init == nodes = <<>> /\ done = FALSE /\ how = <<>>
AddAtom == \E c \in Pick(Atoms) : nodes' = Append(nodes, Node(c, <<>>)) /\ UNCHANGED <<done, how>>
Fits(s) == {i \in DOMAIN nodes : Of(s, i)}
Sigs(c) == {s \in Sig(c) : \A j \in DOMAIN s : Fits(s[j]) # {}}
RECURSIVE Args(_)
Args(s) == IF s = <<>> THEN {<<>>} ELSE {<<i>> \o r : i \in Pick(Fits(s[1])), r \in Args(Tail(s))}
AddCons == \E c \in Pick({x \in Cons : Sigs(x) # {}}) : \E s \in Pick(Sigs(c)) : \E a \in Args(s) :
   nodes' = Append(nodes, Node(c, a)) /\ UNCHANGED <<done, how>>
Used(i) == \E j \in DOMAIN nodes : \E k \in DOMAIN nodes[j].a : nodes[j].a[k] = i
\* protocols below 2 know neither instances with slots nor the fields of data classes
Old == {"slotinst"}
Finish == ~done /\ nodes # <<>> /\ \E p \in Pick(Protos), o \in Pick(Options) : done' = TRUE /\ how' = <<p, o>> /\ UNCHANGED nodes
   /\ (p < 2 => \A i \in DOMAIN nodes : nodes[i].c \notin Old)
   /\ (Nested \/ Len(nodes) = 1 \/ \A i \in 1..(Len(nodes) - 1) : Used(i))
Next == ~done /\ IF Len(nodes) < MaxNodes THEN (IF Random THEN \E k \in Pick(1..3) : IF k = 1 \/ Len(nodes) < 2 THEN AddAtom ELSE AddCons ELSE AddAtom \/ AddCons \/ Finish) ELSE Finish
Spec == Init /\ [][Next]_vars
\* every node is well sorted over earlier ones (so terms are well founded)
WellFormed == \A i \in DOMAIN nodes : nodes[i].c \in Cons => (\A j \in DOMAIN nodes[i].a : nodes[i].a[j] < i) /\ \E s \in Sig(nodes[i].c) : Len(s) = Len(nodes[i].a) /\ Ok(nodes[i].c, s, nodes[i].a)
Emit == done => EmitRec([nodes |-> [i \in DOMAIN nodes |-> <<nodes[i].c, nodes[i].a>>], proto |-> how[1], opt |-> how[2]])
=============================================================================
