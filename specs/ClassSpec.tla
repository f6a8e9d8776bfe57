----------------------------- MODULE ClassSpec -----------------------------
(* C05.  One class, as the set of everything observable of it: it has a     *)
(* family (bases and metaclass), then members are added one by one; then it *)
(* is pickled by value under some options, alone or with an instance, and   *)
(* loaded in the same or a fresh process.  The specification says which own *)
(* attributes, bases, layout and behaviours the class has; the copy must    *)
(* have exactly those.                                                      *)
EXTENDS VT, Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxM, Families, Opts

Members == {"attr", "method", "super", "super2", "prop", "setprop", "static", "clsm", "cached", "descr", "nested", "lam", "private", "init", "eqhash",
            "call", "getattr", "slots", "slotsdict", "slot1", "privslot", "ann", "doc", "docclear", "alias", "inherit", "abstract", "register", "initsub",
            "partialm", "setname", "qual", "rename", "modname", "gen", "async", "ops", "weak", "classget", "selfref", "mutable", "reduce", "state", "sdispatch",
            "props", "deco", "lru", "foreign", "shared", "slotdoc", "final", "setattr"}
\* members that exclude each other, or that make no sense for a family
Pairs == {{"slots", "slot1"}, {"slots", "slotsdict"}, {"slot1", "slotsdict"}, {"slots", "privslot"}, {"slot1", "privslot"}, {"slotsdict", "privslot"},
          {"doc", "docclear"}, {"qual", "rename"}, {"reduce", "state"}, {"slots", "cached"}, {"slot1", "cached"}, {"privslot", "cached"},
          {"slotdoc", "slots"}, {"slotdoc", "slot1"}, {"slotdoc", "slotsdict"}, {"slotdoc", "privslot"}, {"slotdoc", "cached"}, {"slotdoc", "weak"}, {"slotdoc", "state"}, {"init", "slotdoc"}, {"reduce", "slotdoc"},
          {"slots", "weak"}, {"slot1", "weak"}, {"privslot", "weak"}, {"slots", "state"}, {"slot1", "state"}, {"privslot", "state"},
          {"rename", "privslot"}, {"rename", "private"}, {"init", "slots"}, {"init", "slot1"}, {"init", "privslot"}, {"reduce", "slots"}, {"reduce", "slot1"}, {"reduce", "privslot"}}
Layout == {"slotdoc", "slots", "slot1", "slotsdict", "privslot"}
Bad(fam, m) ==
  \/ m \in Layout /\ fam \in {"int", "tuple", "ntuple", "NT", "dataclass", "frozen", "dcslots", "exc", "enum", "typed"}
  \/ m \in {"init", "eqhash", "getattr", "reduce", "state", "call"} /\ fam \in {"ntuple", "NT", "dataclass", "frozen", "dcslots", "enum", "typed", "protocol"}
  \/ m = "slotsdict" /\ fam \notin {"plain", "slotbase", "meta", "impmeta", "generic", "abc", "stdabc"}  \* (elsewhere a base has a __dict__ already)
  \/ m = "setattr" /\ fam \in {"frozen"}
  \/ m = "ann" /\ fam \in {"dataclass", "frozen", "dcslots"}
  \/ m \in {"abstract", "register"} /\ fam \notin {"abc", "abcmix", "protocol"}
  \/ m = "register" /\ fam = "protocol"
  \/ m = "inherit" /\ fam \notin {"one", "diamond", "mixin", "meta", "abcmix", "slotbase", "genmix", "subgen", "subgen2"}
  \/ fam \in {"enum", "pep695"} \* (known findings: these fail whatever they contain)
  \/ fam \in {"ntuple", "typed"} \* their own dict is fixed: no members
  \/ fam \in {"NT"} /\ m \notin {"method", "prop", "static", "clsm", "doc"}
  \/ fam = "dcslots" /\ m \in {"cached", "weak", "super", "super2", "selfref"} \* (slots=True rebuilds the class: its own cell differs by design)
  \/ fam = "protocol" /\ m \in {"final", "alias", "slotdoc", "slots", "slot1", "privslot", "slotsdict", "super", "super2"}
  \/ fam = "frozen" /\ m \in {"cached"}
  \/ fam = "mixin" /\ m = "state"
  \/ fam \in {"int", "tuple"} /\ m \in {"reduce", "state", "weak"}
  \/ fam = "exc" /\ m \in {"reduce", "state", "init"}
  \/ fam \in {"generic", "genmix", "subgen", "subgen2", "subgeni"} /\ m \in {"classget"}
  \/ fam \in {"slotbase"} /\ m \in {"cached", "weak", "state", "reduce"}

VARIABLES c, phase, run
vars == <<c, phase, run>>
Order == SetToSeq(Members)
Ix(m) == CHOOSE i \in DOMAIN Order : Order[i] = m
Init == \E f \in Families : c = [fam |-> f, mem |-> {}, top |-> 0] /\ phase = "def" /\ run = [none |-> 0]
Add == /\ phase = "def" /\ Cardinality(c.mem) < MaxM
       /\ \E i \in (c.top + 1)..Cardinality(Members) :
            /\ ~Bad(c.fam, Order[i]) /\ \A m \in c.mem : {m, Order[i]} \notin Pairs
            /\ c' = [c EXCEPT !.mem = @ \cup {Order[i]}, !.top = i]
       /\ UNCHANGED <<phase, run>>

\* the names each member puts into the class's own dictionary
Own(m) == CASE m = "attr" -> {"attr"} [] m = "method" -> {"method"} [] m = "super" -> {"sup"} [] m = "super2" -> {"sup2"} [] m = "prop" -> {"prop"}
            [] m = "setprop" -> {"setprop"} [] m = "static" -> {"static"} [] m = "clsm" -> {"clsm"} [] m = "cached" -> {"cached"} [] m = "descr" -> {"descr"}
            [] m = "nested" -> {"Inner"} [] m = "lam" -> {"lam"} [] m = "private" -> {"_X__priv", "usepriv"} [] m = "init" -> {"__init__"}
            [] m = "eqhash" -> {"__eq__", "__hash__"} [] m = "call" -> {"__call__"} [] m = "getattr" -> {"__getattr__"}
            [] m = "slots" -> {"__slots__", "s1", "s2"} [] m = "slotsdict" -> {"__slots__", "s1"} [] m = "slot1" -> {"__slots__", "s1"}
            [] m = "privslot" -> {"__slots__", "_X__ps", "useps"} [] m = "ann" -> {"__annotations__", "ann2"} [] m = "alias" -> {"alias"}
            [] m = "inherit" -> {"basem"} [] m = "abstract" -> {"absm", "absp"} [] m = "initsub" -> {"__init_subclass__"} [] m = "partialm" -> {"pm"}
            [] m = "setname" -> {"sn"} [] m = "gen" -> {"gen"} [] m = "async" -> {"coro"} [] m = "ops" -> {"__add__", "__len__", "__getitem__"}
            [] m = "classget" -> {"__class_getitem__"} [] m = "selfref" -> {"usecls"} [] m = "mutable" -> {"mut"}
            [] m = "reduce" -> {"__reduce__"} [] m = "state" -> {"__getstate__", "__setstate__"} [] m = "sdispatch" -> {"sd"}
            [] m = "props" -> {"dp1", "dp2", "dp3", "dp4", "dp5", "dp6"} [] m = "deco" -> {"wr"} [] m = "lru" -> {"lru"} [] m = "foreign" -> {"blen", "up", "osmod", "ag"}
            [] m = "shared" -> {"sh1", "sh2"} [] m = "slotdoc" -> {"__slots__", "s1"} [] m = "final" -> {"__final__"}
            [] m = "setattr" -> {"__setattr__", "__delattr__"}
            [] OTHER -> {}
OwnNames(x) == UNION { Own(m) : m \in x.mem }
Bases(f) == CASE f \in {"plain", "meta", "impmeta"} -> <<"object">> [] f \in {"one", "slotbase"} -> <<"B1">> [] f = "diamond" -> <<"B1", "B2">> [] f = "mixin" -> <<"B1", "OrderedDict">>
              [] f = "dict" -> <<"dict">> [] f = "int" -> <<"int">> [] f = "list" -> <<"list">> [] f = "tuple" -> <<"tuple">> [] f = "exc" -> <<"ValueError">>
              [] f = "abc" -> <<"ABC">> [] f = "abcmix" -> <<"B1", "ABC">> [] f = "generic" -> <<"Generic">> [] f = "genmix" -> <<"B1", "Generic">> [] f = "subgen" -> <<"G1">> [] f = "subgen2" -> <<"B1", "G1">> [] f = "subgeni" -> <<"G1">>
              [] f = "protocol" -> <<"Protocol">> [] f \in {"ntuple", "NT"} -> <<"tuple">> [] f = "enum" -> <<"Enum">> [] f = "pep695" -> <<"Generic">> [] f = "typed" -> <<"dict">>
              [] f = "userdict" -> <<"UserDict">> [] f = "stdabc" -> <<"Mapping">>
              [] OTHER -> <<"object">>
Meta(f) == CASE f = "meta" -> "LocalMeta" [] f = "impmeta" -> "ImpMeta" [] f \in {"abc", "abcmix", "userdict", "stdabc"} -> "ABCMeta" [] f = "protocol" -> "_ProtocolMeta" [] f = "enum" -> "EnumType"
             [] f = "typed" -> "_TypedDictMeta" [] OTHER -> "type"
Instantiable(x) == "abstract" \notin x.mem /\ x.fam \notin {"protocol", "stdabc"}
DumpLoad == /\ phase = "def"
            /\ \E o \in Opts, w \in {"same", "fresh"} :
                 run' = [opt |-> o, where |-> w, own |-> OwnNames(c), bases |-> Bases(c.fam), meta |-> Meta(c.fam), inst |-> Instantiable(c),
                         name |-> IF "rename" \in c.mem THEN "Renamed" ELSE "X"]
            /\ phase' = "done" /\ UNCHANGED c
Next == Add \/ DumpLoad
Spec == Init /\ [][Next]_vars
Sane == phase = "done" => (run.inst => "abstract" \notin c.mem)
Emit == phase = "done" => EmitRec([fam |-> c.fam, mem |-> c.mem] @@ run)
============================================================================
