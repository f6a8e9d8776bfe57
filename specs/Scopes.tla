------------------------------ MODULE Scopes ------------------------------
(* C19.  A program of nested scopes (functions, classes, lambdas,            *)
(* comprehensions), each with statements that use names; Python's name       *)
(* resolution; and what every inspection of the library has to report.       *)
(* Names may be reported (M...) where the language leaves room: names a      *)
(* class body may find locally, code that is unreachable, comprehensions     *)
(* that are compiled into their function.                                    *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Names, Ops, Kinds, MaxScopes, MaxStm, Cells, Random, Bound0, Rebind
\* Rebind: the names of the module that may hold any function, whatever its own name
\* Bound0: the names the module binds beside its definitions
VARIABLES par, kind, stm, phase, cellmode, empt, dead, bind
vars == <<par, kind, stm, phase, cellmode, empt, dead, bind>>
N == Len(par)
S(i) == "s" \o ToString(i)
FunKinds == {"def", "async", "lambda", "genexp", "listcomp", "dictcomp"}
Comp == {"genexp", "listcomp", "dictcomp"}
Inlined == {"listcomp", "dictcomp"}
Expr == Comp \cup {"lambda"}
Named == {"def", "async", "class"}
Kids(i) == {j \in 1..N : par[j] = i}
Stms(i) == {stm[i][k] : k \in 1..Len(stm[i])}
Of(i, os) == {s[2] : s \in {t \in Stms(i) : t[1] \in os}}
\* --- what each operation does ---------------------------------------------------
ReadOps  == {"read", "aug", "call", "nested", "sub"}
WriteOps == {"write", "early", "maybe", "aug", "for", "exc", "with", "import", "from", "ann", "match", "star", "tuple"}
ParamOps == {"param", "kwonly", "vararg", "kwarg", "posonly"}
OuterOps == {"default", "iter", "base", "deco", "annot"}   \* evaluated in the scope around
InertOps == {"attr", "string", "kw"}                       \* mention a name that is no variable
\* the mangled spelling inside class c
RECURSIVE ClassOf(_)
ClassOf(i) == IF i = 0 THEN 0 ELSE IF kind[i] = "class" THEN i ELSE ClassOf(par[i])
Mangle(i, n) == IF n = "__p" /\ ClassOf(i) # 0 THEN "_" \o S(ClassOf(i)) \o "__p" ELSE n
M(i, X) == {Mangle(i, n) : n \in X}
RECURSIVE WalrusHome(_)
WalrusHome(i) == IF i # 0 /\ kind[i] \in Comp THEN WalrusHome(par[i]) ELSE i
WalrusIn(i) == UNION {M(j, Of(j, {"walrus"})) : j \in {k \in 1..N : WalrusHome(k) = i}}
Globals(i) == M(i, Of(i, {"global"}))
Nonlocals(i) == M(i, Of(i, {"nonlocal"}))
Defs(i) == {S(j) : j \in {k \in Kids(i) : kind[k] \in Named}}
Targets(i) == IF kind[i] \in Comp THEN {"t" \o ToString(i)} \cup M(i, Of(i, {"target"})) ELSE {}
Params(i) == M(i, Of(i, ParamOps))
Stored(i) == M(i, Of(i, WriteOps)) \cup (IF kind[i] \in Comp THEN {} ELSE WalrusIn(i)) \cup Targets(i) \cup Params(i) \cup Defs(i)
Deleted(i) == M(i, Of(i, {"del"}))
Binds(i) == (Stored(i) \cup Deleted(i)) \ (Globals(i) \cup Nonlocals(i))
\* names read in the code of i itself (base, decorators, defaults belong to the scope around)
Reads(i) == M(i, Of(i, ReadOps)) \cup UNION {M(i, Of(j, OuterOps)) : j \in Kids(i)} \cup (IF kind[i] \in Comp THEN {"t" \o ToString(i)} ELSE {}) \cup (IF "super" \in {s[1] : s \in Stms(i)} THEN {"super"} ELSE {})
DeadReads(i) == M(i, Of(i, {"dead"}))
\* an inlined comprehension's walrus is stored by its own code
Mentions(i) == Reads(i) \cup DeadReads(i) \cup Stored(i) \cup Deleted(i) \cup (IF kind[i] \in Comp THEN M(i, Of(i, {"walrus"})) ELSE {}) \cup Nonlocals(i) \cup (IF "super" \in {s[1] : s \in Stms(i)} THEN {"__class__"} ELSE {})
\* --- resolution -----------------------------------------------------------------
\* lookup of a name from inside scope i, starting at the enclosing scope j: the binding function scope, or 0 for global
RECURSIVE Find(_, _)
Find(j, n) == IF j = 0 THEN 0
  ELSE IF kind[j] = "class" THEN IF n = "__class__" THEN j ELSE Find(par[j], n)
  ELSE IF n \in Binds(j) THEN j ELSE IF n \in Globals(j) THEN 0 ELSE Find(par[j], n)
\* "local", "global", "free"
Res(i, n) == IF n \in Globals(i) THEN "global"
  ELSE IF n \in Nonlocals(i) THEN "free"
  ELSE IF n \in Binds(i) THEN "local"
  ELSE IF Find(par[i], n) = 0 THEN "global" ELSE "free"
Home(i, n) == IF n \in Binds(i) /\ kind[i] # "class" THEN i ELSE Find(par[i], n)
RECURSIVE Free(_)
Needs(i) == UNION {Free(j) : j \in Kids(i)}
Free(i) == {n \in Mentions(i) : Res(i, n) = "free"} \cup (IF kind[i] = "class" THEN Needs(i) \ {"__class__"} ELSE Needs(i) \ Binds(i))
Cell(i) == IF kind[i] = "class" THEN Needs(i) \cap {"__class__"} ELSE Needs(i) \cap Binds(i)
\* comprehensions may be compiled into their function, which then needs no cells for them
RECURSIVE Surely2(_)
SolidNeeds(i) == UNION {Surely2(j) : j \in Kids(i)}
Surely2(j) == IF kind[j] \in Inlined THEN SolidNeeds(j) \ Binds(j) ELSE Free(j)
\* --- legality (what the compiler accepts) ----------------------------------------
Legal(i) ==
  /\ Globals(i) \cap Nonlocals(i) = {} /\ (Globals(i) \cup Nonlocals(i)) \cap Params(i) = {}
  /\ \A n \in Nonlocals(i) : Find(par[i], n) # 0
  /\ (Globals(i) \cup Nonlocals(i)) \cap M(i, Of(i, {"ann"})) = {}
  /\ Of(i, {"walrus"}) \cap Of(i, {"target"}) = {}
  /\ (kind[i] \in Comp => \A c \in 1..N : (WalrusHome(c) = WalrusHome(i) /\ kind[c] \in Comp) => M(c, Of(c, {"walrus"})) \cap Targets(i) = {})
  /\ (Of(i, {"walrus"}) # {} => WalrusHome(i) # 0 /\ (kind[i] \in Comp => kind[WalrusHome(i)] # "class"))
\* inside a comprehension's class-mangled names and walruses to declared names stay simple
\* CPython 3.12 confuses a comprehension's variables with those of its siblings (and of a walrus beside it) once compiled into one function
RECURSIVE Above(_)
Above(i) == IF i = 0 THEN {} ELSE {i} \cup Above(par[i])
Clash(i) == \E j, k \in 1..N : j # k /\ kind[j] \in Inlined /\ kind[k] \in Inlined /\ i \in Above(j) /\ i \in Above(k) /\ k \notin Above(j) /\ Binds(k) \cap Mentions(j) # {}
Valid == (\A i \in 1..N : Legal(i)) /\ ~\E i \in 1..N : Clash(i)
\* --- reports ----------------------------------------------------------------------
\* what walruses inside comprehensions write is written by the comprehension's code
OwnUses(i) == Reads(i) \cup (IF kind[i] \in Comp THEN M(i, Of(i, {"walrus"})) \cup Targets(i) ELSE (Stored(i) \ (WalrusIn(i) \ (M(i, Of(i, WriteOps \cup ParamOps \cup {"walrus"})) \cup Defs(i)))) \cup Deleted(i))
GlobalUses(i, X) == {n \in X : Res(i, n) = "global"}
\* in a comprehension a walrus that lands in a global of the home scope
WalrusGlobal(i) == IF kind[i] \in Comp THEN {n \in M(i, Of(i, {"walrus"})) : LET h == WalrusHome(i) IN n \in Globals(h)} ELSE {}
MustOwn(i) == GlobalUses(i, OwnUses(i)) \cup WalrusGlobal(i)
MayOwn(i) == MustOwn(i) \cup GlobalUses(i, Mentions(i)) \cup (IF kind[i] = "class" THEN Binds(i) \cup Reads(i) \cup DeadReads(i) \cup {"__name__", "__annotations__"} ELSE {})
\* a class body that reads a name before it is surely bound may find the global instead
SureOps == {"write", "import", "from", "tuple", "star", "walrus", "early", "with", "match"}
ClassReads == {"read", "aug", "call", "nested", "sub", "early", "maybe"}
Surely(i, k, n) == \E a \in 1..(k - 1) : stm[i][a][1] \in SureOps /\ Mangle(i, stm[i][a][2]) = n
                     /\ \A b \in (a + 1)..(k - 1) : stm[i][b][1] \notin {"del", "exc"} \/ Mangle(i, stm[i][b][2]) # n
ClassMust(i) == IF kind[i] # "class" THEN {} ELSE
  {n \in Binds(i) : \E k \in 1..Len(stm[i]) : stm[i][k][1] \in ClassReads /\ Mangle(i, stm[i][k][2]) = n /\ ~Surely(i, k, n)}
RECURSIVE MustTree(_), MayTree(_), Below(_), Transparent(_)
Must1(i) == MustOwn(i) \cup ClassMust(i)
MustTree(i) == Must1(i) \cup UNION {MustTree(j) : j \in Kids(i)}
MayTree(i) == MayOwn(i) \cup ClassMust(i) \cup UNION {MayTree(j) : j \in Kids(i)}
Below(i) == Kids(i) \cup UNION {Below(j) : j \in Kids(i)}
\* comprehensions may be part of their function's code
Transparent(i) == {i} \cup UNION {Transparent(j) : j \in {k \in Kids(i) : kind[k] \in Inlined}}
MayOwnT(i) == UNION {MayOwn(j) \cup ClassMust(j) : j \in Transparent(i)}
Solid(X) == {j \in X : kind[j] \notin Inlined}
\* local variables; those of inlined comprehensions may count
MustLocals(i) == IF kind[i] = "class" THEN {} ELSE (Binds(i) \ Cell(i)) \ M(i, Of(i, {"ann"}))
MayLocals(i) == UNION {Binds(j) : j \in Transparent(i) \ (IF kind[i] = "class" THEN {i} ELSE {})} \cup {".0"} \cup UNION {Mentions(j) \cup Needs(j) : j \in Transparent(i) \ {i}}
MustCells(i) == Cell(i) \cap SolidNeeds(i)
MayCells(i) == UNION {Cell(j) : j \in Transparent(i)}
\* --- run-time values --------------------------------------------------------------
Top(n) == {j \in 1..N : par[j] = 0 /\ n = S(j) /\ kind[j] \in Named}
ModuleNames == Bound0 \cup {S(j) : j \in {k \in 1..N : par[k] = 0 /\ kind[k] \in Named}}
Funs == {i \in 1..N : kind[i] \in {"def", "async", "lambda"}}
\* the function a cell holds (0: a plain value, -1: nothing yet)
CellOf(h, n) == CASE cellmode = "empty" -> -1
  [] cellmode = "mixed" /\ n \in empt -> -1
  [] cellmode = "cross" -> IF 1 \in Funs THEN 1 ELSE 0
  [] OTHER -> LET D == {j \in 1..N : par[j] = h /\ S(j) = n /\ j \in Funs} IN IF D # {} THEN CHOOSE j \in D : TRUE ELSE 0
CellMap(i) == [n \in Free(i) |-> CellOf(Home(i, n), n)]
FreeVars(i) == {n \in Free(i) : CellMap(i)[n] # -1}
ByCell(i) == {CellMap(i)[n] : n \in Free(i)} \cap Funs
ByName(i, names) == {bind[n] : n \in names \cap DOMAIN bind}
RECURSIVE ReachMust(_), ReachMay(_), ReachCells(_)
ReachMust(X) == LET Y == X \cup UNION {ByCell(i) \cup ByName(i, MustTree(i)) : i \in X} IN IF Y = X THEN X ELSE ReachMust(Y)
ReachMay(X) == LET Y == X \cup UNION {ByCell(i) \cup ByName(i, MayTree(i)) : i \in X} IN IF Y = X THEN X ELSE ReachMay(Y)
ReachCells(X) == LET Y == X \cup UNION {ByCell(i) : i \in X} IN IF Y = X THEN X ELSE ReachCells(Y)
Rep(i) == [
  locals |-> <<MustLocals(i), MayLocals(i)>>, cells |-> <<MustCells(i), MayCells(i)>>, free |-> Free(i),
  code |-> <<Solid(Below(i)), Below(i)>>,
  code1 |-> <<Solid(Kids(i)), UNION {Kids(j) : j \in Transparent(i)}>>,
  names |-> <<MustTree(i), MayTree(i)>>, names1 |-> <<Must1(i), MayOwnT(i)>>,
  cellmap |-> IF i \in Funs THEN CellMap(i) ELSE << >>, home |-> IF i \in Funs THEN [n \in Free(i) |-> Home(i, n)] ELSE << >>,
  freevars |-> IF i \in Funs THEN FreeVars(i) ELSE {},
  globs |-> IF i \in Funs THEN <<UNION {MustTree(j) : j \in ReachMust({i})}, UNION {MayTree(j) : j \in ReachMay({i})}>> ELSE <<{}, {}>>,
  globs1 |-> IF i \in Funs THEN <<UNION {Must1(j) : j \in ReachCells({i})}, UNION {MayOwnT(j) : j \in ReachCells({i})}>> ELSE <<{}, {}>>,
  alive |-> (Below(i) \cap Funs) \ dead, alive1 |-> {j \in Below(i) \cap Funs : j \notin dead /\ \E k \in Transparent(i) : j \in Kids(k)}]
\* --- building ----------------------------------------------------------------------
Pick(X) == IF Random THEN {RandomElement(IF Len(par) >= 0 THEN X ELSE {})} ELSE X
Init == par = <<>> /\ kind = <<>> /\ stm = <<>> /\ phase = "build" /\ cellmode = "" /\ empt = {} /\ dead = {} /\ bind = << >>
OkKind(p, k) == IF p = 0 THEN k \in {"def", "async", "class"} ELSE kind[p] \in Expr => k \in Expr
AddScope == /\ N < MaxScopes
            /\ \E k \in Pick(IF N = 0 THEN Kinds \cap {"def", "async"} ELSE Kinds) :
               \E p \in Pick({q \in 0..N : (N = 0 => q = 0) /\ OkKind(q, k)}) :
                  par' = Append(par, p) /\ kind' = Append(kind, k) /\ stm' = Append(stm, <<>>)
            /\ UNCHANGED <<phase, cellmode, empt, dead, bind>>
\* which operations a kind of scope has
Has(k, o) == CASE o \in {"read", "attr", "string", "kw", "call", "sub", "nested"} -> TRUE
  [] o \in ParamOps -> k \in {"def", "async", "lambda"}
  [] o = "default" -> k \in {"def", "async", "lambda"}
  [] o \in {"annot", "deco"} -> k \in {"def", "async"} \/ (o = "deco" /\ k = "class")
  [] o = "base" -> k = "class" [] o = "iter" -> k \in Comp [] o = "target" -> k \in Comp
  [] o \in {"early", "maybe"} -> k = "class"
  [] o = "super" -> k \in {"def"}
  [] o = "walrus" -> k \in {"def", "async", "lambda", "class"} \cup Comp
  [] OTHER -> k \in {"def", "async", "class"}
AddStm == \E i \in Pick({j \in 1..N : Len(stm[j]) < MaxStm}) : \E o \in Pick({q \in Ops : Has(kind[i], q)}) : \E n \in Pick(Names) :
  /\ (o = "super" => n = CHOOSE m \in Names : TRUE)
  /\ \A k \in 1..Len(stm[i]) : stm[i][k] # <<o, n>>
  \* parameters are distinct; there is one starred parameter of each sort
  /\ (o \in ParamOps => \A k \in 1..Len(stm[i]) : stm[i][k][1] \in ParamOps => stm[i][k][2] # n)
  /\ (o \in {"vararg", "kwarg"} => \A k \in 1..Len(stm[i]) : stm[i][k][1] # o)
  /\ (o \in {"target"} => \A k \in 1..Len(stm[i]) : stm[i][k][1] # o)
  /\ stm' = [stm EXCEPT ![i] = Append(@, <<o, n>>)]
  /\ UNCHANGED <<par, kind, phase, cellmode, empt, dead, bind>>
\* (the random choices are made anew in every state)
Some(X) == IF Random THEN {{n \in X : RandomElement(IF Len(par) >= 0 THEN {1, 2, 3} ELSE {}) = 1}} ELSE SUBSET X
SomeMap(X, Y) == IF Random THEN {[n \in X |-> RandomElement(IF Len(par) >= 0 THEN Y ELSE {})]} ELSE [X -> Y]
Finish == /\ N > 0 /\ phase = "build" /\ phase' = "done"
          /\ \E c \in Pick(Cells) : cellmode' = c
          /\ \E X \in Some(IF cellmode' = "mixed" THEN Names \cup {S(j) : j \in 1..N} ELSE {}) : empt' = X
          /\ dead' = IF cellmode' = "empty" THEN {j \in 1..N : j % 2 = 0 /\ par[j] # 0} ELSE {}
          /\ \E X \in Some(Rebind) : \E f \in SomeMap(X, Funs \ dead') : bind' = f @@ [n \in {S(j) : j \in {k \in Funs : par[k] = 0}} |-> CHOOSE j \in Funs : S(j) = n]
          /\ UNCHANGED <<par, kind, stm>>
Steps == Len(par) + (IF par = <<>> THEN 0 ELSE LET F[k \in 0..N] == IF k = 0 THEN 0 ELSE F[k - 1] + Len(stm[k]) IN F[N])
Next == phase = "build" /\ IF Random
  THEN \E k \in Pick(1..6) : IF N = 0 \/ (k <= 2 /\ N < MaxScopes) THEN AddScope ELSE IF k = 6 /\ Steps > 4 THEN Finish ELSE IF \E j \in 1..N : Len(stm[j]) < MaxStm THEN AddStm ELSE Finish
  ELSE AddScope \/ AddStm \/ Finish
Spec == Init /\ [][Next]_vars
\* --- properties of the model itself --------------------------------------------------
Done == phase = "done" /\ Valid
Sound == Done => \A i \in 1..N : MustTree(i) \subseteq MayTree(i) /\ Must1(i) \subseteq MayOwnT(i) /\ Cell(i) \cap Free(i) = {} /\ MustLocals(i) \cap Free(i) = {}
\* a free variable has a home that keeps it in a cell
Homed == Done => \A i \in 1..N : \A n \in Free(i) : Find(par[i], n) # 0 /\ n \in Cell(Find(par[i], n))
Order == Done => \A i \in Funs : {i} \cup ByCell(i) \subseteq ReachCells({i}) /\ ReachCells({i}) \subseteq ReachMust({i}) /\ ReachMust({i}) \subseteq ReachMay({i})
Emit == Done => EmitRec([par |-> par, kind |-> kind, stm |-> stm, cellmode |-> cellmode, dead |-> dead, bind |-> bind, rep |-> [i \in 1..N |-> Rep(i)]])
=============================================================================
