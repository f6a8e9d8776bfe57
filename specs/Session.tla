----------------------------- MODULE Session -----------------------------
(* C07, C08, C09.  A module's namespace, as names bound to nodes of a heap,*)
(* changes, is saved (with imported objects by value or by reference), and *)
(* loaded: into the module, into a new module object, into a dictionary,   *)
(* or in another process.  A load binds every saved name to a copy of the  *)
(* saved structure - with the sharing it had, functions bound to the       *)
(* namespace loaded into and self-references pointing to it - or, for what *)
(* was saved by reference, to the object its source module has now.        *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS ModKinds, Names, Vals, RefOpts, MaxPre, MaxPost, MaxLoads, AsDict, Plain, Restarts

VARIABLES mk,      \* main, file (importable), sub (submodule of a package), runtime (module object in no table)
          ns,      \* namespaces: 1 is the module; others were created by loads
          cur,     \* the one being worked with
          heap,    \* nodes: kind, references, namespace they are bound to
          hobj,    \* what the helper module binds: name -> node (a plain object)
          hlam,    \* name -> node (a function that cannot be found by its own name)
          saved, hist, n, loads
vars == <<mk, ns, cur, heap, hobj, hlam, saved, hist, n, loads>>
HNames == Names \cup {"x"}
HSeq == CHOOSE s \in [1..Cardinality(HNames) -> HNames] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
HIx(x) == CHOOSE i \in DOMAIN HSeq : HSeq[i] = x
NH == Cardinality(HNames)
Node(k, r, m) == [k |-> k, refs |-> r, mod |-> m]
HelperNodes == [i \in 1..(2 * NH) |-> Node(IF i <= NH THEN "hobj" ELSE "hlam", <<>>, 0)]
NoSave == [on |-> FALSE, ns |-> [x \in Names |-> 0], heap |-> <<>>, byref |-> [x \in Names |-> <<"no", "">>]]
Init == /\ mk \in ModKinds /\ cur = 1 /\ ns = <<[x \in Names |-> 0]>> /\ heap = HelperNodes
        /\ hobj = [x \in HNames |-> HIx(x)] /\ hlam = [x \in HNames |-> NH + HIx(x)]
        /\ saved = NoSave /\ hist = <<>> /\ n = 0 /\ loads = 0
H(a) == hist' = Append(hist, a)
Room == n < (IF saved.on THEN MaxPre + MaxPost ELSE MaxPre) /\ n' = n + 1
Bound == {x \in Names : ns[cur][x] # 0}
Nodes == {ns[cur][x] : x \in Bound}
Set(x, v) == ns' = [ns EXCEPT ![cur][x] = v]
New(x, k, r) == /\ heap' = Append(heap, Node(k, r, cur)) /\ Set(x, Len(heap) + 1) /\ H(<<"new", x, k, Len(heap) + 1, r>>)
Bind == /\ Room
        /\ \E x \in Names, k \in Vals :
             \/ k \in {"list", "func", "class", "self", "ns", "std", "ifun", "const", "int"} /\ New(x, k, <<>>)
             \/ k = "inst" /\ \E c \in Nodes : heap[c].k = "class" /\ New(x, k, <<c>>)
             \/ k = "clos" /\ \E c \in Nodes : heap[c].k \in {"list", "func", "class", "inst"} /\ New(x, k, <<c>>)
             \/ k = "meth" /\ \E c \in Nodes : heap[c].k = "inst" /\ New(x, k, <<c>>)
             \/ k = "iobj" /\ ns[cur][x] # hobj[x] /\ Set(x, hobj[x]) /\ H(<<"import", x, "obj", x, hobj[x]>>) /\ heap' = heap
             \/ k = "iobjas" /\ ns[cur][x] # hobj["x"] /\ Set(x, hobj["x"]) /\ H(<<"import", x, "obj", "x", hobj["x"]>>) /\ heap' = heap
             \/ k = "ilam" /\ ns[cur][x] # hlam[x] /\ Set(x, hlam[x]) /\ H(<<"import", x, "lam", x, hlam[x]>>) /\ heap' = heap
             \/ k = "ilamas" /\ ns[cur][x] # hlam["x"] /\ Set(x, hlam["x"]) /\ H(<<"import", x, "lam", "x", hlam["x"]>>) /\ heap' = heap
        /\ UNCHANGED <<mk, cur, hobj, hlam, saved, loads>>
Alias == /\ Room /\ \E x \in Names, y \in Bound : x # y /\ ns[cur][x] # ns[cur][y] /\ Set(x, ns[cur][y]) /\ H(<<"alias", x, y>>)
         /\ UNCHANGED <<mk, cur, heap, hobj, hlam, saved, loads>>
\* put an object into another one: an item of a list, an attribute of a function or instance
Contain == /\ Room
           /\ \E x \in Bound, y \in Bound :
                LET v == ns[cur][x] IN
                /\ heap[v].k \in {"list", "func", "inst"} /\ Len(heap[v].refs) < 3
                /\ heap' = [heap EXCEPT ![v].refs = Append(@, ns[cur][y])] /\ H(<<"contain", x, y, v, ns[cur][y]>>)
           /\ UNCHANGED <<mk, ns, cur, hobj, hlam, saved, loads>>
Delete == /\ Room /\ \E x \in Bound : Set(x, 0) /\ H(<<"delete", x>>) /\ UNCHANGED <<mk, cur, heap, hobj, hlam, saved, loads>>
\* the helper module binds a name of its own to a new object
Helper == /\ Room /\ TRUE \in RefOpts
          /\ \E x \in HNames :
               \/ /\ heap' = Append(heap, Node("hobj", <<>>, 0)) /\ hobj' = [hobj EXCEPT ![x] = Len(heap) + 1] /\ hlam' = hlam /\ H(<<"helper", "obj", x, Len(heap) + 1>>)
               \/ /\ heap' = Append(heap, Node("hlam", <<>>, 0)) /\ hlam' = [hlam EXCEPT ![x] = Len(heap) + 1] /\ hobj' = hobj /\ H(<<"helper", "lam", x, Len(heap) + 1>>)
          /\ UNCHANGED <<mk, ns, cur, saved, loads>>

\* what a name is saved as when imported objects go by reference: plain objects under their own name, functions (classes, modules) under any
ByRef(x, r) == LET v == ns[cur][x] IN
  IF ~r \/ v = 0 THEN <<"no", "">>
  ELSE IF hobj[x] = v THEN <<"obj", x>>
  ELSE IF hlam[x] = v THEN <<"lam", x>>
  ELSE IF \E y \in HNames : hlam[y] = v THEN <<"lam", CHOOSE y \in HNames : hlam[y] = v>>
  ELSE <<"no", "">>
Dump == /\ (saved.on => n < MaxPre + MaxPost) /\ n' = IF saved.on THEN n + 1 ELSE MaxPre
        /\ \E r \in RefOpts :
             /\ saved' = [on |-> TRUE, ns |-> ns[cur], heap |-> heap, byref |-> [x \in Names |-> ByRef(x, r)]]
             /\ H(<<"dump", r, Len(heap)>>)
        /\ UNCHANGED <<mk, ns, cur, heap, hobj, hlam, loads>>
Base == Len(heap)
Copy(t) == [i \in DOMAIN saved.heap |-> Node(saved.heap[i].k, [j \in DOMAIN saved.heap[i].refs |-> Base + saved.heap[i].refs[j]], t)]
Value(x) == CASE saved.byref[x][1] = "obj" -> hobj[saved.byref[x][2]] [] saved.byref[x][1] = "lam" -> hlam[saved.byref[x][2]]
              [] OTHER -> Base + saved.ns[x]
Over(old) == [x \in Names |-> IF saved.ns[x] # 0 THEN Value(x) ELSE old[x]]
Empty == [x \in Names |-> 0]
CanLoad == saved.on /\ loads < MaxLoads /\ loads' = loads + 1
Into(t, form, old) == /\ heap' = heap \o Copy(t)
                      /\ ns' = IF t <= Len(ns) THEN [ns EXCEPT ![t] = Over(old)] ELSE Append(ns, Over(old))
                      /\ H(<<"load", form, t, Base, Over(old)>>)
\* module objects that are not importable, one of them with the name of an imported module
RunTime == mk \in {"runtime", "namesake"}
Load == /\ CanLoad /\ Plain
        /\ \/ ~RunTime /\ \E f \in {"none", "obj", "str"} : Into(1, f, ns[1]) /\ cur' = cur
           \/ RunTime /\ Into(cur, "obj", ns[cur]) /\ cur' = cur
           \/ RunTime /\ \E f \in {"none", "empty"} : Into(Len(ns) + 1, f, Empty) /\ cur' = Len(ns) + 1
        /\ UNCHANGED <<mk, hobj, hlam, saved, n>>
LoadDict == /\ CanLoad /\ AsDict
            /\ \E u \in BOOLEAN : Into(Len(ns) + 1, IF u THEN "update" ELSE "dict", IF u /\ ~RunTime THEN ns[1] ELSE Empty)
            /\ UNCHANGED <<mk, cur, hobj, hlam, saved, n>>
Restart == /\ saved.on /\ Restarts /\ hist[Len(hist)][1] = "dump" /\ loads < MaxLoads
           /\ ns' = <<Empty>> /\ cur' = 1 /\ heap' = heap \o HelperNodes
           /\ hobj' = [x \in HNames |-> Base + HIx(x)] /\ hlam' = [x \in HNames |-> Base + NH + HIx(x)]
           /\ H(<<"restart", Base>>) /\ UNCHANGED <<mk, saved, n, loads>>
Next == Bind \/ Alias \/ Contain \/ Delete \/ Helper \/ Dump \/ Load \/ LoadDict \/ Restart
Spec == Init /\ [][Next]_vars
\* a load keeps exactly the identity relations between the names that the save saw, and those between live helper objects
Kept == (loads > 0 /\ hist[Len(hist)][1] = "load") =>
          LET t == hist[Len(hist)][3] IN
          \A x, y \in Names : (saved.ns[x] # 0 /\ saved.ns[y] # 0 /\ saved.byref[x][1] = "no" /\ saved.byref[y][1] = "no") =>
                              ((ns[t][x] = ns[t][y]) <=> (saved.ns[x] = saved.ns[y]))
OthersAlone == [][\A t \in DOMAIN ns : (t \in DOMAIN ns' /\ t # cur /\ t # 1) => ns'[t] = ns[t]]_vars
Emit == (loads = MaxLoads /\ hist[Len(hist)][1] = "load") => EmitRec([mk |-> mk, hist |-> hist, hn |-> HSeq])
==========================================================================
