------------------------------- MODULE Pure -------------------------------
(* C24.  Objects with one changeable part each, pickled together again and  *)
(* again - also without success - changed in between, and loaded any number *)
(* of times.  A pickle holds the values of the moment; a load makes a new   *)
(* world that shares with the others only what is stored by reference; and  *)
(* neither pickling nor loading changes anything.  What is by reference:    *)
(* parts of importable modules ("ref"); of the main module's functions      *)
(* unless globals are followed ("mainglob"); of the main module's classes   *)
(* when asked to store by reference ("maincls").                            *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS ValKinds, NoRef, LiveKinds, Pairs, MaxObjs, MaxOps, MaxWorlds, MaxBlobs, Options, Failures, Random
VARIABLES kinds, live, worlds, blobs, hist
vars == <<kinds, live, worlds, blobs, hist>>
\* a world: per object, its own value or Shared, when it is the live one
Shared == -1
Put == 1000     \* a module object's contents are put back by a load
Kinds == ValKinds \cup LiveKinds
Pick(S) == IF Random THEN {RandomElement(IF Len(hist) >= 0 THEN S ELSE {})} ELSE S
Read(u) == [i \in DOMAIN kinds |-> IF worlds[u][i] = Shared THEN live[i] ELSE worlds[u][i]]
Group(k) == IF k \in ValKinds THEN "val" ELSE k
\* stored by reference with these options?
ByRef(k, o) == CASE Group(k) = "val" -> FALSE [] k = "mainglob" -> o \notin {"recurse", "recbyref"} [] k = "maincls" -> o \in {"byref", "recbyref"} [] OTHER -> TRUE
\* what has no reference cannot be stored by reference: classes found nowhere, copies of main-module classes
Can(u, o) == o \in {"byref", "recbyref"} => \A i \in DOMAIN kinds : kinds[i] \notin NoRef /\ (kinds[i] = "maincls" => worlds[u][i] = Shared)
Log(e) == hist' = Append(hist, e)
Seqs(n) == IF Random THEN {[i \in 1..MaxObjs |-> RandomElement(IF n + i > 0 THEN Kinds ELSE {})]} ELSE IF Pairs THEN [1..MaxObjs -> Kinds] ELSE {<<k>> : k \in Kinds}
Init == /\ kinds = <<>> /\ live = <<>> /\ worlds = <<>> /\ blobs = <<>> /\ hist = <<>>
Start == kinds = <<>> /\ \E ks \in Seqs(Len(hist)) : kinds' = ks /\ live' = [i \in DOMAIN ks |-> 0]
   /\ worlds' = << [i \in DOMAIN ks |-> IF Group(ks[i]) = "val" THEN 0 ELSE Shared] >> /\ blobs' = <<>> /\ hist' = <<>>
Next1(v) == (v % 9) + 1
Mutate == \E u \in Pick(DOMAIN worlds) : \E i \in Pick(DOMAIN kinds) :
   LET v == Len(hist) + 1 IN
   /\ IF worlds[u][i] = Shared THEN live' = [live EXCEPT ![i] = v] /\ worlds' = worlds ELSE worlds' = [worlds EXCEPT ![u][i] = v] /\ live' = live
   /\ Log([do |-> "mutate", u |-> u, i |-> i, x |-> ToString(v)]) /\ UNCHANGED <<kinds, blobs>>
Dump == Len(blobs) < MaxBlobs /\ \E u \in Pick(DOMAIN worlds) : \E o \in Pick({x \in Options : Can(u, x)}) :
   /\ blobs' = Append(blobs, [i \in DOMAIN kinds |-> IF kinds[i] = "refmod" THEN Put + Read(u)[i] ELSE IF worlds[u][i] = Shared /\ ByRef(kinds[i], o) THEN Shared ELSE Read(u)[i]])
   /\ Log([do |-> "dump", u |-> u, i |-> 0, x |-> o]) /\ UNCHANGED <<kinds, live, worlds>>
FailDump == \E u \in Pick(DOMAIN worlds) : \E o \in Pick({x \in Options : Can(u, x)}) : \E f \in Pick(Failures) :
   Log([do |-> "faildump", u |-> u, i |-> 0, x |-> o \o " " \o f]) /\ UNCHANGED <<kinds, live, worlds, blobs>>
Load == Len(worlds) < MaxWorlds /\ blobs # <<>> /\ \E b \in Pick(DOMAIN blobs) :
   /\ worlds' = Append(worlds, [i \in DOMAIN kinds |-> IF kinds[i] = "refmod" THEN Shared ELSE blobs[b][i]])
   /\ live' = [i \in DOMAIN kinds |-> IF kinds[i] = "refmod" THEN blobs[b][i] - Put ELSE live[i]]
   /\ Log([do |-> "load", u |-> b, i |-> 0, x |-> ""]) /\ UNCHANGED <<kinds, blobs>>
\* (a cut pickle may have put a module's contents back before its end)
FailLoad == (\A i \in DOMAIN kinds : kinds[i] # "refmod") /\ blobs # <<>> /\ \E b \in Pick(DOMAIN blobs) : Log([do |-> "failload", u |-> b, i |-> 0, x |-> ""]) /\ UNCHANGED <<kinds, live, worlds, blobs>>
\* dumping and loading at once
Copy == Len(worlds) < MaxWorlds /\ \E u \in Pick(DOMAIN worlds) : \E o \in Pick({x \in Options : Can(u, x)}) :
   /\ worlds' = Append(worlds, [i \in DOMAIN kinds |-> IF worlds[u][i] = Shared /\ ByRef(kinds[i], o) THEN Shared ELSE Read(u)[i]])
   /\ Log([do |-> "copy", u |-> u, i |-> 0, x |-> o]) /\ UNCHANGED <<kinds, live, blobs>>
Enabled == {"mutate", "faildump"} \cup (IF Len(blobs) < MaxBlobs THEN {"dump"} ELSE {}) \cup (IF blobs # <<>> /\ \A i \in DOMAIN kinds : kinds[i] # "refmod" THEN {"failload"} ELSE {})
   \cup (IF Len(worlds) < MaxWorlds THEN {"copy"} ELSE {}) \cup (IF Len(worlds) < MaxWorlds /\ blobs # <<>> THEN {"load"} ELSE {})
Sort(n) == IF Random THEN {RandomElement(IF n >= 0 THEN Enabled ELSE {})} ELSE Enabled
Step == kinds # <<>> /\ Len(hist) < MaxOps /\ \E k \in Sort(Len(hist)) :
   \/ (k = "mutate" /\ Mutate) \/ (k = "dump" /\ Dump) \/ (k = "faildump" /\ FailDump) \/ (k = "load" /\ Load) \/ (k = "failload" /\ FailLoad) \/ (k = "copy" /\ Copy)
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
\* only a change changes values that are already there, and only in its own world unless they are shared
OnlyMutations == [][hist' # <<>> /\ hist'[Len(hist')].do # "mutate" => (\A i \in DOMAIN live : kinds[i] # "refmod" => live'[i] = live[i]) /\ \A u \in DOMAIN worlds : worlds'[u] = worlds[u]]_vars
Independent == [][\A u \in DOMAIN worlds, i \in DOMAIN kinds : worlds[u][i] # Shared /\ u \in DOMAIN worlds' /\ worlds'[u][i] # worlds[u][i] => hist'[Len(hist')].u = u]_vars
BlobsKeep == [][\A b \in DOMAIN blobs : b \in DOMAIN blobs' /\ blobs'[b] = blobs[b]]_vars
\* the values everywhere after the last step (earlier ones follow from the steps)
Emit == kinds # <<>> /\ Len(hist) = MaxOps => EmitRec([kinds |-> kinds, hist |-> [j \in DOMAIN hist |-> <<hist[j].do, hist[j].u, hist[j].i, hist[j].x>>], worlds |-> [u \in DOMAIN worlds |-> Read(u)], shared |-> [u \in DOMAIN worlds |-> {i \in DOMAIN kinds : worlds[u][i] = Shared}]])
=============================================================================
