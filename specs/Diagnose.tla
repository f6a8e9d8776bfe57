----------------------------- MODULE Diagnose -----------------------------
(* C20.  A tree of parts, each with the way its own copying goes, held in    *)
(* its parent's state or computed by it; and what each diagnosis of the      *)
(* library reports for it, at every depth.                                   *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Kinds, Vias, MaxNodes, MaxDepth, Calls, Shapes, Random
VARIABLES par, kind, via, pc, call
vars == <<par, kind, via, pc, call>>
N == Len(par)
\* node 1 is the object; kind: how its own part of the copying goes; via: how its parent gives it
Kids(i) == {j \in 2..N : par[j] = i}
Held(i) == {j \in Kids(i) : via[j] = "held"}
\* --- copying ---------------------------------------------------------------------
DumpErr(k) == CASE k = "dumpT" -> "TypeError" [] k = "dumpP" -> "PicklingError" [] k = "dumpV" -> "ValueError" [] k = "dumpA" -> "AttributeError" [] OTHER -> ""
LoadErr(k) == CASE k = "loadT" -> "TypeError" [] k = "loadU" -> "UnpicklingError" [] k = "loadK" -> "KeyError" [] k = "loadR" -> "RuntimeError" [] OTHER -> ""
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Dump(_), DumpAll(_), Load(_), LoadAll(_), Eq(_)
\* first error while storing (a node before its parts, the parts in order), then while loading (parts first)
DumpAll(X) == IF X = {} THEN "" ELSE LET m == Min(X) IN IF Dump(m) # "" THEN Dump(m) ELSE DumpAll(X \ {m})
Dump(i) == IF DumpErr(kind[i]) # "" THEN DumpErr(kind[i]) ELSE DumpAll(Held(i))
LoadAll(X) == IF X = {} THEN "" ELSE LET m == Min(X) IN IF Load(m) # "" THEN Load(m) ELSE LoadAll(X \ {m})
Load(i) == IF LoadAll(Held(i)) # "" THEN LoadAll(Held(i)) ELSE LoadErr(kind[i])
Err(i) == IF Dump(i) # "" THEN Dump(i) ELSE Load(i)
\* is the copy equal, and of the same type
Eq(i) == kind[i] \notin {"neq", "othertype", "looks"} /\ \A j \in Held(i) : Eq(j)
SameType(i) == kind[i] \notin {"othertype", "othereq"}
Trapped(x, safe) == safe \/ x \in {"TypeError", "PicklingError", "UnpicklingError", "AssertionError", "NotImplementedError"}
\* "good", "bad", or an error that is let through
Verdict(i, exact, safe) == IF Err(i) # "" THEN IF Trapped(Err(i), safe) THEN "bad" ELSE Err(i)
  ELSE IF Eq(i) \/ (~exact /\ SameType(i)) THEN "good" ELSE "bad"
\* --- reports ----------------------------------------------------------------------
\* a report is ["none"], ["node", i], ["error", what], ["dict", {<<name, report>>}] or ["raise", what]
Leaf(t, x) == [t |-> t, x |-> x, d |-> <<>>]
None == Leaf("none", "")
Raise(x) == Leaf("raise", x)
Readable(i) == {j \in Kids(i) : via[j] # "raises"}
ErrOf(i, exact) == IF Err(i) # "" THEN Err(i) ELSE "AssertionError"
Report0(fn, i, exact, safe) == IF fn = "errors" THEN IF Verdict(i, exact, TRUE) = "good" THEN None ELSE Leaf("error", ErrOf(i, exact))
  ELSE CASE Verdict(i, exact, safe) = "good" -> None [] Verdict(i, exact, safe) = "bad" -> Leaf(IF fn = "badtypes" THEN "type" ELSE "node", ToString(i)) [] OTHER -> Raise(Verdict(i, exact, safe))
RECURSIVE Report(_, _, _, _, _), Rows(_, _, _, _, _)
\* attributes in order of their names (a node's number orders its name)
Rows(fn, X, depth, exact, safe) == IF X = {} THEN [t |-> "dict", x |-> "", d |-> <<>>] ELSE
  LET m == Min(X) rest == Rows(fn, X \ {m}, depth, exact, safe)
      v == Verdict(m, exact, safe)
      row == IF via[m] = "raises" THEN Leaf("error", "unreadable") ELSE IF v = "bad" THEN Report(fn, m, depth, exact, safe) ELSE None
  IN IF via[m] # "raises" /\ v \notin {"good", "bad"} THEN Raise(v)
     ELSE IF row.t = "raise" THEN row ELSE IF rest.t = "raise" THEN rest
     ELSE IF (via[m] = "raises" /\ fn # "errors") \/ (via[m] # "raises" /\ v = "good") THEN rest
     ELSE [rest EXCEPT !.d = <<[name |-> m, rep |-> row]>> \o @]
Report(fn, i, depth, exact, safe) == IF depth = 0 THEN Report0(fn, i, exact, safe) ELSE Rows(fn, Kids(i), depth - 1, exact, safe)
\* the items of a container that do not pickle, each once, or the first error let through
RECURSIVE Items(_, _, _)
Items(s, exact, safe) == IF s = <<>> THEN [t |-> "list", x |-> "", d |-> <<>>] ELSE
  LET v == Verdict(s[1], exact, safe) rest == Items(SelectSeq(Tail(s), LAMBDA x : x # s[1]), exact, safe) IN
  IF v \notin {"good", "bad"} THEN Raise(v) ELSE IF rest.t = "raise" THEN rest ELSE IF v = "good" THEN rest ELSE [rest EXCEPT !.d = <<[name |-> s[1], rep |-> Leaf("node", ToString(s[1]))]>> \o @]
\* --- building -----------------------------------------------------------------------
Pick(X) == IF Random THEN {RandomElement(IF Len(par) >= 0 THEN X ELSE {})} ELSE X
Init == par = <<0>> /\ kind \in {<<k>> : k \in Kinds} /\ via = <<"held">> /\ pc = "build" /\ call = [fn |-> ""]
Add == N < MaxNodes /\ \E p \in Pick({q \in 1..N : via[q] # "raises" \/ q = 1} \cap (IF Random THEN 1..N ELSE par[N]..N)) : \E k \in Pick(Kinds) : \E v \in Pick(Vias) :
  /\ TRUE
  /\ par' = Append(par, p) /\ kind' = Append(kind, k) /\ via' = Append(via, v) /\ UNCHANGED <<pc, call>>
Ask == \E c \in Pick(Calls) : \E e \in Pick(BOOLEAN) : \E s \in Pick(BOOLEAN) : \E sh \in Pick(IF c = "baditems" THEN Shapes ELSE {"object"}) : \E d \in Pick(IF c = "baditems" THEN {0} ELSE 0..MaxDepth) :
  LET items == IF sh = "object" THEN <<1>> ELSE IF sh = "twice" THEN [k \in 1..(2 * N) |-> (k + 1) \div 2] ELSE [k \in 1..N |-> k] IN
  /\ pc' = "done" /\ UNCHANGED <<par, kind, via>>
  /\ call' = [fn |-> c, exact |-> e, safe |-> s, depth |-> d, shape |-> sh, rep |-> IF c = "baditems" THEN Items(items, e, s) ELSE Report(c, 1, d, e, s)]
Next == pc = "build" /\ IF Random THEN IF N < MaxNodes THEN Add ELSE Ask ELSE Add \/ Ask
Spec == Init /\ [][Next]_vars
\* --- properties -----------------------------------------------------------------------
\* the three reports name the same attributes, except those that cannot be read; a report is empty exactly when nothing is wrong below
Bad(i, e, s) == \E j \in Readable(i) : Verdict(j, e, s) # "good"
Agree == pc = "done" => \A e, s \in BOOLEAN : \A d \in 0..MaxDepth :
  LET o == Report("badobjects", 1, d, e, s) t == Report("badtypes", 1, d, e, s) x == Report("errors", 1, d, e, s) IN
  /\ o.t = "raise" <=> t.t = "raise"
  /\ (d > 0 /\ o.t = "dict") => /\ {o.d[k].name : k \in DOMAIN o.d} = {t.d[k].name : k \in DOMAIN t.d}
                                /\ (o.d = <<>>) = ~Bad(1, e, s)
                                /\ x.t = "dict" => {o.d[k].name : k \in DOMAIN o.d} = {x.d[k].name : k \in DOMAIN x.d} \cap Readable(1)
\* whatever fails as a part held by an object fails the object
Spreads == pc = "done" => \A j \in 2..N : via[j] = "held" /\ Err(j) # "" => Err(par[j]) # ""
Emit == pc = "done" => EmitRec([par |-> par, kind |-> kind, via |-> via, call |-> call])
=============================================================================
