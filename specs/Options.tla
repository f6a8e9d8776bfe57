------------------------------- MODULE Options -------------------------------
(* C14.  The settings and a history of calls with explicit options, some    *)
(* inside others and some failing.  In force for a call is the explicit     *)
(* value, or the setting at the moment of the call ("unset" and None mean   *)
(* not given); calls change neither the settings nor each other.            *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS MaxOps, Entries, Random, Only
Opts == {"protocol", "byref", "fmode", "recurse", "ignore"}
Values(o) == CASE o = "protocol" -> 0..5 [] o = "fmode" -> 0..2 [] OTHER -> {0, 1}
Given == -1      \* (the value is passed as None)
Unset == -2
Default == [protocol |-> 4, byref |-> 0, fmode |-> 0, recurse |-> 0, ignore |-> 0]
VARIABLES set, hist
vars == <<set, hist>>
Init == set = Default /\ hist = <<>>
Arg(o) == Values(o) \cup {Given, Unset}
\* what is in force
Eff(s, e) == [o \in Opts |-> IF e[o] >= 0 THEN e[o] ELSE s[o]]
\* (the temporary-file helpers take no pickling options, loading does)
EffW(s, e, w) == IF w = "temp" THEN [Eff(s, e) EXCEPT !.protocol = s.protocol, !.byref = s.byref, !.fmode = s.fmode, !.recurse = s.recurse] ELSE Eff(s, e)
AllUnset == [o \in Opts |-> Unset]
Explicits(n) == IF Random THEN {[o \in Opts |-> RandomElement(IF n >= 0 THEN Arg(o) ELSE {})]}
             ELSE {AllUnset} \cup UNION {{[AllUnset EXCEPT ![o] = v] : v \in Arg(o)} : o \in Only}
Pick(S) == IF Random THEN {RandomElement(IF Len(hist) >= 0 THEN S ELSE {})} ELSE S
Log(e) == hist' = Append(hist, e)
Set == \E o \in Pick(Only) : \E v \in Pick(Values(o)) : (Random \/ v # set[o]) /\ set' = [set EXCEPT ![o] = v] /\ Log([do |-> "set", o |-> o, v |-> v])
Call == \E e \in Explicits(Len(hist)), w \in Pick(Entries) : UNCHANGED set /\ Log([do |-> "call", way |-> w, args |-> e, eff |-> EffW(set, e, w)])
Fail == \E e \in Explicits(Len(hist)) : UNCHANGED set /\ Log([do |-> "fail", args |-> e])
\* a call during which another call is made
Nested == \E e \in Explicits(Len(hist)), f \in Explicits(Len(hist)), w \in Pick(Entries), x \in Pick(Entries) : UNCHANGED set
   /\ Log([do |-> "nested", way |-> w, args |-> e, eff |-> EffW(set, e, w), inner |-> [way |-> x, args |-> f, eff |-> EffW(set, f, x)]])
\* a call during which a setting is changed: it does not notice
During == \E e \in Explicits(Len(hist)), w \in Pick(Entries), o \in Pick(Only \ {"ignore"}) : \E v \in Pick(Values(o)) :
   /\ set' = [set EXCEPT ![o] = v] /\ Log([do |-> "during", way |-> w, args |-> e, eff |-> EffW(set, e, w), o |-> o, v |-> v])
Sort(n) == IF Random THEN {RandomElement(IF n >= 0 THEN {"set", "call", "fail", "nested", "during"} ELSE {})} ELSE {"all"}
Next == Len(hist) < MaxOps /\ \E k \in Sort(Len(hist)) :
   \/ k \in {"set", "all"} /\ Set
   \/ k \in {"call", "all"} /\ Call
   \/ k \in {"fail", "all"} /\ Fail
   \/ k \in {"nested", "all"} /\ Nested
   \/ k \in {"during", "all"} /\ During
Spec == Init /\ [][Next]_vars
OnlySettingChanges == [][set' # set => hist'[Len(hist')].do \in {"set", "during"}]_vars
ExplicitWins == hist # <<>> /\ "eff" \in DOMAIN hist[Len(hist)] => LET h == hist[Len(hist)] IN \A o \in Opts : h.args[o] >= 0 /\ h.way # "temp" => h.eff[o] = h.args[o]
Emit == Len(hist) = MaxOps => EmitRec([hist |-> hist, settings |-> set])
=============================================================================
