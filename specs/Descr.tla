-------------------------------- MODULE Descr --------------------------------
(* C12, C24.  Files opened by a descriptor (temporary files): pickling in    *)
(* any file mode leaves the handle open and where it was; in file mode a     *)
(* copy has the content and position of then and a life of its own; in the   *)
(* other modes it is another handle on the same open file, and closing it    *)
(* leaves the original usable.                                               *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS MaxOps, FModes
VARIABLES text, pos, pick, copy, hist
vars == <<text, pos, pick, copy, hist>>
None == [on |-> FALSE]
Init == text = <<>> /\ pos = 0 /\ pick = None /\ copy = None /\ hist = <<>>
Put(c, p, x) == [i \in 1..(IF p >= Len(c) THEN p + 1 ELSE Len(c)) |-> IF i = p + 1 THEN x ELSE c[i]]
Log(e) == hist' = Append(hist, e)
Own == copy.on /\ pick.fm = "file"        \* the copy has its own file
Write == pos <= Len(text) /\ Len(text) < 6 /\ (copy.on => Own) /\ \E x \in {1, 2} : text' = Put(text, pos, x) /\ pos' = pos + 1 /\ UNCHANGED <<pick, copy>> /\ Log([do |-> "write", x |-> x])
Read == (copy.on => Own) /\ pos < Len(text) /\ pos' = pos + 1 /\ UNCHANGED <<text, pick, copy>> /\ Log([do |-> "read", got |-> text[pos + 1]])
Seek == (copy.on => Own) /\ \E p \in 0..Len(text) : p # pos /\ pos' = p /\ UNCHANGED <<text, pick, copy>> /\ Log([do |-> "seek", p |-> p])
Pickle == ~copy.on /\ \E f \in FModes : pick' = [on |-> TRUE, fm |-> f, text |-> text, pos |-> pos] /\ UNCHANGED <<text, pos, copy>> /\ Log([do |-> "pickle", fm |-> f])
Load == pick.on /\ ~copy.on /\ copy' = (IF pick.fm = "file" THEN [on |-> TRUE, text |-> pick.text, pos |-> pick.pos] ELSE [on |-> TRUE]) /\ UNCHANGED <<text, pos, pick>> /\ Log([do |-> "load", fm |-> pick.fm, pos |-> pick.pos])
CopyWrite == Own /\ copy.pos <= Len(copy.text) /\ Len(copy.text) < 6 /\ copy' = [copy EXCEPT !.text = Put(@, copy.pos, 3), !.pos = @ + 1] /\ UNCHANGED <<text, pos, pick>> /\ Log([do |-> "copywrite", text |-> copy'.text])
CopyClose == copy.on /\ copy' = None /\ (IF pick.fm = "file" THEN pos' = pos ELSE pos' = 0) /\ UNCHANGED <<text, pick>> /\ Log([do |-> "copyclose", own |-> pick.fm = "file"])
Step == Write \/ Read \/ Seek \/ Pickle \/ Load \/ CopyWrite \/ CopyClose
Next == Len(hist) < MaxOps /\ Step
Spec == Init /\ [][Next]_vars
Unaffected == [][(hist' # hist /\ hist'[Len(hist')].do \in {"pickle", "load", "copywrite"}) => text' = text /\ pos' = pos]_vars
Emit == Len(hist) = MaxOps /\ pick.on => EmitRec([hist |-> hist, text |-> text, pos |-> pos, sharing |-> copy.on /\ ~Own])
=============================================================================
