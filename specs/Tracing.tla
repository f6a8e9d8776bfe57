------------------------------- MODULE Tracing -------------------------------
(* C15.  Verbosity and destinations of the pickling trace under histories of *)
(* trace(True/False), levels and handlers set by the user, nested trace      *)
(* contexts with and without redirection, left normally or by an exception,  *)
(* and picklings (plain, failing, or tracing something else half way).       *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS MaxOps, MaxDepth, Levels, Places, Random
VARIABLES level, root, handlers, ctx, hist
vars == <<level, root, handlers, ctx, hist>>
Init == level = 0 /\ root = 30 /\ handlers = {"err"} /\ ctx = <<>> /\ hist = <<>>
Pick(S) == IF Random THEN {RandomElement(IF Len(hist) >= 0 THEN S ELSE {})} ELSE S
On(l, r) == (IF l = 0 THEN r ELSE l) <= 20
\* a handler is a set element "err", "user" or <<place, depth>>; the trace is written once by each
Base == {h \in {"err", "user"} : h \in handlers}
\* which places get a pickling's trace, and how often
To(hs, c, l, r) == [p \in {"err", "user"} \cup Places |-> IF ~On(l, r) THEN 0 ELSE IF p \in {"err", "user"} THEN (IF p \in hs THEN 1 ELSE 0) ELSE Cardinality({i \in 1..Len(c) : c[i].place = p})]
Log(e) == hist' = Append(hist, e @@ [level |-> level', handlers |-> handlers', open |-> [i \in 1..Len(ctx') |-> ctx'[i].place]])
SetLevel == \E l \in Pick(Levels) : level' = l /\ UNCHANGED <<root, handlers, ctx>> /\ Log([do |-> "level", l |-> l])
SetRoot == \E r \in Pick({20, 30}) : root' = r /\ UNCHANGED <<level, handlers, ctx>> /\ Log([do |-> "root", l |-> r])
Switch == \E b \in Pick(BOOLEAN) : level' = (IF b THEN 20 ELSE 30) /\ UNCHANGED <<root, handlers, ctx>> /\ Log([do |-> "trace", on |-> b])
User == \E h \in Pick({"user", "err"}) : (h = "err" => ctx = <<>>) /\ handlers' = (IF h \in handlers THEN handlers \ {h} ELSE handlers \cup {h})
        /\ UNCHANGED <<level, root, ctx>> /\ Log([do |-> "handler", h |-> h])
InUse == {ctx[i].place : i \in 1..Len(ctx)}
Files == {p \in Places : p \in {"file1", "file2"}}
Enter == \E p \in Pick((Places \ (InUse \cap Files)) \cup {"none"}) : Len(ctx) < MaxDepth
   /\ ctx' = Append(ctx, [place |-> p, old |-> level, had |-> "err" \in handlers]) /\ level' = 20
   /\ handlers' = (IF p = "none" THEN handlers ELSE handlers \ {"err"}) /\ UNCHANGED root /\ Log([do |-> "enter", p |-> p])
\* a context that cannot be entered changes nothing
BadEnter == UNCHANGED <<level, root, handlers, ctx>> /\ Log([do |-> "badenter"])
Leave == ctx # <<>> /\ \E x \in Pick({"normal", "error"}) : LET c == ctx[Len(ctx)] IN
   level' = c.old /\ handlers' = (IF c.place # "none" /\ c.had THEN handlers \cup {"err"} ELSE handlers)
   /\ ctx' = SubSeq(ctx, 1, Len(ctx) - 1) /\ UNCHANGED root /\ Log([do |-> "leave", how |-> x])
Same == UNCHANGED <<level, root, handlers, ctx>>
Pickle == \E k \in Pick({"ok", "fails", "copy"}) : Same /\ Log([do |-> "pickle", kind |-> k, to |-> To(handlers, ctx, level, root)])
\* while it is pickled, an object traces the pickling of another one elsewhere; that pickling may fail
Inside == \E p \in Pick((Places \ (InUse \cap Files)) \cup {"none"}), k \in Pick({"ok", "fails"}) : Same
   /\ Log([do |-> "inside", p |-> p, kind |-> k, to |-> To(handlers, ctx, level, root),
           inner |-> To(IF p = "none" THEN handlers ELSE handlers \ {"err"}, Append(ctx, [place |-> p, old |-> 0, had |-> FALSE]), 20, root)])
\* the log function a context provides
Say == ctx # <<>> /\ Same /\ Log([do |-> "say", to |-> To(handlers, ctx, level, root)])
Sort(n) == IF Random THEN {RandomElement(IF n >= 0 THEN {"level", "root", "trace", "user", "enter", "enter", "bad", "leave", "pickle", "inside", "say"} ELSE {})} ELSE {"all"}
Next == Len(hist) < MaxOps /\ \E k \in Sort(Len(hist)) :
   \/ k \in {"level", "all"} /\ SetLevel
   \/ k \in {"root", "all"} /\ SetRoot
   \/ k \in {"trace", "all"} /\ Switch
   \/ k \in {"user", "all"} /\ User
   \/ (k \in {"enter", "all"} \/ (k \in {"leave", "say"} /\ ctx = <<>>)) /\ Enter
   \/ k \in {"bad", "all"} /\ BadEnter
   \/ (k \in {"leave", "all"} \/ (k = "enter" /\ Len(ctx) = MaxDepth)) /\ Leave
   \/ k \in {"pickle", "all"} /\ Pickle
   \/ k \in {"inside", "all"} /\ Inside
   \/ k \in {"say", "all"} /\ Say
Spec == Init /\ [][Next]_vars
\* leaving restores what entering found, whatever happened in between to other contexts
Restored == [][(hist' # hist /\ hist'[Len(hist')].do = "leave") => level' = ctx[Len(ctx)].old]_vars
Requested == hist # <<>> /\ hist[Len(hist)].do = "pickle" /\ ctx # <<>> /\ On(level, root) => LET c == ctx[Len(ctx)] IN c.place # "none" => hist[Len(hist)].to[c.place] >= 1
Emit == Len(hist) = MaxOps => EmitRec([hist |-> hist])
=============================================================================
