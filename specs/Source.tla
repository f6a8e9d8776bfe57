------------------------------ MODULE Source ------------------------------
(* C21.  A source file (or an interactive history) is written definition by  *)
(* definition: functions, coroutines, classes and lambdas, nested, decorated *)
(* and sharing names, among comments, blank lines and strings that look like *)
(* definitions.  The specification knows the lines of each.                  *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Names, Kinds, Decos, Heads, Fillers, Closers, LamStyles, MaxDefs, MaxDepth, MaxFill, Twins, MaxMade, Random
VARIABLES lines, defs, open, fill, made
vars == <<lines, defs, open, fill, made>>
Pick(X) == IF Random THEN {RandomElement(IF Len(lines) >= 0 THEN X ELSE {})} ELSE X
Init == lines = <<>> /\ defs = <<>> /\ open = <<>> /\ fill = 0 /\ made = <<>>
Depth == Len(open)
Top == IF open = <<>> THEN 0 ELSE open[Len(open)]
L(k, d, i) == [k |-> k, d |-> d, ind |-> i]
\* the lines of decorators and headers
DecoLines(s, d, i) == CASE s = "one" -> <<L("deco", d, i)>> [] s = "two" -> <<L("deco", d, i), L("decocall", d, i)>> [] s = "split" -> <<L("decoopen", d, i), L("decoarg", d, i), L("decoend", d, i)>>
  [] s = "lam" -> <<L("decolam", d, i)>> [] s = "gap" -> <<L("deco", d, i), L("note", d, i), L("decocall", d, i)>> [] OTHER -> <<>>
HeadLines(s, d, i) == CASE s = "split" -> <<L("headopen", d, i), L("headarg", d, i), L("headend", d, i)>> [] OTHER -> <<L("head", d, i)>>
\* --- writing -------------------------------------------------------------------
Open(k) == \E n \in Pick(Names) : \E dc \in Pick(Decos) : \E h \in Pick(Heads) : \E tw \in Pick(Twins) :
  LET d == Len(defs) + 1 IN
  /\ lines' = lines \o DecoLines(dc, d, Depth) \o HeadLines(h, d, Depth)
  /\ defs' = Append(defs, [kind |-> k, name |-> n, deco |-> dc, head |-> h, style |-> "", twin |-> tw, up |-> Top, ind |-> Depth, first |-> Len(lines) + 1, last |-> 0, most |-> 0])
  /\ open' = Append(open, d) /\ UNCHANGED fill
\* a function on one line
Short == \E n \in Pick(Names) : \E k \in Pick(Kinds \cap {"def", "async", "class"}) : \E dc \in Pick(Decos) : \E tw \in Pick(Twins) :
  LET d == Len(defs) + 1
      a == Len(lines) + 1
      t == lines \o DecoLines(dc, d, Depth) \o <<L("short", d, Depth)>> IN
  /\ lines' = Append(t, L("reg", d, Depth))
  /\ defs' = Append(defs, [kind |-> k, name |-> n, deco |-> dc, head |-> "short", style |-> "", twin |-> tw, up |-> Top, ind |-> Depth, first |-> a, last |-> Len(t), most |-> Len(t)])
  /\ UNCHANGED <<open, fill>>
LamLines(s, d, i) == CASE s = "split" -> <<L("lamopen", d, i), L("lamend", d, i)>> [] s = "listed" -> <<L("listopen", d, i), L("listed", d, i), L("listend", d, i)>> [] OTHER -> <<L("lam", d, i)>>
Lambda == \E n \in Pick(Names) : \E s \in Pick(LamStyles) : \E tw \in Pick(Twins) :
  LET d == Len(defs) + 1
      t == lines \o LamLines(s, d, Depth)
      a == IF s = "listed" THEN Len(lines) + 2 ELSE Len(lines) + 1
      z == IF s = "listed" THEN a ELSE Len(t) IN
  /\ lines' = Append(t, L("reg", d, Depth))
  /\ defs' = Append(defs, [kind |-> "lambda", name |-> n, deco |-> "", head |-> "", style |-> s, twin |-> tw, up |-> Top, ind |-> Depth, first |-> a, last |-> z, most |-> z])
  /\ UNCHANGED <<open, fill>>
\* something else in the current body
Fill == /\ fill < MaxFill
        /\ \E s \in Pick(Fillers) :
           /\ lines' = lines \o (CASE s = "doc" -> <<L("docopen", Top, Depth), L("doctext", Top, Depth), L("doclow", Top, Depth), L("docend", Top, Depth)>>
                                   [] s = "cont" -> <<L("contopen", Top, Depth), L("contend", Top, Depth)>>
                                   [] s = "cond" -> <<L("if", Top, Depth), L("then", Top, Depth)>>
                                   [] OTHER -> <<L(s, Top, Depth)>>)
        /\ fill' = fill + 1 /\ UNCHANGED <<defs, open>>
\* the body ends with a statement; a comment of the same depth may follow
Close == /\ open # <<>>
         /\ \E c \in Pick(Closers) :
            LET d == Top
                t == lines \o (IF c = "retdoc" THEN <<L("retopen", d, Depth), L("doctext", d, Depth), L("doclow", d, Depth), L("retend", d, Depth)>> ELSE IF c = "retsplit" THEN <<L("retparen", d, Depth), L("retclose", d, Depth)>> ELSE <<L("ret", d, Depth)>>)
                e == IF c = "tailnote" THEN <<L("comment", d, Depth)>> ELSE IF c = "tailblank" THEN <<L("blank", 0, 0), L("low", 0, 0)>> ELSE <<>> IN
            /\ lines' = Append(t \o e, L("reg", d, Depth - 1))
            /\ defs' = [defs EXCEPT ![d] = [@ EXCEPT !.last = Len(t), !.most = Len(t) + Len(e)]]
            /\ open' = SubSeq(open, 1, Len(open) - 1)
         /\ UNCHANGED fill
Room == Len(defs) < MaxDefs
Moves == {"open", "short", "lambda", "fill", "close"}
Can(m) == CASE m = "open" -> Room /\ Depth < MaxDepth /\ Kinds \cap {"def", "async", "class"} # {} [] m = "short" -> Room /\ "short" \in Heads /\ Kinds \cap {"def", "async", "class"} # {} [] m = "lambda" -> Room /\ "lambda" \in Kinds
            [] m = "fill" -> fill < MaxFill /\ Room [] m = "close" -> open # <<>>
\* every history ends with all definitions made and closed
Move(m) == Can(m) /\ CASE m = "open" -> (\E k \in Pick(Kinds \cap {"def", "async", "class"}) : Open(k)) [] m = "short" -> Short [] m = "lambda" -> Lambda [] m = "fill" -> Fill [] m = "close" -> Close
Written == ~Room /\ open = <<>>
Done == Written /\ Len(made) = MaxMade
\* closures: results of calls of functions of the file, kept by name (a name may hold another later, a closure may have several names)
Makers == {"inner", "twice", "deep", "wrap", "deco", "both"}
Forms == {"plain", "typed", "item", "pair", "under"}
Make == \E m \in Pick(Makers) : \E f \in Pick(Forms) : \E n \in Pick({"ga", "gb", "gc"}) : \E v \in Pick(1..3) :
          made' = Append(made, [maker |-> m, form |-> f, name |-> n, val |-> v, of |-> Len(made) + 1])
Again == \E i \in Pick(DOMAIN made) : \E n \in Pick({"ga", "gb", "gc"}) : made' = Append(made, [made[i] EXCEPT !.form = "again", !.name = n, !.val = i, !.of = made[i].of])
Holds(i) == \A j \in (i + 1)..Len(made) : made[j].name # made[i].name
Names2(i) == {made[j].name : j \in {k \in DOMAIN made : made[k].of = made[i].of /\ Holds(k)}}
Next == IF Written THEN ~Done /\ (IF Random THEN (\E w \in Pick(IF made = <<>> THEN {1} ELSE {1, 2}) : IF w = 1 THEN Make ELSE Again) ELSE (Make \/ Again)) /\ UNCHANGED <<lines, defs, open, fill>>
        ELSE UNCHANGED made /\ IF Random THEN \E m \in Pick({x \in Moves : Can(x)}) : Move(m) ELSE \E m \in Moves : Move(m)
Spec == Init /\ [][Next]_vars
\* --- what the file says ------------------------------------------------------------
IsFun(d) == defs[d].kind \in {"def", "async"}
RECURSIVE Ups(_)
Ups(d) == IF d = 0 THEN <<>> ELSE Append(Ups(defs[d].up), d)
\* the outermost function a definition is in (itself when in none)
Encl(d) == LET u == SelectSeq(Ups(defs[d].up), IsFun) IN IF u = <<>> THEN d ELSE u[1]
\* the name of the definition in its module, unless something later has it
Later(d, S(_)) == {e \in (d + 1)..Len(defs) : defs[e].name = defs[d].name /\ S(e)}
Binds(e) == defs[e].up = 0 /\ defs[e].style \notin {"listed", "arg"}
Takes(e) == defs[e].up = 0 /\ defs[e].style # "arg"
IsLive(d) == Binds(d) /\ Later(d, Takes) = {}
\* the last definition of that name at any depth, for those that are found by name
IsLast(d) == Later(d, LAMBDA e : defs[e].kind # "lambda") = {}
Qual(d) == LET u == Ups(d)
               F[k \in 0..Len(u)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k = 1 THEN "" ELSE IF IsFun(u[k - 1]) THEN ".<locals>." ELSE ".") \o (IF defs[u[k]].kind = "lambda" THEN "<lambda>" ELSE defs[u[k]].name)
           IN F[Len(u)]
\* classes of the same qualified name are told apart by their methods
Keeps(d) == \E e \in (d + 1)..Len(defs) : defs[e].up = d /\ defs[e].style \notin {"listed", "arg"} /\ (IsFun(e) \/ defs[e].kind = "lambda") /\ Later(e, LAMBDA x : defs[x].up = d /\ defs[x].style # "arg") = {}
Known(d) == defs[d].kind # "class" \/ Keeps(d) \/ \A e \in DOMAIN defs : (e # d /\ defs[e].kind = "class") => Qual(e) # Qual(d)
\* --- checked in the model ------------------------------------------------------
InSpan(a, d) == defs[d].first <= defs[a].first /\ defs[a].most <= defs[d].last
Closed == {d \in DOMAIN defs : defs[d].last # 0}
\* definitions nest or are apart, are in the definition they were made in, and have their own lines
Nested == \A d \in Closed : \A e \in Closed : d < e => (InSpan(e, d) \/ defs[d].most < defs[e].first)
Within == \A d \in Closed : LET u == defs[d].up IN u \in Closed => InSpan(d, u)
Own == \A d \in Closed : defs[d].first <= defs[d].last /\ defs[d].last <= defs[d].most /\ (defs[d].style \in {"listed"} \/ lines[defs[d].first].ind = defs[d].ind)
Outer == Written => \A d \in DOMAIN defs : Encl(d) = d \/ (InSpan(d, Encl(d)) /\ IsFun(Encl(d)))
OneLive == \A d, e \in DOMAIN defs : (d # e /\ IsLive(d) /\ IsLive(e)) => defs[d].name # defs[e].name
Out(d) == [kind |-> defs[d].kind, name |-> defs[d].name, deco |-> defs[d].deco, head |-> defs[d].head, style |-> defs[d].style, twin |-> defs[d].twin, up |-> defs[d].up, first |-> defs[d].first, last |-> defs[d].last, most |-> defs[d].most,
           encl |-> Encl(d), live |-> IsLive(d), only |-> IsLast(d), known |-> Known(d), qual |-> Qual(d)]
Emit == Done => EmitRec([lines |-> lines, defs |-> [d \in DOMAIN defs |-> Out(d)], made |-> [i \in DOMAIN made |-> [m |-> made[i], holds |-> Holds(i), names |-> Names2(i)]]])
=============================================================================
