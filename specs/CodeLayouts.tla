---------------------------- MODULE CodeLayouts ----------------------------
(* C27.  A code object is stored as a call of one constructor with the      *)
(* fields of the writing interpreter in their order.  The machine writes a  *)
(* stream field by field (layout, optional line-number prefix, each byte    *)
(* field as bytes or as text, fields dropped or added at either end), then  *)
(* the reader assigns each attribute of the running version's layout from   *)
(* the field of that name, or the default.                                  *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS Layouts,      \* names of the layouts considered
          TextSets,     \* which byte fields are written as text
          Prefixes,     \* "none", "bytes", "text", "empty"
          Deltas,       \* fields added (positive) or missing at the end, as 10 + d
          Values        \* value sets
VARIABLES layout, prefix, text, delta, values, pos, args, phase, result
vars == <<layout, prefix, text, delta, values, pos, args, phase, result>>
Head15 == <<"argcount", "kwonlyargcount", "nlocals", "stacksize", "flags", "code", "consts", "names", "varnames", "filename", "name">>
Head16 == <<"argcount", "posonlyargcount", "kwonlyargcount", "nlocals", "stacksize", "flags", "code", "consts", "names", "varnames", "filename", "name">>
Fields(l) ==
  CASE l = "37"  -> Head15 \o <<"firstlineno", "lnotab", "freevars", "cellvars">>
    [] l = "38"  -> Head16 \o <<"firstlineno", "lnotab", "freevars", "cellvars">>
    [] l = "310" -> Head16 \o <<"firstlineno", "linetable", "freevars", "cellvars">>
    [] l = "311p" -> Head16 \o <<"qualname", "firstlineno", "linetable", "freevars", "cellvars">>
    [] l = "311" -> Head16 \o <<"qualname", "firstlineno", "linetable", "exceptiontable", "freevars", "cellvars">>
    [] l = "311a" -> Head16 \o <<"qualname", "firstlineno", "linetable", "endlinetable", "columntable", "exceptiontable", "freevars", "cellvars">>
Running == {Fields("311")[i] : i \in DOMAIN Fields("311")}
Lengths == {15, 16, 17, 18, 20}
Bytes == {"code", "lnotab", "linetable", "endlinetable", "columntable", "exceptiontable"}
Init == /\ layout \in Layouts /\ prefix \in Prefixes /\ text \in TextSets /\ delta \in Deltas /\ values \in Values
        /\ text \subseteq {Fields(layout)[i] : i \in DOMAIN Fields(layout)} /\ (delta # 10 => text = {} /\ values = "a")
        /\ pos = 0 /\ args = <<>> /\ phase = "write" /\ result = <<>>
Write ==
  /\ phase = "write" /\ pos < Len(Fields(layout)) + delta - 10
  /\ pos' = pos + 1
  /\ args' = Append(args, IF pos + 1 > Len(Fields(layout)) THEN [field |-> "extra", text |-> FALSE]
                          ELSE LET f == Fields(layout)[pos + 1] IN [field |-> f, text |-> f \in Bytes /\ f \in text])
  /\ UNCHANGED <<layout, prefix, text, delta, values, phase, result>>
Read ==
  /\ phase = "write" /\ pos = Len(Fields(layout)) + delta - 10
  /\ phase' = IF pos \in Lengths THEN "done" ELSE "refused"
  /\ result' = IF pos \notin Lengths THEN <<>>
               ELSE [a \in Running |->
                      LET at == {i \in DOMAIN args : args[i].field = a} IN
                      CASE at # {} -> a
                        [] a = "linetable" /\ layout = "38" -> "lnotab"   \* the same position in 3.8 and 3.10, which have the same length
                        [] a = "posonlyargcount" -> "zero"
                        [] a = "qualname" -> "name"
                        [] OTHER -> "empty"]
  /\ UNCHANGED <<layout, prefix, text, delta, values, pos, args>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
\* no attribute is taken from a field of another kind, and every field of the running version that was stored is used
OwnPosition == phase = "done" /\ delta = 10 =>
  \A a \in Running : (\E i \in DOMAIN args : args[i].field = a) <=> result[a] = a
\* (a stream with fields missing or added counts only when it has no known length)
Judged == delta = 10 \/ pos \notin Lengths
Emit == phase \in {"done", "refused"} /\ Judged => EmitRec([refused |-> phase = "refused", layout |-> layout, prefix |-> prefix, args |-> args, result |-> result, values |-> values])
=============================================================================
