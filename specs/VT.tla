------------------------------- MODULE VT -------------------------------
(* Output channel of all specifications: EmitRec(r) writes one JSON line    *)
(* to the file named by VT_OUT and is TRUE, so it can sit in an invariant.  *)
EXTENDS TLC, Sequences, Json, CSV, IOUtils
EmitRec(r) == CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.VT_OUT)
Traces == ndJsonDeserialize(IOEnv.VT_DIR \o "/traces.ndjson")
=========================================================================
