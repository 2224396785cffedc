------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded traces (one JSON object per line) and writing generated
   behaviours.  A trace specification advances `l` one event at a time; the
   trace is accepted iff TLC can consume all of it.                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* diameter counts levels including the initial one *)
TraceAccepted ==
    LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)

(* For stateless events: report and go on, so that every bad event is found *)
Judge(ok, l, expected) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, expected>>)

Emit(v) == CSVWrite("%1$s", <<ToJson(v)>>, IOEnv.OUT)

\* a recorded refusal, whatever the type of the value would be
IsRefused(x) == ToString(x) = ToString("refused")

Has(e, f) == f \in DOMAIN e
=============================================================================
