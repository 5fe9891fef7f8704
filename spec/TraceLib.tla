----------------------------- MODULE TraceLib -----------------------------
(* Reading a recorded trace: one JSON object per line, file named by the environment variable TRACE. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceAccepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
Has(e, f) == f \in DOMAIN e
============================================================================
