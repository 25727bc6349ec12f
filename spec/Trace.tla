------------------------------- MODULE Trace -------------------------------
(* Shared by all trace specifications: the recorded events and acceptance.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
\* evaluated after the search: the whole recording was a behaviour of the specification
Accepted == LET d == TLCGet("stats").diameter IN
    IF d = Len(Log) + 1 THEN PrintT("ACCEPTED")
    ELSE PrintT(<<"REJECTED", d, Log[d]>>)
=============================================================================
