---- MODULE TR_PhaseGraph ----
EXTENDS PhaseGraph, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
