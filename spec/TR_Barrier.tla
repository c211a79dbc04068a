---- MODULE TR_Barrier ----
EXTENDS Barrier, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
