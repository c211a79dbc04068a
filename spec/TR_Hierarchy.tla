---- MODULE TR_Hierarchy ----
EXTENDS Hierarchy, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
