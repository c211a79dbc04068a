---- MODULE TR_Callbacks ----
EXTENDS Callbacks, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
