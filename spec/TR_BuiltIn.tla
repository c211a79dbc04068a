---- MODULE TR_BuiltIn ----
EXTENDS BuiltIn, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
