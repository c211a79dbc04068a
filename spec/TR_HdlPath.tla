---- MODULE TR_HdlPath ----
EXTENDS HdlPath, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
