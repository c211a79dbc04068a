---- MODULE TR_Cmdline ----
EXTENDS Cmdline, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
