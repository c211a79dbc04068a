---- MODULE TR_Comparator ----
EXTENDS Comparator, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
