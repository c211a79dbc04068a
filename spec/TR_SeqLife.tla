---- MODULE TR_SeqLife ----
EXTENDS SeqLife, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
