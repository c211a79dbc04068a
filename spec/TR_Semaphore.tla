---- MODULE TR_Semaphore ----
EXTENDS Semaphore, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
