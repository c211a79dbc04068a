---- MODULE TR_Tlm2 ----
EXTENDS Tlm2, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
