---- MODULE TR_ConfigDb ----
EXTENDS ConfigDb, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
