---- MODULE TR_FifoReg ----
EXTENDS FifoReg, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
