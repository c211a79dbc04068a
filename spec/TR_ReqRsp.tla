---- MODULE TR_ReqRsp ----
EXTENDS ReqRsp, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
