---- MODULE TR_Sequencer ----
EXTENDS Sequencer, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
