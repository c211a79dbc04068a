#!/bin/sh
# mktr.sh X...: the trace-validation wrapper of a specification
for x in "$@"; do
cat > $(dirname "$0")/../spec/TR_$x.tla <<E
---- MODULE TR_$x ----
EXTENDS $x, Json, IOUtils
VARIABLES tid, l, st
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceCheck
====
E
printf 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n' > $(dirname "$0")/../spec/TR_$x.cfg
done
