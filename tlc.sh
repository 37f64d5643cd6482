#!/bin/sh
# tlc with the specification directory on the module path; $JVM_OPTS extra JVM options
exec java ${JVM_OPTS:--XX:+UseSerialGC -Xmx2g -XX:TieredStopAtLevel=4} -Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet -DTLA-Library=/verif/spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE "$@"
