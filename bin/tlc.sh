#!/bin/bash
# tlc.sh ARGS...: TLC with the overrides of java/boozspec (compiled to .work/classes).
exec java ${TLC_JAVA:--XX:+UseParallelGC -Xss64m} -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:boozspec.Overrides \
  -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:$(dirname "$0")/../.work/classes tlc2.TLC "$@"
