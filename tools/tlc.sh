#!/bin/sh
# tlc.sh TRACE  -> checks one recording
R="$(cd "$(dirname "$0")/.." && pwd)"
TRACE="$1" exec java -XX:+UseSerialGC -Xmx3g -Xss64m -XX:TieredStopAtLevel=4 -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir "$(mktemp -d /tmp/tlc.XXXXXX)" -config "$R/spec/Trace.cfg" "$R/spec/Trace.tla"
