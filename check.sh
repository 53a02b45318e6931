#!/bin/bash
# check.sh <property> | check.sh replay <file>: builds from /repo's working tree and runs one check.
V=$(cd "$(dirname "$0")" && pwd)
A=$1
mkdir -p "$V/build"
OUT=$V/build/run-$A-$$
trap 'rm -rf "$OUT"' EXIT
T0=$(date +%s.%N)
if ! "$V/build.sh" "$OUT" > "$V/build/log-$$" 2>&1; then
  cat "$V/build/log-$$" >&2
  rm -f "$V/build/log-$$"
  echo "harness: build failed" >&2
  exit 2
fi
rm -f "$V/build/log-$$"
PREP=$(echo "$(date +%s.%N) - $T0" | bc 2>/dev/null || echo 0)
/usr/lib/jvm/java-21-openjdk-amd64/bin/java ${VSIM_JVM:--Xmx10g -Xms1g} -XX:+UnlockDiagnosticVMOptions -XX:+UseParallelGC -XX:MetaspaceSize=400m -XX:-BytecodeVerificationRemote -XX:-PrintWarnings \
  --add-opens java.base/java.lang=ALL-UNNAMED --add-exports java.base/jdk.internal.util=ALL-UNNAMED --add-exports java.base/jdk.internal.access=ALL-UNNAMED -Djdk.trackAllThreads=false -Dio.netty.leakDetection.level=disabled -Dio.netty.noUnsafe=false \
  -Dvsim.home="$V" -Dvsim.out="$OUT" -Dvsim.prep="$PREP" $VSIM_OPTS -cp "$V/build/sim:$("$V/cp.sh")" vsim.Main "$@"
