#!/bin/bash
# build.sh [OUT]: compiles the simulator (when needed), and /repo's main sources and the bridge into OUT.
set -e
export LANG=C.UTF-8 LC_ALL=C.UTF-8
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VSIM_REPO:-/repo}
OUT=${1:-$V/build/default}
J=/usr/lib/jvm/java-21-openjdk-amd64/bin/javac
CP=$("$V/cp.sh")
S=$V/build/sim
if [ ! -f "$S/.done" ] || [ -n "$(find "$V/sim" -newer "$S/.done" -name '*.java' | head -1)" ]; then
  T=$V/build/sim.$$
  mkdir -p "$T"
  "$J" -nowarn -XDignore.symbol.file -encoding UTF-8 -proc:none -cp "$CP" -d "$T" $(find "$V/sim" -name '*.java')
  touch "$T/.done"
  rm -rf "$V/build/sim"
  mv "$T" "$S"
fi
if [ "$1" = "simonly" ]; then exit 0; fi
rm -rf "$OUT"
mkdir -p "$OUT/repo" "$OUT/bridge"
find "$REPO" -path '*/src/main/java/*' -name '*.java' -not -path '*/build/*' > "$OUT/sources.txt"
# as the repository's own build does it: Java 8 language, the library of JDK 11
R=/usr/lib/jvm/java-11-openjdk-amd64/bin/javac
LEVEL="-source 8 -target 8"
if [ ! -x "$R" ]; then R=$J; LEVEL="--release 8"; fi
"$R" -J-XX:TieredStopAtLevel=1 -nowarn -g -encoding UTF-8 -proc:none $LEVEL -Xlint:-options -cp "$CP" -d "$OUT/repo" @"$OUT/sources.txt"
"$J" -J-XX:TieredStopAtLevel=1 -nowarn -encoding UTF-8 -proc:none -cp "$CP:$S:$OUT/repo" -d "$OUT/bridge" "$V"/bridge/*.java
