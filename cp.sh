#!/bin/bash
# Prints the jars the simulator and /repo need.
N=$(find /root/.gradle /root/.m2 -name 'netty-buffer-4*.jar' -o -name 'netty-common-4*.jar' 2>/dev/null | grep -v sources | sort | tr '\n' ':')
echo "${N}/opt/veriftools/java/bytecode/asm-9.7.1.jar:/opt/veriftools/java/bytecode/asm-tree-9.7.1.jar:/opt/veriftools/java/spotbugs/asm-commons-9.7.1.jar"
