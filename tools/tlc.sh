#!/bin/bash
# usage: tlc.sh [TLC args...]   (run in /verif/spec)
J=/opt/veriftools/tla
exec java -XX:+UseParallelGC -Xmx12g -Xss64m -cp $J/tla2tools.jar:$J/CommunityModules-deps.jar:/verif/target/java tlc2.TLC "$@"
