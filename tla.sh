#!/bin/bash
# tla.sh MODULE.tla CONFIG [TLC options]: TLC with the rational-arithmetic overrides
D=$(cd "$(dirname "$0")" && pwd)
exec java -XX:+UseParallelGC ${TLC_JAVA} -DTLA-Library=$D/spec -cp $D/build:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir /tmp/w/md$$ -config $2 ${@:3} $1
