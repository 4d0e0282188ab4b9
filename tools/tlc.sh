#!/bin/bash
# tlc.sh MODULE cfg [workers]
cd "$(dirname "$0")/../spec"; D=$(mktemp -d /tmp/mdXXXX); timeout ${T:-600} java -Xmx12g -Xss64m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:$(ls -td ../build/classes-* | head -1) -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:spasm.Overrides tlc2.TLC -workers ${3:-8} -metadir $D -noGenerateSpecTE -config $2.cfg $1.tla 2>&1; rm -rf $D
