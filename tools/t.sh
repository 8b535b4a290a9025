#!/bin/bash
# check one model: tools/t.sh MODULE CFG  -> statistics, errors
cd "$(dirname "$0")/../specs"; (time java -XX:+UseParallelGC -Xmx8g -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir /tmp/tlcmeta$$ -config $2 $1.tla) > /tmp/o-$1.txt 2>&1; grep -v '^"@@\|^Parsing\|^Semantic proc\|^Linting\|^Warning\|^(Use\|^TLC2' /tmp/o-$1.txt | head -${3:-40}; grep -c '^"@@' /tmp/o-$1.txt; rm -rf /tmp/tlcmeta$$
