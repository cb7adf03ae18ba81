#!/bin/sh
# developer helper: quiet TLC
cd /verif/spec; timeout ${T:-600} java -XX:+UseParallelGC -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -deadlock -metadir /tmp/m$$ -noGenerateSpecTE -config $2.cfg $1.tla > /tmp/o.txt 2>&1; grep -c '^"SCN' /tmp/o.txt; grep -v "^\"SCN" /tmp/o.txt | tail -${N:-8} | cut -c1-${W:-300}; rm -rf /tmp/m$$
