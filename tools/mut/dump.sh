#!/bin/bash
# dumps the behaviours of all properties to /tmp/mut/cache
mkdir -p /tmp/mut/cache
cd "$(dirname "$0")/../.."
for p in ${*:-$(node -e "import('./harness/props.mjs').then(m=>console.log(Object.keys(m.props).filter(k=>k[0]!='_').join(' ')))")}; do
  VERIF_DUMP=/tmp/mut/cache VERIF_EVIDENCE=/tmp/mut/ev node check.mjs $p >/dev/null 2>/tmp/mut/err-$p.txt || echo "$p failed"
done
for w in eval match bucket sort; do echo "{\"job\":{\"name\":\"trace-$w\",\"kind\":\"trace\",\"driver\":\"evaluation\",\"options\":{\"what\":\"$w\"}}}" > /tmp/mut/cache/trace-$w.json; done
ls -la /tmp/mut/cache | wc -l; du -sh /tmp/mut/cache
