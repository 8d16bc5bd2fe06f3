#!/bin/bash
# run all claimed checks (or those given) in parallel; summary lines
cd "$(dirname "$0")/.."
T=${TIER:-quick}
L=${*:-$(python3 -c "
import json
print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
printf '%s\n' $L | xargs -P 6 -I{} sh -c 'python3 check.py {} '$T' > /tmp/all.{}.out 2>&1; echo "rc=$? $(head -1 /tmp/all.{}.out | cut -c1-150)"; grep -h "note: \(undec\|.*analysis err\)" /tmp/all.{}.out | head -${N:-2} | cut -c1-260; grep -hE "^  /|^VIOL|^KNOWN|Error" /tmp/all.{}.out | head -${N:-3} | cut -c1-330'
