#!/bin/bash
# dev helper: run every registered quick check, one line each; anything but "proof redone" deserves a look
cd "$(dirname "$0")/.."
for p in ${*:-$(python3 -c "import json;print(*json.load(open('checks.json')))")}; do
  s=$(date +%s); python3 bin/check.py $p --tier quick > /tmp/all.$p 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(tail -1 /tmp/all.$p)"
done
