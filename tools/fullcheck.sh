#!/bin/bash
# Every registered check once, on /repo as it is.
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do ./run.sh $p 2>&1 | cut -c1-300; done
