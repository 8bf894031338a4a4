#!/bin/bash
cd /tmp/plant; for i in "$@"; do ./run.sh $i $(python3 -c "import json;print(json.load(open('$(echo ${SEED:-/verif/seeded})/$i/meta.json'))['property'])") | cut -c1-220; done
