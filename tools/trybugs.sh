#!/bin/bash
# For development: runs each planted change's own check (and more: ALSO="C01 C02") against it.
cd /verif/seeded && for b in ${@:-*}; do
	p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
	echo "$b: $(bash /verif/tools/trypatch.sh $b/patch.diff $p $ALSO 2>&1 | tr '\n' '|' | cut -c1-330)"
done
