#!/bin/bash
# builds the framework from the committed files, offline
cd "$(dirname "$0")" && exec python3 - <<'P'
import check, props, os
bins = sorted(p.lower() for p, c in props.PROPS.items() if "vcg" in c["parts"])
import formula
r = formula.build(check)
import verus
try:
    verus.bodies(check)
except check.NoAnswer as e:
    print('verus part not prepared:', e)
print("built in %.1fs" % check.build_vcg(bins))
P
