#!/bin/bash
# Builds the harness crates once, so that a broken toolchain or crate shows up before any check runs.
# Checks do not depend on this: each builds what it needs.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'PY'
import sys
sys.path.insert(0, ".")
import check
for crate in sorted({p["crate"] for p in check.PROPS.values()}):
    for v in sorted({v["variant"] for p in check.PROPS.values() if p["crate"] == crate for v in p["quick"]}):
        try:
            check.build(crate, v)
        except check.Refused as x:
            print("setup:", crate, v, x)
        except check.NoVerdict as x:
            print("setup:", crate, v, x)
            if v in ("native", "asan"):
                sys.exit(1)
PY
