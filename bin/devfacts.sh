#!/bin/bash
# development helper: extract the facts of /repo's current tree into $1 (default /var/tmp/vt/facts)
d=${1:-/var/tmp/vt/facts}; V=$(cd "$(dirname "$0")/.." && pwd)
rm -rf "$d"; mkdir -p "$d"
cd "$V" && env -u VERIF_FACTS_DIR python3 - "$d" <<'P'
import sys, shutil; sys.path.insert(0, "lib")
from core import Ctx
c = Ctx("dev", "quick"); c.facts(); import os
src = os.path.join(c.tmp, "facts")
for f in os.listdir(src): shutil.copy(os.path.join(src, f), sys.argv[1])
shutil.rmtree(c.tmp)
print(c.cov)
P
