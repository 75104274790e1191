#!/bin/bash
# nothing is compiled: the checks import /repo's working tree. Verify that the interpreter can do so.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python - <<'PY'
import sys
import RMutils.util_RM, RMutils.util_misc
print("using", RMutils.util_RM.__file__, sys.version.split()[0])
PY
