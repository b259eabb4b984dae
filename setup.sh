#!/bin/bash
# Nothing to fetch or compile: Hypothesis is vendored. Builds the extensions once and
# proves that the code and the vendored library import.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
bash /opt/vp/build.sh --extensions >/dev/null
d=$(mktemp -d); mkdir -p "$d/astropy"
XDG_CACHE_HOME="$d" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/vendor:/repo/src" \
  "$PY" -W ignore -c "import hypothesis, pyuvdata; print('setup ok')"
rm -rf -- "$d"
