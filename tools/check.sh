#!/bin/bash
# check.sh ID...: analyses /repo's working tree.
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
if [ ! -x "$here/build/verifchk" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$here/build/verifchk" -not -path '*/vendor/*' -print -quit)" ]; then
  bash "$here/tools/setup.sh" || exit 2
fi
export VERIF_OUT="${VERIF_OUT:-$here}"
exec "$here/build/verifchk" check "$@"
