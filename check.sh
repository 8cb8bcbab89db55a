#!/bin/bash
# check.sh ID: decides one property on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/utilxcheck" ] || [ -n "$(find "$here/checker" -maxdepth 1 -name '*.go' -newer "$here/bin/utilxcheck" | head -1)" ]; then
  bash "$here/setup.sh" || exit 2
fi
exec "$here/bin/utilxcheck" -prop "$1" -repo "${UTILX_REPO:-/repo}" -out "$here"
