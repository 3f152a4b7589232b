#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's working tree and run one check.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$here"
. "$here/env.sh"
cd "$here" || exit 2
"$here/setup.sh" >/dev/null || exit 2
exec "$here/harness/target/release/pbt" check "$id"
