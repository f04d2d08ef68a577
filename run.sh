#!/bin/bash
# run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]: run one check against /repo's working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
cd "$here" || exit 3
exec /opt/venv/bin/python -m mc.main "$@"
