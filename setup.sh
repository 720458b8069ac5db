#!/bin/bash
# Everything runs from the committed files; build the extensions once and make sure the tools start.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence work/replay
. /opt/vp/env.sh
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'harness'); import core; core.rebuild(); import mpmath, scipy, geoana" && java -version >/dev/null 2>&1
