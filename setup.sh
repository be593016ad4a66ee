#!/bin/bash
# nothing to install; the engine every check relies on is tested against migen.sim
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
mkdir -p evidence replays
export PYTHONPATH="$here/lib:$here/checks:/repo" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python tools/engine_test.py "${1:-80}" "${VERIF_SEED:-1}"
