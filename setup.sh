#!/bin/bash
# Nothing has to be compiled: the simulator is Python and imports the repository's working tree. This checks that it starts.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec env PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "
import tempfile, os, shutil
d = tempfile.mkdtemp(); os.environ['MPLCONFIGDIR'] = d
from dsim import envs
envs.boot(); shutil.rmtree(d); print('simulator ready')"
