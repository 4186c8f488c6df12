#!/bin/bash
# Nothing to build: the monitors are interpreted. Verifies that the toolchain is usable.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH="$PWD:/repo/src" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import numpy, scipy, jax, fmmax, vk.run; print('setup ok', jax.__version__, fmmax.__file__)"
