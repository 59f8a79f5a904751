#!/bin/bash
# Nothing is compiled: the engine is Python. Check that what it needs is present.
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replays
exec /opt/venv/bin/python -c "from symx import boot; boot.load_repo(); print('z3', boot.z3.get_version_string(), 'jax', boot.jax.__version__)"
