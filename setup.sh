#!/bin/bash
# Nothing to build: the framework is Python run by the repository's own interpreter. This checks that it starts.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:${VERIF_REPO:-/repo}" /opt/venv/bin/python -c '
from dst import env; env.pin()
import jax, fbs, dst.core, dst.worlds, dst.prng
print("setup ok: jax", jax.__version__)'
