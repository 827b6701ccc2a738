#!/bin/bash
# Nothing is compiled: checks import /repo's working tree directly. Verify that the interpreter and libraries are there.
cd "$(dirname "$0")" && mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "import torch, numpy, scipy, matplotlib; print('ok', torch.__version__, numpy.__version__)"
