#!/bin/bash
# Everything is built on demand by ./check; this only verifies the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence replays
/opt/mllm-venv/bin/python -c "import torch, zmq" || exit 1
exit 0
