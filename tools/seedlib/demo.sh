#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here:$PWD:$PWD/mllm-kernel" PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/mllm-venv/bin/python "$here/demo.py"
