#!/bin/bash
# Checks that everything the checks need is there; builds nothing.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES=-1
export TF_CPP_MIN_LOG_LEVEL=3 PYTHONPATH="/repo:$here" PYTHONWARNINGS=ignore
cd "$here" || exit 2
exec /opt/venv/bin/python -c '
import tensorflow as tf, numpy as np, t3f
from harness import hypo
import hypothesis
print("tensorflow", tf.__version__, "hypothesis", hypothesis.__version__, t3f.__file__)
'
