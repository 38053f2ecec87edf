#!/bin/bash
# Nothing to build: the machinery is Python run by the repository's own
# interpreter.  Check that it and the references are importable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
HOME=/root CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 \
    PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c "
import torch, scipy, numpy, h5py, lal, lalsimulation, gwpy, bilby, astropy
import ml4gw
print('ok', torch.__version__, ml4gw.__file__)"
