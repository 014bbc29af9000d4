#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]; decides one property on /repo's tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="${WMC_REPO:+$WMC_REPO:}$here"
export JAX_ENABLE_COMPILATION_CACHE=false CUDA_VISIBLE_DEVICES=
export HOME="${HOME:-/root}"
exec /opt/venv/bin/python -W ignore -m wmc.core "$1" "${2:-${VERIF_TIER:-quick}}" 2> >(grep -v -e cudart_stub -e port.cc -e absl::Init >&2)
