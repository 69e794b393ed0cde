_sxhere="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 TF_ENABLE_ONEDNN_OPTS=0
export TFX_DEPENDENCY_SELECTOR=NIGHTLY OMP_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1
export PYTHONPATH="$_sxhere/lib:${SX_REPO:-/repo}"
