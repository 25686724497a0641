# common environment: hermetic, single-threaded BLAS, private matplotlib cache
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/dst.XXXXXX")
trap 'rm -rf -- "$SCRATCH"' EXIT
cp /opt/vp/mplconfig/fontlist-*.json "$SCRATCH"/ 2>/dev/null
export MPLCONFIGDIR=$SCRATCH DST_SCRATCH=$SCRATCH
