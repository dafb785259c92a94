#!/bin/bash
# Nothing to build: checks that the interpreter and the libraries are there.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python - <<'P' || exit 1
import numpy, scipy, sklearn, pymanopt, autograd, joblib, tqdm
import rv.core
print('numpy', numpy.__version__, 'scipy', scipy.__version__,
      'sklearn', sklearn.__version__)
P
mkdir -p evidence
