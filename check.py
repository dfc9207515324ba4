"""Run the check of one property: check.py PROPERTY [--thorough] [--replay FILE]."""

import os
import sys
from pathlib import Path

PYTHON = "/opt/venv/bin/python"
HERE = Path(__file__).resolve().parent

if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        os.environ.update(
            VERIF_CHILD="1",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            MPLBACKEND="Agg",
            OPENBLAS_NUM_THREADS="1",
            OMP_NUM_THREADS="1",
        )
        python = PYTHON if Path(PYTHON).exists() else sys.executable
        os.execv(python, [python, "-B", __file__, *sys.argv[1:]])
    sys.path.insert(0, str(HERE))
    from mc.core import main

    sys.exit(main(sys.argv[1:]))
