"""Setup check: everything the simulator needs is importable from this sandbox."""
import os
import sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("DST_REPO", "/repo")]

if __name__ == "__main__":
    import joblib
    import numpy
    import pandas
    import sklearn

    import dst.backend  # noqa: F401
    import dst.learners  # noqa: F401
    print("python", sys.version.split()[0], "numpy", numpy.__version__, "pandas", pandas.__version__, "sklearn", sklearn.__version__,
          "joblib", joblib.__version__)
