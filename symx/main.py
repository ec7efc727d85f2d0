import sys
import warnings

warnings.simplefilter("ignore")
from symx.explore import run_check  # noqa: E402

if __name__ == "__main__":
    sys.exit(run_check(sys.argv[1]))
