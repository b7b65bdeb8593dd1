"""setup_cmd: nothing to build; verify that the tools the checks need exist."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot  # noqa: E402

boot.import_hypothesis()
import hypothesis  # noqa: E402

os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
print("hypothesis", hypothesis.__version__)
