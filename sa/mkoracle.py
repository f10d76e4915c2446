"""Write the layout oracle from the current tree (run by hand after a review)."""
import os
import sys

from .codec import Program
from .layout import all_layouts
from .report import REPO, VERIF

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    with open(os.path.join(VERIF, "oracle", "layout.txt"), "w") as fh:
        for k, v in all_layouts(Program(REPO)).items():
            fh.write(f"{k} :: {v}\n")
