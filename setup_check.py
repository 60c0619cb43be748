"""Verifies that the tools the checks need are there."""

import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from tklib import env  # noqa: E402

env.add_paths()
import hypothesis  # noqa: E402,F401

for tool in ("gcc", "node"):
    if not shutil.which(tool):
        sys.exit("%s is missing" % tool)
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), d), exist_ok=True)
print("ready, hypothesis", hypothesis.__version__)
