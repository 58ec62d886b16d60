#!/usr/bin/env python3
"""Builds the conformance driver (all profiles) from /repo's working tree and
checks that the specification parses.  The checks rebuild what changed."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import run  # noqa: E402

run.build(["dev", "release", "nochk"])
print("driver built")
