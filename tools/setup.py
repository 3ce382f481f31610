#!/usr/bin/env python3
"""Nothing has to be built: checks import the code from /repo as it is. This verifies that what they need is there."""
import os
import subprocess
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from pv.core import PY, SDK, worker_env  # noqa

subprocess.run([PY, "-c", "import pulumi, grpc, google.protobuf, dill, yaml, semver; print(pulumi.__file__)"], check=True,
               env=worker_env("/nonexistent"), cwd=root)
