"""Compiles JavaScript templates in another process."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tklib import env  # noqa: E402

env.add_paths()
from tklib import js, real  # noqa: E402

for line in sys.stdin:
    sources, kw = json.loads(line)
    print(json.dumps(real.outcome(lambda: {k: js.compile_js(s, k, **kw) for k, s in sources.items()})[:2]), flush=True)
