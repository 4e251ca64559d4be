"""Nothing to build: the checks import /repo's working tree directly.  Checks
that the interpreter and the packages the simulator needs are there."""
import importlib
import os
import sys

for m in ("numpy", "plotly", "tqdm", "django", "dj_database_url", "whitenoise"):
    importlib.import_module(m)
here = os.path.dirname(os.path.abspath(__file__))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(os.path.dirname(here), d), exist_ok=True)
print("setup ok", sys.version.split()[0])
