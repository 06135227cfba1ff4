"""Checks that what the simulator needs is present (nothing has to be built)."""
import ctypes
import json
import os
import sys

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
assert sys.version_info >= (3, 12), "sys.monitoring is needed"
ctypes.CDLL("libsqlite3.so.0")
import numpy, scipy, sqlalchemy, zstandard  # noqa: E401,F401,E402
for ln in open("properties.jsonl"):
    json.loads(ln)
json.load(open("MANIFEST.json"))
json.load(open("known_findings.json"))
os.makedirs("evidence", exist_ok=True)
print("simulator ready")
