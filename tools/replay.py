#!/usr/bin/env python3
"""replay.py <file>: run a reported counterexample against the native build"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import native
r = json.load(open(sys.argv[1]))
p = json.load(open(os.path.join(V, "build/paths.json")))
n = native.run(p, r["harness"], r["args"], r["input_bytes"])
print(n.text)
sys.exit(1 if n.failed else 0)
