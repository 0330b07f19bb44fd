#!/usr/bin/env python3
"""replay.py FILE: run a reported counterexample against the natively compiled code and show what happens"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from check import NativeRun
d = json.load(open(sys.argv[1]))
with vlib.Lock():
    exe = vlib.native()
r = NativeRun(exe)(d["entry"], d["inputs"])
print("property", d["property"], "entry", d["entry"], "check", d["check"])
for n in r["notes"]:
    print("  ", n)
print("failed checks:", r["fails"], "panics:", r["panics"], "finished:", r["end"] is not None)
sys.exit(1 if r["fails"] or r["panics"] or r["end"] is None else 0)
