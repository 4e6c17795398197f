#!/usr/bin/env python3
"""Checks that what the checks need is installed, and builds what they share (each check builds again what changed)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS
for t in (["g++", "--version"], ["python3", "--version"], ["valgrind", "--version"]):
    subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
done = set()
for p in PROPS.values():
    for ps in p.get("passes", ()):
        key = (ps.get("flavour", "asan"), tuple(ps["tus"]))
        if key not in done:
            done.add(key)
            print(vlib.build_harness(*key))
print(vlib.build_cli("asan"))
import bind
print(vlib.build_harness("asan", ["p_bind.cpp"]))
print(bind.build_python())
print(bind.build_r())
