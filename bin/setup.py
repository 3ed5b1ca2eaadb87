#!/usr/bin/env python3
"""Builds what the checks need ahead of time (each check rebuilds from /repo when the sources changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
import vf
os.makedirs(vf.EVID, exist_ok=True)
jobs = [lambda: vf.build("lab.cpp"), vf.build_cli, vf.build_py]
def run(j):
    try:
        return j()
    except (vf.NotBuildable, vf.MachineryError) as e:
        print("note:", str(e)[:300])
vf.pmap(run, jobs)
print("setup done")
