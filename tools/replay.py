#!/usr/bin/env python3
"""replay.py PROPERTY CONFIG@CRATE ENTRY:PARAMS TAPE"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild, spec
pid, cc, ep, tape = sys.argv[1:5]
cfg, crate = cc.split("@")
run = next(r for r in spec.PROPS[pid]("thorough")["runs"] if r["config"] == cfg and r["crate"] == crate)
h = irbuild.build_harness(crate, cfg, features=run.get("features", ()), rustflags=run.get("rustflags", ()), mock=run.get("mock", False), bootstrap=run.get("bootstrap", False), alts=run.get("alts", ()))
e, p = ep.split(":")
sys.exit(subprocess.run([h["binary"], "one", e, p, tape]).returncode)
