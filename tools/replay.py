#!/usr/bin/env python3
"""replay.py ENTRY PARAMS|- FILE [u|wf]: run a counterexample against /repo's real code (valgrind if present)"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build as B
exe = B.build_replay({"unicode": "u"}.get(sys.argv[4], sys.argv[4]) if len(sys.argv) > 4 else "")
sys.exit(subprocess.run([exe] + sys.argv[1:4]).returncode)
