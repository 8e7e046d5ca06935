#!/usr/bin/env python3
"""builds the harness once (the checks rebuild it themselves when needed)"""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=here + "/target", RUSTFLAGS="--cap-lints allow")
subprocess.run(["cargo", "build", "--offline"], cwd=here + "/harness", env=e)
subprocess.run(["cargo", "build", "--offline"], cwd=here + "/vx", env=dict(e, CARGO_TARGET_DIR=here + "/target/vx"))
os.makedirs(here + "/evidence", exist_ok=True)
sys.exit(0)
