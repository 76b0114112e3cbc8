#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check builds what it needs from /repo); it checks the tools are there."""
import subprocess, os, sys
e = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-08-21", CARGO_NET_OFFLINE="true")
p = subprocess.run(["cargo", "kani", "--version"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(p.stdout.strip())
sys.exit(p.returncode)
