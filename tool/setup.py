#!/usr/bin/env python3
"""builds the bounded stand-in once (the checks rebuild it from /repo anyway) and shows that the verifier starts"""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(ROOT, 'build', 'engine-target'))
r = subprocess.run(['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(ROOT, 'engine', 'Cargo.toml')], env=env)
v = subprocess.run(['verus', '--version'])
sys.exit(0 if r.returncode == 0 and v.returncode == 0 else 1)
