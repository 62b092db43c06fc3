#!/usr/bin/env python3
"""Nothing to install: checks the tools are there and parses every specification."""
import subprocess, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tool in (["java", "-version"], ["/root/.cargo/bin/cargo", "--version"]):
    subprocess.run(tool, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("ok")
