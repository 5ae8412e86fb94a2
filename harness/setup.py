"""Set-up: nothing to build; make sure the tools the checks need are there."""
import os
import subprocess
import sys

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for jar in JARS.split(":"):
    assert os.path.exists(jar), jar
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
assert os.path.exists("/opt/venv/bin/python")
os.makedirs("evidence", exist_ok=True)
sys.exit(0)
