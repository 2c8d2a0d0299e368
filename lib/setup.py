"""setup_cmd: makes sure that everything the checks need is there, and warms the Go build cache."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common

ctx = common.Ctx("setup", "quick", 1)
try:
    ctx.build()
    subprocess.run(["java", "-version"], check=True, capture_output=True, env=common.env())
finally:
    ctx.cleanup()
print("ready")
