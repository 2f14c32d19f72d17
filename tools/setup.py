"""Nothing to build: checks that the tools and the library can be loaded."""
import os, subprocess, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import engine
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
out, gen, dist, rc = engine.tlc("RxGen.tla", "RxGen.cfg", {"RX_SUITE": "creators"})
assert rc == 0 and dist, out
print("ok", dist)
