"""setup_cmd: checks the tools the framework needs and pre-builds the IR and native library (checks rebuild
them from /repo's current tree whenever the sources differ)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import build
print(build.ir_path())
print(build.native_path())
