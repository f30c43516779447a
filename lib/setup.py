"""setup_cmd: checks the tool chain and builds the most used harness once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
print(vbuild.build([("h_machine", "plain")]))
