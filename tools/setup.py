"""setup_cmd: extracts the AST and builds the replay libraries for the tree as it is (checks rebuild when it changes)."""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vp import native, lean
from vp.cxx import load_ast
load_ast(H + '/build')
for f in sorted(os.listdir(H + '/harness')):
    if f.endswith('.cpp'):
        native.build(f[:-4])
native.build_ext()
for pid in sorted(lean.MAIN):
    lean.check(pid)
