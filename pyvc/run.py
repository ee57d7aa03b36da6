import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if V not in sys.path:
    sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc.harness import main
main(sys.argv[1:])
