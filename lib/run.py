import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import mbv
pid = sys.argv[1]
def main(ck):
    importlib.import_module(pid.lower()).main(ck)
mbv.run(pid, main)
