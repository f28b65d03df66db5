""" Record the literals of the sources (run once; the result is committed) """
import json, os, sys
here = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
sys.path.insert (0, here)
from harness import gen
with open (os.path.join (here, 'harness', 'literals.json'), 'w') as fd:
    json.dump ([sorted (x) for x in gen.scan ()], fd, indent=0)
    fd.write ('\n')
