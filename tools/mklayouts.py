""" Record the packaged layouts (run once; the result is committed) """
import json, os, sys
here = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
sys.path.insert (0, here)
from harness import model
with open (os.path.join (here, 'harness', 'layouts.json'), 'w') as fd:
    json.dump (model.packaged (), fd, indent=0, sort_keys=False)
    fd.write ('\n')
