""" Print the table of planted changes for DESIGN.md (not used by any check) """
import json, os
here = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
print ('| change | check | needs | breaks |\n| --- | --- | --- | --- |')
d = os.path.join (here, 'seeded')
for x in sorted (os.listdir (d)):
    with open (os.path.join (d, x, 'meta.json')) as fd:
        m = json.load (fd)
    print (f'| {x} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} |')
