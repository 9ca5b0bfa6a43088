"""prints the table of the planted bugs for DESIGN.md (argument: a file of lines 'ID CAUGHT|MISSED', optional)"""
import json, os, sys, glob
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | property | what it breaks | needs |\n|---|---|---|---|')
for d in sorted(glob.glob(base + '/*')):
    m = json.load(open(d + '/meta.json'))
    one = lambda t: ' '.join(str(t).replace('|', '/').split())
    print('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], one(m['what_it_breaks']), one(m['needs'])))
