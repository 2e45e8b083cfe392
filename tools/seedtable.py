"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| change | property and check | what it breaks | needs |\n|---|---|---|---|')
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, 'meta.json')))
    print('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' ')))
