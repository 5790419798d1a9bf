"""prints the table of planted bugs for DESIGN.md"""
import json, os
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
rows = []
for d in os.listdir(S):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append((m['property'], d, m['what_it_breaks'], m['needs']))
for p, d, b, n in sorted(rows):
    print('| %s | %s | %s (needs: %s) |' % (d, p, b, n))
