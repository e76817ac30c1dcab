"""python3 tools/fixed.py CXX COMMIT 'what failed': record a repaired defect."""
import json
import sys
p = __file__.rsplit('/', 2)[0] + '/known_findings.json'
k = json.load(open(p))
k['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
