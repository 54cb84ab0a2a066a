"""python tools/fixed.py Cxx HASH 'what failed' — record a repaired defect."""
import json
import pathlib
import sys
p = pathlib.Path(__file__).resolve().parent.parent / 'known_findings.json'
k = json.loads(p.read_text())
k.append({'property': sys.argv[1], 'status': 'fixed',
          'what': 'fixed: property={} {} {}'.format(*sys.argv[1:4])})
k.sort(key=lambda e: e['property'])
p.write_text(json.dumps(k, indent=1, ensure_ascii=False) + '\n')
