"""python3 lib/addfix.py P06 <commit> <what>: record a repaired defect."""
import json, os, sys
p, c, w = sys.argv[1:4]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps({'status': 'fixed', 'property': p, 'commit': c, 'what': w, 'line': f'fixed: property={p} {c} {w}'}) + '\n')
