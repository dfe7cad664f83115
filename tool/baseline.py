#!/usr/bin/env python3
"""Record the tokens of every function under contract (on the tree the contracts were written for), so that
contracts follow renamed variables and a change of the loop structure counts as a lost anchor."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
b = gen.baseline_tokens(gen.load_overlays())
with open(os.path.join(gen.CON, 'baseline.json'), 'w') as f:
    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(b[k])) for k in sorted(b)) + '\n}\n')
print(len(b), 'functions')
