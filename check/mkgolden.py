#!/usr/bin/env python3
"""Records, for the reference copy, what loops each function has and what the extractor leaves out."""
import json
import os

import pipeline as P

P.build_tools()
ex = P.extract(P.expand(os.path.join(P.ROOT, 'golden'), 'golden'), 'golden')
d = {'loops': {i['key']: P.loop_heads(i['body']) for i in ex['items'] if i['kind'] == 'fn' and i['loops']}, 'dropped': sorted(ex['dropped'])}
json.dump(d, open(os.path.join(P.ROOT, 'golden', 'shape.json'), 'w'), indent=1, sort_keys=True)
