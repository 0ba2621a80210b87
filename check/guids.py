"""The two conversions with unsafe code, proved for all values by Kani."""
import os
import re
import subprocess
import time

import pipeline as P


def check(tier, log):
    t0 = time.time()
    target = os.path.join(P.WORK, 'target-kani')
    P.forget(os.path.join(target, 'kani'))
    cmd = ['cargo', 'kani', '--target-dir', target]
    try:
        p = P.run(cmd, cwd=os.path.join(P.ROOT, 'kani'), timeout=400)
        text = p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        text = ''
    out = []
    for part in re.split(r'Checking harness ', text)[1:]:
        name = part.split('...')[0].strip()
        ok = 'VERIFICATION:- SUCCESSFUL' in part
        bad = 'VERIFICATION:- FAILED' in part
        n = re.search(r'\*\* (\d+) of (\d+) failed', part)
        if not ok and not bad:
            continue
        out.append({'tool': 'Kani (CBMC), all values', 'harness': name, 'ok': ok, 'checks': int(n.group(2)) if n else 0,
                    'failed': re.findall(r'Status: FAILURE\n\t - Description: "(.*?)"\n\t - Location: (.*)', part)[:5]})
    log('Kani: %d harnesses, %d proved, %.0fs' % (len(out), sum(e['ok'] for e in out), time.time() - t0))
    if len(out) < 2:
        log('Kani gave no answer for some harnesses:\n' + text[-1500:])
    return out
