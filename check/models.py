"""What the proof assumes about the standard library and the other crates, held against the real thing.

Numbers and single characters are proved for all values by Kani; maps, strings, streams and zlib are
compared on every input up to a stated size. Nothing here looks at /repo."""
import os
import re
import subprocess
import time

import pipeline as P

NUMBERS = ['model_u16', 'model_u32', 'model_u64', 'model_i16', 'model_i32', 'model_i64', 'model_f32', 'model_f64']
KANI = {'C05': NUMBERS, 'C04': ['model_utf16'], 'C17': ['model_space', 'model_u128']}
BOUNDED = {'C01': ['maps', 'hints', 'strings', 'streams', 'zlib', 'text'], 'C04': ['strings', 'streams'], 'C08': ['hints'], 'C10': ['zlib'],
           'C11': ['maps'], 'C12': ['maps'], 'C14': ['streams'], 'C15': ['streams', 'zlib'], 'C17': ['text'],
           'C19': ['maps', 'hints', 'strings', 'streams', 'zlib', 'text']}


def check(prop, log):
    """(entries for the evidence, models found wrong)"""
    t0 = time.time()
    here = os.path.join(P.ROOT, 'models')
    out, wrong = [], []
    if prop in BOUNDED:
        target = os.path.join(P.WORK, 'target-models')
        p = P.run(['cargo', 'build', '--offline', '--quiet', '--target-dir', target], cwd=here)
        if p.returncode == 0:
            p = P.run([os.path.join(target, 'debug', 'models')] + BOUNDED[prop], timeout=120)
            for line in p.stdout.splitlines():
                name, n, bound = line.split('\t')
                out.append({'model': name, 'tool': 'comparison with the real code', 'label': 'bounded, not counted as proved', 'cases': int(n), 'bound': bound})
            if p.returncode != 0:
                wrong.append((p.stdout + p.stderr)[-500:])
        else:
            log('comparison of models does not build:\n' + p.stderr[-500:])
    if prop in KANI:
        cmd = ['cargo', 'kani', '--lib', '--target-dir', os.path.join(P.WORK, 'target-models-kani'), '--exact']
        for h in KANI[prop]:
            cmd += ['--harness', h]
        try:
            text = P.run(cmd, cwd=here, timeout=240).stdout
        except subprocess.TimeoutExpired:
            text = ''
        for part in re.split(r'Checking harness ', text)[1:]:
            name = part.split('...')[0].strip()
            n = re.search(r'\*\* (\d+) of (\d+) failed', part)
            if 'VERIFICATION:- SUCCESSFUL' in part:
                out.append({'model': name, 'tool': 'Kani (CBMC), all values', 'checks': int(n.group(2)) if n else 0})
            elif n and int(n.group(1)) > 0:
                wrong.append(name)
    if prop in BOUNDED or prop in KANI:
        log('models held against the real code: %d agree, %d do not, %.0fs' % (len(out), len(wrong), time.time() - t0))
    return out, wrong
