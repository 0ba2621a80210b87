"""Source tree -> expanded source -> extracted items -> Verus file -> obligations."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(ROOT, 'work')
PROOF = os.path.join(ROOT, 'proof')
EXTRACT = os.path.join(WORK, 'target-extract', 'release', 'extract')
VERUS = 'verus'
NPROC = 8

sys.path.insert(0, os.path.join(ROOT, 'check'))
sys.path.insert(0, PROOF)
import assemble  # noqa: E402
import contracts  # noqa: E402
import dsl  # noqa: E402
import extra  # noqa: E402


class Broken(Exception):
    """The tooling itself cannot answer."""


def run(cmd, cwd=None, timeout=900, env=None, stdin=None):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, input=stdin)


def build_tools():
    os.makedirs(WORK, exist_ok=True)
    p = run(['cargo', 'build', '--offline', '--release', '--quiet', '--target-dir', os.path.join(WORK, 'target-extract')],
            cwd=os.path.join(ROOT, 'tools', 'extract'))
    if p.returncode != 0:
        raise Broken('extractor does not build:\n' + p.stderr[-4000:])


def forget(target, crate='gvas'):
    """Makes cargo compile the crate again, whatever its files' dates say."""
    for d in glob.glob(os.path.join(target, '*', '.fingerprint', crate + '-*')):
        if not os.path.basename(d).startswith(crate + '-golden'):
            shutil.rmtree(d, ignore_errors=True)


def expand(crate, name):
    """The crate's library with all macros expanded by the compiler."""
    forget(os.path.join(WORK, 'target-expand-' + name))
    p = run(['cargo', 'rustc', '--offline', '--lib', '--target-dir', os.path.join(WORK, 'target-expand-' + name), '--', '-Zunpretty=expanded'],
            cwd=crate, env={'RUSTC_BOOTSTRAP': '1'})
    if p.returncode != 0 or not p.stdout.strip():
        raise Broken('%s does not compile:\n%s' % (crate, p.stderr[-4000:]))
    out = os.path.join(WORK, 'expanded-%s.rs' % name)
    open(out, 'w').write(p.stdout)
    return out


def extract(expanded, name):
    keys = os.path.join(WORK, 'keys-%s.txt' % name)
    # functions with a contract stay functions; all others are inlined where called
    open(keys, 'w').write('\n'.join(k for k in contracts.C if not k.startswith(('trait ', 'impl ', 'const '))))
    p = run([EXTRACT, expanded, keys])
    if p.returncode != 0:
        raise Broken('extraction failed: ' + p.stderr[-3000:])
    return json.loads(p.stdout)


def spec_text():
    return (open(os.path.join(PROOF, 'glue.rs')).read() + dsl.expand(contracts.SPEC)
            + ''.join(dsl.expand(open(f).read()) for f in sorted(glob.glob(os.path.join(PROOF, 's_*.rs')))))


def loop_heads(body):
    """What each loop iterates over, for telling whether an invariant still belongs to it."""
    out = []
    for m in re.finditer(r'/\*@INV (\d+)\*/', body):
        k = int(m.group(1))
        # the iterator set up for this loop, the loop condition and the binding
        it = re.search(r'let mut __it%d = (.*?);' % k, body, re.S)
        head = body[body.rfind('\n', 0, m.start()) + 1:m.start()]
        rest = body[m.end():].split(';', 1)[0]
        out.append(re.sub(r'\s+', ' ', (it.group(1) if it else '') + ' | ' + head + ' | ' + (rest if '__it%d' % k in rest else '')).strip())
    return out


def loops_differ(item, gold):
    """Are these other loops than the ones the invariants were written for?"""
    return item.get('loop_helper') or loop_heads(item['body']) != gold['loops'].get(item['key'], [])


VERIF_MSG = re.compile(
    r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|'
    r'possible bit shift|decreases not satisfied|could not prove termination|recommendation not met|unreached|possible panic|'
    r'loop invariant|not satisfied (before|at end)|fails? to satisfy|index out of bounds|possible out of bounds')
LIMIT_MSG = re.compile(r'[Rr]esource limit|rlimit|timed? ?out|canceled')


class Verdict:
    def __init__(self):
        self.failures = []      # dicts: key, tag, message, text
        self.skipped = {}       # key -> reason (outside the verifier's reach)
        self.unmapped = []      # errors that belong to no function
        self.limits = []        # keys on which the solver gave up
        self.canaries = 0
        self.canaries_failed = 0
        self.vacuous = []
        self.verified = 0
        self.errors = 0
        self.functions = []
        self.trusted = []
        self.lost = {}
        self.times = {}
        self.wall = 0.0
        self.file = ''
        self.reruns = 0
        self.clauses = {}


def locate(a, line):
    return [k for f, l, k in a.o.spans if f <= line <= l]


def marks_at(a, line):
    return [(kind, key, tag) for f, l, kind, key, tag in a.o.marks if f <= line <= l]


def verify(ex, only=None, name='t', canary=True, extra_skip=None, log=print):
    """Verifies the bodies in `only` (None = all that have a contract)."""
    v = Verdict()
    prelude = open(os.path.join(PROOF, 'prelude.rs')).read() + extra.pick(ex['items'])
    specs = spec_text()
    skip = dict(extra_skip or {})
    present = {i['key'] for i in ex['items'] if i['kind'] == 'fn'}
    for i in ex['items']:
        if i['kind'] == 'fn' and i['key'] in contracts.C and i['problems'] and not contracts.C[i['key']].get('external'):
            skip[i['key']] = 'not translatable: ' + '; '.join(i['problems'])
    v.missing = sorted(k for k in contracts.C if not k.startswith(('trait ', 'impl ', 'impl<', 'const ', 'TryFrom<', 'CustomVersionTrait')) and k not in present)
    t0 = time.time()
    for attempt in range(8):
        v.reruns = attempt
        a = assemble.Assembler(json.loads(json.dumps(ex)), contracts.C, prelude, specs, only=only, canary=canary, skip=skip.keys())
        text = a.build()
        path = os.path.join(WORK, name + '.rs')
        open(path, 'w').write(text)
        v.file = path
        v.cmd = [VERUS, path, '--num-threads', str(NPROC), '--time', '--output-json', '--error-format=json', '--multiple-errors', '9']
        try:
            p = run(v.cmd, cwd=WORK, timeout=780)
        except subprocess.TimeoutExpired:
            v.unmapped.append('verifier did not finish')
            break
        lines = text.split('\n')
        try:
            res = json.loads(p.stdout)
        except Exception:
            res = {}
        vr = res.get('verification-results', {})
        bad = {}
        unmapped = []
        failures = []
        canary_hit = set()
        limits = []
        for line in p.stderr.split('\n'):
            if not line.startswith('{'):
                continue
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d.get('level') != 'error' or d['message'].startswith('aborting due'):
                continue
            spans = [(s['line_start'], s.get('is_primary'), s.get('label') or '', os.path.basename(s.get('file_name', ''))) for s in d.get('spans', [])]
            spans = [s for s in spans if s[3] in ('', name + '.rs')]
            keys = [k for s in spans for k in locate(a, s[0])]
            mk = [m for s in spans for m in marks_at(a, s[0])]
            hit = [m for m in mk if m[0] == 'canary']
            if hit:
                canary_hit.add((hit[0][1], hit[0][2], spans[0][0]))
                continue
            if VERIF_MSG.search(d['message']):
                tags = [m for m in mk if m[0] == 'ensures']
                tag = tags[0][2] if tags else 'PRE' if any(m[0] == 'requires' for m in mk) else 'INV' if 'invariant' in d['message'] else 'BODY'
                # the function the failure is in: for a trait's postcondition, the impl
                key = keys[0] if keys else None
                if key is None and tags:
                    key = tags[0][1]
                if key is None:
                    unmapped.append(d['message'])
                    failures.append({'key': '?', 'tag': tag, 'message': d['message'], 'text': d.get('rendered', '')})
                    continue
                failures.append({'key': key, 'tag': tag, 'message': d['message'],
                                 'clause': [lines[s[0] - 1].strip() for s in spans][:4],
                                 'text': d.get('rendered', '')})
            elif LIMIT_MSG.search(d['message']):
                limits += keys[:1] or ['?']
            elif keys:
                bad.setdefault(keys[0], d['message'][:300])
            else:
                unmapped.append(d['message'][:600] + ' @ ' + ' / '.join(lines[s[0] - 1].strip()[:160] for s in spans[:2]))
        new = {k: m for k, m in bad.items() if k not in skip}
        if new:
            log('  outside the verifier\'s reach: ' + '; '.join('%s (%s)' % (k, m.split('\n')[0][:120]) for k, m in new.items()))
            for k, m in new.items():
                skip[k] = 'not accepted by the verifier: ' + m.split('\n')[0]
            continue
        v.failures = failures
        v.unmapped = unmapped
        v.limits = limits
        v.verified = vr.get('verified', 0)
        v.errors = vr.get('errors', 0)
        v.canaries = a.canaries
        v.canaries_failed = len(canary_hit)
        if vr.get('verified') is not None and not unmapped:
            want = {(key, tag, f) for f, l, kind, key, tag in a.o.marks if kind == 'canary'}
            v.vacuous = sorted('%s (%s)' % (k, t) for k, t, _ in want - canary_hit)
        v.functions = a.verified
        v.trusted = a.trusted
        v.lost = dict(a.lost_anchors)
        for f, l, kind, key, tag in a.o.marks:
            if kind in ('ensures', 'requires'):
                v.clauses.setdefault(key, []).append(tag)
        v.times = res.get('times-ms', {})
        break
    else:
        v.unmapped.append('too many functions outside the verifier\'s reach')
    v.skipped = skip
    v.wall = time.time() - t0
    return v


class Lemmas:
    def __init__(self):
        self.verified = 0
        self.failed = []        # (function, message)
        self.trouble = []
        self.guards = []        # functions that must not verify
        self.guards_failed = []
        self.cmd = []
        self.wall = 0.0


def lemmas(ex, name):
    """The lemmas that join the contracts of writing and reading (proof/rt).  They
    speak about contracts only, so no function body is verified here."""
    r = Lemmas()
    t0 = time.time()
    rt = ''.join(dsl.expand(open(f).read()) for f in sorted(glob.glob(os.path.join(PROOF, 'rt', 'r_*.rs'))))
    a = assemble.Assembler(json.loads(json.dumps(ex)), contracts.C, open(os.path.join(PROOF, 'prelude.rs')).read() + extra.pick(ex['items']), spec_text() + rt, only=set(), canary=False)
    text = a.build()
    path = os.path.join(WORK, name + '.rs')
    open(path, 'w').write(text)
    lines = text.split('\n')
    r.guards = sorted(set(re.findall(r'\bfn (\w+_must_fail)\b', rt)))
    r.cmd = [VERUS, path, '--num-threads', str(NPROC), '--output-json', '--error-format=json', '--rlimit', '60']
    try:
        p = run(r.cmd, cwd=WORK, timeout=600)
        vr = json.loads(p.stdout).get('verification-results', {})
    except Exception as e:
        r.trouble.append('lemmas: verifier did not answer (%s)' % type(e).__name__)
        return r
    hit = set()
    for line in p.stderr.split('\n'):
        if not line.startswith('{'):
            continue
        d = json.loads(line)
        if d.get('level') != 'error' or d['message'].startswith('aborting due'):
            continue
        at = [s['line_start'] for s in d.get('spans', []) if s.get('is_primary')] or [1]
        fn = next((m.group(1) for m in (re.search(r'\bfn (\w+)', lines[n]) for n in range(at[0] - 1, -1, -1)) if m), '?')
        if fn in r.guards and VERIF_MSG.search(d['message']):
            hit.add(fn)
        elif VERIF_MSG.search(d['message']):
            r.failed.append((fn, d['message']))
        else:
            r.trouble.append('lemmas: %s: %s' % (fn, d['message'][:300]))
    r.guards_failed = sorted(hit)
    r.verified = vr.get('verified', 0)
    if not r.verified:
        r.trouble.append('lemmas: nothing verified')
    elif r.guards_failed != r.guards:
        r.trouble.append('lemmas: a must-fail guard did not fail')
    r.wall = time.time() - t0
    return r


def assumptions():
    """Everything the proof takes for granted, found by scanning the text that is verified."""
    out = []
    files = ([os.path.join(PROOF, 'prelude.rs')] + [os.path.join(PROOF, 'glue.rs')] + sorted(glob.glob(os.path.join(PROOF, 's_*.rs')))
             + sorted(glob.glob(os.path.join(PROOF, 'rt', 'r_*.rs'))))
    for f in files:
        lines = open(f).read().split('\n')
        for n, l in enumerate(lines):
            c = l.split('//')[0]
            for pat in (r'\bassume\s*\(', r'\badmit\s*\(', r'external_body', r'assume_specification', r'\baxiom fn', r'\buninterp\b', r'external_fn_specification'):
                if re.search(pat, c):
                    t = c.strip()
                    if t.startswith('#[') and t.endswith(']') and n + 1 < len(lines):
                        t = t + ' ' + lines[n + 1].strip()
                    out.append('%s:%d %s' % (os.path.basename(f), n + 1, t[:160]))
                    break
    for k, c in contracts.C.items():
        if c.get('external'):
            out.append('contract of %s is assumed by the verifier (unsafe code)' % k)
        txt = ' '.join([c.get('top', '')] + [str(x) for kk in ('inv', 'before', 'body', 'end', 'after') for x in c.get(kk, {}).values()])
        if re.search(r'\b(assume|admit)\s*\(', txt):
            out.append('assume/admit in the proof of ' + k)
    return out
