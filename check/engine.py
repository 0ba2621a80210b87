"""Searches for a concrete input on which /repo's code and the reference copy differ."""
import difflib
import glob
import json
import os
import re
import resource
import signal
import subprocess
import time

import pipeline as P

TARGET = os.path.join(P.WORK, 'target-engine')
BIN = os.path.join(TARGET, 'debug', 'engine')
TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|\'(?:\\u\{\w+\}|\\x\w\w|\\.|[^\'\\])\'|\w+|\S', re.S)


def tokens(text):
    return [m.group(0) for m in TOKEN.finditer(text) if not m.group(0).startswith(('//', '/*'))]


def sources(d):
    out = {}
    for f in sorted(glob.glob(os.path.join(d, 'src', '**', '*.rs'), recursive=True)):
        out[os.path.relpath(f, d)] = open(f, errors='replace').read()
    return out


def changed():
    """Source files whose tokens differ from the reference copy's (comments do not count)."""
    a, b = sources(P.REPO), sources(os.path.join(P.ROOT, 'golden'))
    out = [f for f in sorted(set(a) | set(b)) if tokens(a.get(f, '')) != tokens(b.get(f, ''))]
    return out


# a narrower integer type on a changed line is a limit too
WIDTH = {'u8': 255, 'i8': 127, 'u16': 65535, 'i16': 32767}


SCALARS = ['BoolProperty', 'ByteProperty', 'DoubleProperty', 'FloatProperty', 'Int16Property', 'Int64Property', 'Int8Property', 'IntProperty',
           'UInt16Property', 'UInt32Property', 'UInt64Property']
# which inputs have most to do with a file: kinds of values, or parts of the generator
FOCUS = {'array': ['ArrayProperty'], 'set': ['SetProperty'], 'map': ['MapProperty'], 'struct': ['StructProperty'], 'text': ['TextProperty'],
         'delegate': ['DelegateProperty', 'MulticastInlineDelegateProperty', 'MulticastSparseDelegateProperty'], 'enum': ['EnumProperty'],
         'field_path': ['FieldPathProperty'], 'name': ['NameProperty'], 'object': ['ObjectProperty'], 'str': ['StrProperty'],
         'unknown': ['UnknownProperty', 'ArrayProperty', 'SetProperty'], 'int': SCALARS}
PARTS = {'cursor_ext.rs': [0], 'lib.rs': [2, 4, 5], 'engine_version.rs': [2], 'custom_version.rs': [2, 3], 'savegame_version.rs': [2], 'object_version.rs': [2],
         'ord_ext.rs': [2], 'types.rs': [3, 2], 'game_version.rs': [4], 'scoped_stack_entry.rs': [4]}


def literal(t):
    """The text of a string or character literal."""
    esc = {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}
    t = re.sub(r'\\u\{([0-9a-fA-F_]+)\}|\\x([0-9a-fA-F]{2})|\\(.)',
               lambda m: chr(int((m.group(1) or m.group(2)).replace('_', ''), 16)) if m.group(3) is None else esc.get(m.group(3), m.group(3)), t[1:-1], flags=re.S)
    return t


def mine():
    """Literals of the changed lines and what the changed files are about, as hints for the input generator."""
    a, b = sources(P.REPO), sources(os.path.join(P.ROOT, 'golden'))
    strs, nums = set(), set()
    for f in sorted(set(a) | set(b)):
        for l in difflib.unified_diff(b.get(f, '').split('\n'), a.get(f, '').split('\n'), n=1, lineterm=''):
            if l[:3] in ('---', '+++') or not l or l[0] not in '+- ':
                continue
            for x, op, y in re.findall(r'(?<![\w.])(\d+)\w*\s*(<<|\*)\s*(\d+)', l.replace('_', '')):
                if op == '*' or int(y) < 64:
                    nums.add(int(x) << int(y) if op == '<<' else int(x) * int(y))
            for t in tokens(l[1:]):
                if l[0] in '+-' and t in WIDTH:
                    nums.add(WIDTH[t])
                if t[0] in '"\'' and len(t) > 2:
                    try:
                        strs.add(literal(t))
                    except ValueError:
                        pass
                elif re.match(r'\d', t):
                    n = re.sub(r'_|([ui](8|16|32|64|128|size))$', '', t)
                    try:
                        nums.add(int(n, 0))
                    except Exception:
                        pass
    kinds, parts = [], []
    for f in changed():
        f = os.path.basename(f)
        kinds += FOCUS.get(f.replace('_property.rs', '').replace('_types.rs', ''), [])
        parts += PARTS.get(f, [])
    return {'kinds': kinds, 'parts': parts, 'strs': sorted(strs), 'nums': [str(n) for n in sorted(nums)]}


def build():
    P.forget(TARGET)
    p = P.run(['cargo', 'build', '--offline', '--quiet', '--target-dir', TARGET], cwd=os.path.join(P.ROOT, 'engine'))
    if p.returncode != 0:
        return p.stderr[-3000:]
    return None


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def rss(pid):
    try:
        return int(open('/proc/%d/statm' % pid).read().split()[1]) * 4096
    except Exception:
        return 0


def single(path, golden, timeout=20):
    """Runs one case alone; True if it finishes without dying."""
    try:
        p = subprocess.Popen([BIN, '--replay', path] + (['--golden'] if golden else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits)
        t0 = time.time()
        while p.poll() is None:
            if time.time() - t0 > timeout or rss(p.pid) > (6 << 30):
                p.kill()
                p.wait()
                return False
            time.sleep(0.02)
        return p.returncode in (0, 1)
    except Exception:
        return False


class Search:
    def __init__(self, seed, tag):
        self.seed = seed
        self.dir = os.path.join(P.WORK, 'search-' + tag)
        os.makedirs(self.dir, exist_ok=True)
        self.found = []
        self.cases = 0
        self.deaths = []
        self.round = 0
        self.secs = 0.0
        json.dump(mine(), open(os.path.join(self.dir, 'dict.json'), 'w'))

    def run(self, secs):
        """One more round of the search on all cores."""
        self.round += 1
        ps = []
        for i in range(P.NPROC):
            prog = os.path.join(self.dir, 'progress%d' % i)
            out = open(os.path.join(self.dir, 'out%d' % i), 'w')
            err = open(os.path.join(self.dir, 'err%d' % i), 'w')
            cmd = [BIN, '--seed', str(self.seed * 1000 + self.round), '--start', str(i), '--step', str(P.NPROC), '--time', str(secs),
                   '--files', os.path.join(P.REPO, 'resources', 'test'), '--progress', prog, '--dict', os.path.join(self.dir, 'dict.json')]
            ps.append((subprocess.Popen(cmd, stdout=out, stderr=err, preexec_fn=limits), prog, i))
        t0 = time.time()
        live = list(ps)
        last = {}
        while live:
            time.sleep(0.1)
            now = time.time()
            for x in list(live):
                p, prog, i = x
                if p.poll() is not None:
                    live.remove(x)
                    if p.returncode not in (0, 1):
                        self.deaths.append((prog, 'died with status %s' % p.returncode))
                        self.keep(prog)
                    continue
                try:
                    st = os.stat(prog).st_mtime
                except OSError:
                    st = t0
                why = None
                if rss(p.pid) > (3 << 30):
                    why = 'needs more than 3 GiB of memory'
                elif now - max(st, t0) > 15:
                    why = 'does not finish'
                elif now - t0 > secs + 60:
                    why = 'overran'
                if why:
                    p.send_signal(signal.SIGKILL)
                    p.wait()
                    live.remove(x)
                    if why != 'overran':
                        self.deaths.append((prog, why))
                        self.keep(prog)
        self.secs += time.time() - t0
        for _, prog, i in ps:
            for line in open(os.path.join(self.dir, 'out%d' % i), errors='replace'):
                try:
                    self.found.append(json.loads(line))
                except Exception:
                    pass
            m = re.search(r'"cases":\s*(\d+)', open(os.path.join(self.dir, 'err%d' % i), errors='replace').read())
            if m:
                self.cases += int(m.group(1))

    def keep(self, prog):
        try:
            t = open(prog).read()
            inp = json.loads(t)
        except Exception:
            return
        path = os.path.join(self.dir, 'death.json')
        json.dump({'input': inp}, open(path, 'w'))
        # the reference survives the case and the code under test does not?
        if single(path, True) and not single(path, False):
            reads = inp['case'] in ('read', 'readfile', 'readheader', 'readprim')
            self.found.append({'sure': ['C02'] if reads else ['C02', 'C15'], 'staged': [], 'stage': 0, 'size': len(t), 'input': inp,
                               'what': 'the process ' + self.deaths[-1][1] + ' on this input; the reference copy answers'})

    def for_prop(self, prop):
        """The smallest input that breaks the property."""
        low = {}
        for f in self.found:
            for p in f['staged']:
                low.setdefault(p, f['stage'])
        least = min([f['stage'] for f in self.found if f['staged']], default=None)
        best = None
        for f in self.found:
            if prop in f['sure'] or (prop in f['staged'] and f['stage'] == least):
                if best is None or f['size'] < best['size']:
                    best = f
        return best
