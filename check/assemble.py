"""Turns the extractor's output plus the contracts into one Verus file.

Function bodies come from the extractor, i.e. from /repo's source as the
compiler expands it.  Only signatures' contracts, loop annotations and ghost
blocks come from /verif/proof.
"""
import re


class Out:
    def __init__(self):
        self.lines = []
        self.marks = []      # (line, kind, fn key, tag)
        self.spans = []      # (first line, last line, fn key)

    def add(self, text):
        self.lines.extend(text.split('\n'))

    def mark(self, text, kind, key, tag):
        first = len(self.lines) + 1
        self.lines.extend(text.split('\n'))
        self.marks.append((first, len(self.lines), kind, key, tag))

    def text(self):
        return '\n'.join(self.lines) + '\n'


def fix_body(b):
    b = b.replace('String :: from_utf16 (', 'v_from_utf16 (').replace('String :: from_utf8 (', 'v_from_utf8 (')
    b = b.replace('u128 :: to_le_bytes', 'v_u128_to_le_bytes').replace('u128 :: from_le_bytes', 'v_u128_from_le_bytes')
    b = b.replace('.unwrap_or_default ()', '.v_unwrap_or_default ()')
    b = re.sub(r'&(\w+) \[\s*\.\.\s*\]', r'v_slice(&\1)', b)
    return b


def squeeze(s):
    return re.sub(r'\s+', ' ', s)


def split_args(inputs):
    """Names of the parameters in a printed parameter list."""
    out, depth, cur = [], 0, ''
    for ch in inputs + ',':
        if ch in '(<[':
            depth += 1
        elif ch in ')>]':
            depth -= 1
        if ch == ',' and depth == 0:
            if cur.strip():
                t = cur.strip()
                out.append('self' if re.search(r'\bself$', t.split(':')[0].strip()) else re.sub(r'^mut ', '', t.split(':')[0].strip()))
            cur = ''
        else:
            cur += ch
    return out


def fill(t, args):
    """$0, $1, ... stand for the parameters, whatever they are called."""
    return re.sub(r'\$(\d)', lambda m: re.sub(r'^mut ', '', args[int(m.group(1))]), t)


def at_calls(b, at, args):
    """Puts the assertions of `at` in front of the statements that make the given
    call.  Where the calls are not as many or not at the head of a statement, the
    function's postconditions have to do."""
    hits = [m.start() for m in re.finditer(at['call'], b)]
    if len(hits) != len(at['asserts']):
        return b
    heads = []
    for h in hits:
        n = b.rfind('\n', 0, h) + 1
        if '=>' in b[n:h] or not b[:n].rstrip().endswith((';', '{', '}')):
            return b
        heads.append(n)
    for n, t in sorted(zip(heads, at['asserts']), reverse=True):
        b = b[:n] + 'assert(%s); /*@%s*/\n' % (squeeze(fill(t, args)), at['tag']) + b[n:]
    return b


class Assembler:
    def __init__(self, ex, contracts, prelude, specs, only=None, canary=False, skip=()):
        """only: keys whose bodies are verified (None = all with a contract);
        the rest keep their contract but lose their body.
        canary: next to every verified function that has preconditions, put a
        function with the same preconditions that asserts false (it must fail)."""
        self.ex = ex
        self.c = contracts
        self.prelude = prelude
        self.specs = specs
        self.only = only
        self.canary = canary
        self.skip = set(skip)
        self.o = Out()
        self.verified = []
        self.trusted = []
        self.lost_anchors = {}
        self.later = []
        self.canaries = 0
        self.trait_canaries = []

    # ---------------------------------------------------------------- parts
    def clause_block(self, key, c, args=()):
        o = self.o
        if c.get('requires'):
            o.add('    requires')
            for t in c['requires']:
                o.mark('        ' + fill(t, args) + ',', 'requires', key, 'PRE')
        if c.get('ensures'):
            o.add('    ensures')
            for tag, t in c['ensures']:
                o.mark('        ' + fill(t, args) + ',', 'ensures', key, tag)

    def body_text(self, f, c):
        b = fix_body(f['body'])
        nloops = f['loops']
        want = c.get('loops')
        if want is not None and want != nloops:
            self.lost_anchors[f['key']] = 'loop count %d, contract written for %d' % (nloops, want)
        def sub(m):
            kind, k = m.group(1), int(m.group(2))
            if kind == 'INV':
                inv = c.get('inv', {}).get(k)
                if not inv:
                    return ' '
                return '\n' + fill(inv, f['args']) + '\n'
            g = c.get(kind.lower(), {}).get(k)
            return '\n' + fill(g, f['args']) + '\n' if g else ''
        b = re.sub(r'/\*@(\w+) (\d+)\*/', sub, b)
        return at_calls(b, c['at'], f['args']) if c.get('at') else b

    def emit_fn(self, f, c, in_trait_impl, header_prefix='    '):
        if not c.get('cases'):
            return self.emit_one(f, c, in_trait_impl, header_prefix)
        # the same body once per case, each under one more precondition, and a
        # proof that the cases are exhaustive; the callable function keeps the
        # contract the copies were proved against
        key = f['key']
        off = key in self.skip or (self.only is not None and key not in self.only)
        self.emit_one(f, dict(c, external=True), in_trait_impl, header_prefix, quiet=True)
        if off:
            return
        if in_trait_impl:
            # the contract is the trait's; the copies go to an inherent impl
            m = re.match(r'(.*) for (.*)::(\w+)$', key)
            tc = self.c['trait %s::%s' % (m.group(1), m.group(3))]
            c = dict(c, requires=tc.get('requires', []), ensures=tc.get('ensures', []))
            self.later.append((m.group(2), f, c))
            return
        self.emit_cases(f, c, header_prefix)

    def emit_cases(self, f, c, header_prefix='    '):
        key = f['key']
        self.verified.append(key)
        n = len(c['cases'])
        for i, cs in enumerate(c['cases']):
            self.emit_one(dict(f, name='%s__c%d' % (f['name'], i)), dict(c, requires=c.get('requires', []) + ['(%s)' % cs]),
                          False, header_prefix, quiet=True, forced=True)
        g = dict(f, name='%s__cover' % f['name'], body='{ vstd::pervasive::unreached() }', loops=0)
        self.emit_one(g, dict(requires=c.get('requires', []) + ['!(%s)' % cs for cs in c['cases']], nospin=True),
                      False, header_prefix, quiet=True, forced=True, canary=False)

    def emit_one(self, f, c, in_trait_impl, header_prefix='    ', quiet=False, forced=False, canary=True):
        o = self.o
        key = f['key']
        external = not forced and (c.get('external') or key in self.skip or (self.only is not None and key not in self.only))
        ret = squeeze(f['ret'])
        first = len(o.lines) + 1
        if external:
            o.add('#[verifier::external_body]')
            if c.get('external') and not c.get('uncontracted') and not quiet:
                self.trusted.append(key)
        else:
            if not quiet:
                self.verified.append(key)
            if not c.get('nospin'):
                o.add('#[verifier::spinoff_prover]')
            for a in c.get('attrs', []):
                o.add(a)
        pub = '' if in_trait_impl else 'pub '
        name = f['name']
        where = f['where']
        lead = ''
        body = None
        if f.get('from_target'):
            name = 'v_into'
            inputs = 'self'
            ret = squeeze(f['from_target'])
            arg = f['args'][0]
            b = self.body_text(f, c)
            b = re.sub(r'\bSelf\b', lambda m: re.sub(r'<.*', '', ret).strip() if not ret.startswith('[') else ret, b)
            body = b
            lead = 'let %s = self;' % arg
        else:
            inputs = squeeze(f['inputs'])
            body = self.body_text(f, c)
        rname = 'r' if 'r' not in f['args'] else 'rr'
        sig = '%sfn %s%s(%s)' % (pub, name, squeeze(f['generics']), inputs)
        if ret and ret != '()':
            if in_trait_impl:
                sig += ' -> (%s: %s)' % (rname, ret)
            else:
                sig += ' -> (%s: %s)' % (rname, ret)
        if where:
            sig += ' ' + squeeze(where)
        o.add(header_prefix + sig)
        if not in_trait_impl:
            self.clause_block(key, c, f['args'])
        if external:
            o.add('{ unimplemented!() }')
        else:
            o.add('{')
            if c.get('use', True):
                o.add('broadcast use {ax_all};')
            if c.get('top'):
                o.add(fill(c['top'], f['args']))
            if lead:
                o.add(lead)
            n = len(o.lines)
            o.add(body)
            for i, l in enumerate(o.lines[n:], n + 1):
                m = re.search(r'/\*@([A-Z]+)\*/$', l)
                if m:
                    o.marks.append((i, i, 'ensures', key, m.group(1)))
            o.add('}')
        o.spans.append((first, len(o.lines), key))
        if self.canary and canary and not external and not f.get('from_target'):
            if in_trait_impl:
                m = re.match(r'(.*) for (.*)::(\w+)$', key)
                tr = 'trait %s::%s' % (m.group(1), m.group(3))
                if self.c.get(tr, {}).get('requires'):
                    self.trait_canaries.append((m.group(1), squeeze(f['impl']).strip(), sig, f, self.c[tr]))
            elif c.get('requires'):
                self.put_canary(sig, f, c)

    def put_canary(self, sig, f, c):
        o = self.o
        self.canaries += 1
        o.add('    #[verifier::spinoff_prover] ' + re.sub(r'fn %s\b' % f['name'], 'fn %s__canary' % f['name'], sig, count=1))
        if c:
            self.clause_block(f['key'], {'requires': c['requires']}, f['args'])
        o.add('{ broadcast use {ax_all};')
        o.mark('assert(false);', 'canary', f['key'], f['name'])
        o.add('vstd::pervasive::unreached() }')

    def put_trait_canaries(self):
        o = self.o
        traits = {}
        for t, hdr, sig, f, tc in self.trait_canaries:
            traits.setdefault(t, {}).setdefault(f['name'], (sig, f, tc))
        for t, fs in traits.items():
            o.add('pub trait %sCanary: %s {' % (t, t))
            for name, (sig, f, tc) in fs.items():
                o.add('    ' + re.sub(r'fn %s\b' % name, 'fn %s__canary' % name, sig, count=1))
                self.clause_block(f['key'], {'requires': tc['requires']}, f['args'])
                o.add('    ;')
            o.add('}')
            impls = {}
            for t2, hdr, sig, f, tc in self.trait_canaries:
                if t2 == t:
                    impls.setdefault(hdr, []).append((sig, f))
            for hdr, l in impls.items():
                if {f['name'] for _, f in l} != set(fs):
                    continue
                o.add(re.sub(r'\b%s for' % t, '%sCanary for' % t, hdr) + ' {')
                for sig, f in l:
                    self.put_canary(sig, f, None)
                o.add('}')

    # ---------------------------------------------------------------- whole
    def build(self):
        o = self.o
        ex = self.ex
        o.add('#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_camel_case_types, unused_assignments, unreachable_code, unused_braces)]')
        o.add('#![allow(non_snake_case, unused_must_use, non_upper_case_globals)]')
        o.add('#![verifier::loop_isolation(false)]')
        o.add('#![verifier::exec_allows_no_decreases_clause]')
        o.add('use vstd::prelude::*;')
        o.add('verus! {')
        o.add(self.prelude)
        o.add(self.specs)
        items = ex['items']
        # types
        for it in items:
            if it['kind'] == 'type':
                if it.get('copy') or it['name'] in ('FEditorObjectVersion', 'FUE5ReleaseStreamObjectVersion', 'EUnrealEngineObjectUE5Version', 'SaveGameVersion'):
                    o.add('#[derive(Clone, Copy)]')
                if it['name'] in ('HashableIndexMap',):
                    o.add('#[verifier::accept_recursive_types(K)]')
                    o.add('#[verifier::accept_recursive_types(V)]')
                o.add(it['text'])
        for it in items:
            if it['kind'] == 'const':
                ty = it['ty']
                if ty.startswith('&'):
                    ty = "&'static " + ty[1:]
                name = it['name']
                cc = self.c.get('const ' + name)
                if cc:
                    o.add('#[verifier::spinoff_prover]')
                    o.add('pub exec const %s: %s' % (name, squeeze(ty)))
                    self.clause_block('const ' + name, cc)
                    o.add('{ %s %s }' % (cc.get('top', ''), it['expr']))
                else:
                    o.add('pub const %s: %s = %s;' % (name, squeeze(ty), it['expr']))
        # traits
        for it in items:
            if it['kind'] != 'trait' or it['name'] in ('CustomVersionTrait', 'OrdExt'):
                continue
            tc = self.c.get('trait ' + it['name'], {})
            o.add('pub trait %s%s%s {' % (it['name'], squeeze(it['generics']), tc.get('super', '')))
            o.add(tc.get('items', ''))
            for f in it['fns']:
                if 'const' in f:
                    continue
                key = 'trait %s::%s' % (it['name'], f['name'])
                c = self.c.get(key, {})
                o.add('    fn %s%s(%s) -> (r: %s) %s' % (f['name'], squeeze(f['generics']), squeeze(f['inputs']), squeeze(f['ret']), squeeze(f['where'])))
                self.clause_block(key, c, split_args(squeeze(f['inputs'])))
                o.add('    ;')
            o.add('}')
        # custom version GUIDs
        for it in items:
            if it['kind'] == 'implconst' and it['name'] == 'GUID':
                key = it['key']
                c = self.c.get(key, {})
                first = len(o.lines) + 1
                o.add('impl CustomVersionTrait for %s {' % it['self_ty'])
                o.add(c.get('items', ''))
                o.add('fn v_guid() -> Guid { %s %s }' % (c.get('top', ''), it['expr']))
                o.add('}')
                o.spans.append((first, len(o.lines), key))
                self.verified.append(key)
        # num_enum conversions
        for it in items:
            if it['kind'] == 'tryfrom':
                key = 'TryFrom<i8> for %s' % it['name']
                c = self.c.get(key, {})
                first = len(o.lines) + 1
                o.add('impl VEnum for %s {' % it['name'])
                o.add(c.get('items', 'uninterp spec fn of_i8(n: i8) -> Option<Self>;'))
                o.add('fn v_try_from(n: i8) -> Result<Self, VTryErr> {')
                for v, a in it['arms']:
                    o.add('    if n == %d { return Ok(%s::%s); }' % (v, it['name'], a))
                o.add('    Err(VTryErr {})')
                o.add('}')
                o.add('}')
                o.spans.append((first, len(o.lines), key))
                self.verified.append(key)
        # functions grouped by impl header
        groups = {}
        for it in items:
            if it['kind'] == 'fn':
                groups.setdefault(it['impl'].strip(), []).append(it)
        for hdr, fs in groups.items():
            hdr2 = squeeze(hdr)
            if hdr2.startswith('impl< I > OrdExt'):
                hdr2 = 'impl OrdExt for u32'
                for f in fs:
                    f['inputs'] = f['inputs'].replace(': I', ': u32')
            is_trait = bool(re.match(r'impl\s*(<.*?>)?\s*[\w<>\[\];, ]+ for ', hdr2)) and ' for ' in hdr2
            if hdr2:
                o.add(hdr2 + ' {')
                ti = self.c.get(hdr2, {})
                if ti.get('items'):
                    o.add(ti['items'])
                elif 'VInto<' in hdr2:
                    tgt = squeeze(fs[0]['from_target'])
                    o.add('    uninterp spec fn into_spec(self) -> %s;' % tgt)
            for f in fs:
                c = self.c.get(f['key'])
                if c is None and not is_trait and '*' not in self.c:
                    continue    # inlined where it is called
                if c is None:
                    c = {'external': True, 'uncontracted': True} if '*' not in self.c else self.c['*']
                self.emit_fn(f, c, is_trait)
            if hdr2:
                o.add('}')
            for ty, f, c in self.later:
                o.add('impl %s {' % ty)
                self.emit_cases(f, c)
                o.add('}')
            self.later = []
        self.put_trait_canaries()
        o.add('fn main() {}')
        o.add('} // verus!')
        return o.text()
