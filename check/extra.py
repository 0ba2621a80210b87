"""Models of std that no function uses today.

A block becomes part of the proof text only in a run in which the source uses
what it models, so that code that starts to use one of these stays within the
verifier's reach.  Functions without a meaning here (lower case, sorting, byte
swapping) are uninterpreted: a contract that depends on what they return fails.
"""
import re

SIGNED = ['i8', 'i16', 'i32', 'i64', 'isize']
UNSIGNED = ['u8', 'u16', 'u32', 'u64', 'usize']
WIDTH = {'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8}


def text():
    fns = [
        ('v_starts_with<P: VPat + ?Sized>', 'p: &P', 'bool', 'r == (p.pt().len() <= self.mt().len() && self.mt().subrange(0, p.pt().len() as int) =~= p.pt())', 'p'),
        ('v_ends_with<P: VPat + ?Sized>', 'p: &P', 'bool', 'r == (p.pt().len() <= self.mt().len() && self.mt().subrange(self.mt().len() - p.pt().len(), self.mt().len() as int) =~= p.pt())', 'p'),
        ('v_contains_text<P: VPat + ?Sized>', 'p: &P', 'bool', 'r == exists|i: int| 0 <= i <= self.mt().len() - p.pt().len() && #[trigger] self.mt().subrange(i, i + p.pt().len()) =~= p.pt()', 'p'),
        ('v_eq_ignore_ascii_case<P: VPat + ?Sized>', 'p: &P', 'bool', 'r == (x_ascii_lower(self.mt()) == x_ascii_lower(p.pt()))', 'p'),
        ('v_trim_start', '', '&str', 'r@ == trim_l(self.mt())', ''),
        ('v_trim_end', '', '&str', 'r@ == trim_r(self.mt())', ''),
        ('v_to_lowercase', '', 'String', 'r@ == x_lower(self.mt())', ''),
        ('v_to_uppercase', '', 'String', 'r@ == x_upper(self.mt())', ''),
        ('v_to_ascii_lowercase', '', 'String', 'r@ == x_ascii_lower(self.mt())', ''),
        ('v_to_ascii_uppercase', '', 'String', 'r@ == x_ascii_upper(self.mt())', ''),
    ]
    o = ['pub uninterp spec fn %s(s: Seq<char>) -> Seq<char>;' % n for n in ('x_ascii_lower', 'x_ascii_upper', 'x_lower', 'x_upper')]
    o.append('''pub trait VPat { spec fn pt(&self) -> Seq<char>; }
impl VPat for str { open spec fn pt(&self) -> Seq<char> { self@ } }
impl VPat for String { open spec fn pt(&self) -> Seq<char> { self@ } }
impl VPat for char { open spec fn pt(&self) -> Seq<char> { seq![*self] } }
impl<T: VPat + ?Sized> VPat for &T { open spec fn pt(&self) -> Seq<char> { (**self).pt() } }''')
    arg = lambda a: ', ' + a if a else ''
    o.append('pub trait VMoreText { spec fn mt(&self) -> Seq<char>;')
    o += ['    fn %s(&self%s) -> (r: %s) ensures %s;' % (n, arg(a), t, e) for n, a, t, e, p in fns]
    o.append('}\nimpl VMoreText for str { open spec fn mt(&self) -> Seq<char> { self@ }')
    o += ['    #[verifier::external_body] fn %s(&self%s) -> %s { unimplemented!() }' % (n, arg(a), t) for n, a, t, e, p in fns]
    o.append('}\nimpl VMoreText for String { open spec fn mt(&self) -> Seq<char> { self@ }')
    o += ['    fn %s(&self%s) -> %s { self.as_str().%s(%s) }' % (n, arg(a), t, n.split('<')[0], p) for n, a, t, e, p in fns]
    o.append('}\nimpl<T: VMoreText + ?Sized> VMoreText for &T { open spec fn mt(&self) -> Seq<char> { (**self).mt() }')
    o += ['    fn %s(&self%s) -> %s { (**self).%s(%s) }' % (n, arg(a), t, n.split('<')[0], p) for n, a, t, e, p in fns]
    o.append('}')
    return '\n'.join(o)


def bytes_of():
    o = ['pub trait VLe<const N: usize> : Sized { spec fn le_of(self) -> Seq<u8>; fn v_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == self.le_of();',
         '    fn v_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r.le_of() == b@;',
         '    fn v_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == be_bytes(x_num(self), N as int); fn v_from_be_bytes(b: [u8; N]) -> (r: Self) ensures be_bytes(x_num(r), N as int) == b@; }',
         'pub uninterp spec fn x_num<T>(a: T) -> int;']
    spec = {'u16': 'e16(self)', 'i16': 'e16(self as u16)', 'u32': 'e32(self)', 'i32': 'e32(self as u32)', 'u64': 'e64(self)', 'i64': 'e64(self as u64)',
            'f32': 'e32(f32_bits(self))', 'f64': 'e64(f64_bits(self))'}
    for t, s in spec.items():
        n = WIDTH.get(t) or (4 if t == 'f32' else 8)
        o.append('impl VLe<%d> for %s { open spec fn le_of(self) -> Seq<u8> { %s }' % (n, t, s))
        for f, a, r in (('v_to_le_bytes', 'self', '[u8; %d]' % n), ('v_from_le_bytes', 'b: [u8; %d]' % n, 'Self'), ('v_to_be_bytes', 'self', '[u8; %d]' % n), ('v_from_be_bytes', 'b: [u8; %d]' % n, 'Self')):
            o.append('    #[verifier::external_body] fn %s(%s) -> %s { unimplemented!() }' % (f, a, r))
        o.append('}')
    return '\n'.join(o)


def try_from():
    o = ['pub struct TryFromIntError {}', 'pub trait VTryNum<A> : Sized { spec fn tn(a: A) -> Option<Self>; fn v_try_from(a: A) -> (r: Result<Self, TryFromIntError>)\n'
         '    ensures match Self::tn(a) { Some(x) => r == Ok::<Self, TryFromIntError>(x), None => r is Err }; }']
    for t in SIGNED + UNSIGNED:
        for s in SIGNED + UNSIGNED:
            if s == t:
                continue
            o.append('impl VTryNum<%s> for %s { open spec fn tn(a: %s) -> Option<%s> { if %s::MIN as int <= a as int <= %s::MAX as int { Some(a as %s) } else { None } }\n'
                     '    #[verifier::external_body] fn v_try_from(a: %s) -> Result<%s, TryFromIntError> { unimplemented!() } }' % (s, t, s, t, t, t, t, s, t))
    return '\n'.join(o)


def unwrap_or_default():
    o = []
    for t, d in [(x, '0') for x in SIGNED + UNSIGNED] + [('bool', 'false'), ('String', 'mkstr(Seq::empty())')]:
        o.append('impl VUnwrapOr<%s> for Option<%s> { open spec fn uo(self) -> %s { match self { Some(v) => v, None => %s } }\n'
                 '    #[verifier::external_body] fn v_unwrap_or_default(self) -> %s { unimplemented!() } }' % (t, t, t, d, t))
    return '\n'.join(o)


def numbers():
    o = []
    for t, u in zip(SIGNED, UNSIGNED):
        o.append('pub assume_specification[%s::abs](a: %s) -> (r: %s) requires a != %s::MIN ensures r == (if a < 0 { -a } else { a as int });' % (t, t, t, t))
        o.append('pub assume_specification[%s::unsigned_abs](a: %s) -> (r: %s) ensures r == (if a < 0 { -a } else { a as int });' % (t, t, u))
    return '\n'.join(o)


def swaps():
    o = ['pub uninterp spec fn x_swap(v: int, n: int) -> int;', 'pub uninterp spec fn x_rot(v: int, k: int, n: int) -> int;', 'pub uninterp spec fn x_ones(v: int) -> int;']
    for i, t in enumerate(['u16', 'u32', 'u64', 'i16', 'i32', 'i64']):
        n = WIDTH[t]
        o.append('pub assume_specification[%s::swap_bytes](a: %s) -> (r: %s) ensures r == x_swap(a as int, %d);' % (t, t, t, n))
        o.append('pub assume_specification[%s::to_be](a: %s) -> (r: %s) ensures r == x_swap(a as int, %d);' % (t, t, t, n))
        o.append('pub assume_specification[%s::rotate_left](a: %s, k: u32) -> (r: %s) ensures r == x_rot(a as int, k as int, %d);' % (t, t, t, n))
        o.append('pub assume_specification[%s::rotate_right](a: %s, k: u32) -> (r: %s) ensures r == x_rot(a as int, -(k as int), %d);' % (t, t, t, n))
        o.append('pub assume_specification[%s::count_ones](a: %s) -> (r: u32) ensures r == x_ones(a as int);' % (t, t))
    return '\n'.join(o)


FLOATS = '\n'.join('''pub uninterp spec fn x_nan_%(t)s(b: %(u)s) -> bool;
pub uninterp spec fn x_fin_%(t)s(b: %(u)s) -> bool;
pub assume_specification[%(t)s::to_bits](f: %(t)s) -> (r: %(u)s) ensures r == %(t)s_bits(f);
pub assume_specification[%(t)s::from_bits](b: %(u)s) -> (r: %(t)s) ensures r == %(t)s_of(b);
pub assume_specification[%(t)s::is_nan](f: %(t)s) -> (r: bool) ensures r == x_nan_%(t)s(%(t)s_bits(f));
pub assume_specification[%(t)s::is_finite](f: %(t)s) -> (r: bool) ensures r == x_fin_%(t)s(%(t)s_bits(f));''' % d
                   for d in ({'t': 'f32', 'u': 'u32'}, {'t': 'f64', 'u': 'u64'}))

VECS = '''pub uninterp spec fn x_sorted<T>(s: Seq<T>) -> Seq<T>;
pub uninterp spec fn x_dedup<T>(s: Seq<T>) -> Seq<T>;
pub trait VVecMore<T> { spec fn vv(&self) -> Seq<T>;
    fn v_reverse(&mut self) ensures final(self).vv() == old(self).vv().reverse();
    fn v_sort(&mut self) ensures final(self).vv() == x_sorted(old(self).vv());
    fn v_dedup(&mut self) ensures final(self).vv() == x_dedup(old(self).vv()); }
impl<T> VVecMore<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_dedup(&mut self) { unimplemented!() } }
impl<K, V> VVecMore<(K, V)> for IndexMap<K, V> { open spec fn vv(&self) -> Seq<(K, V)> { self@ }
    #[verifier::external_body] fn v_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_dedup(&mut self) { unimplemented!() } }
impl<K, V> VVecMore<(K, V)> for HashableIndexMap<K, V> { open spec fn vv(&self) -> Seq<(K, V)> { self.0@ }
    #[verifier::external_body] fn v_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_dedup(&mut self) { unimplemented!() } }'''

REWIND = '''pub trait VRewind : Seek {
    fn rewind(&mut self) -> (r: Result<(), IoError>)
        requires wr_ok(old(self))
        ensures final(self).data() == old(self).data(), final(self).infallible() == old(self).infallible(),
            r is Ok ==> final(self).pos() == 0, r is Err ==> wr_ok(final(self)), old(self).infallible() ==> r is Ok; }
impl<S: Seek> VRewind for S { #[verifier::external_body] fn rewind(&mut self) -> Result<(), IoError> { unimplemented!() } }'''

BLOCKS = [
    (r'\bv_(starts_with|ends_with|contains_text|eq_ignore_ascii_case|trim_start|trim_end|to_lowercase|to_uppercase|to_ascii_\w+)\b', text()),
    (r'\bv_(to|from)_[bl]e_bytes\b', bytes_of()),
    (r'\b[ui](8|16|32|64|size) ?:: ?v_try_from\b', try_from()),
    (r'\bunwrap_or_default\b', unwrap_or_default()),
    (r'\b(unsigned_)?abs\b', numbers()),
    (r'\b(swap_bytes|to_be|rotate_(left|right)|count_ones)\b', swaps()),
    (r'\b(to_bits|from_bits|is_nan|is_finite)\b', FLOATS),
    (r'\bv_(reverse|sort|dedup)\b', VECS),
    (r'\bv_or_insert\b', '''impl<K, V> IndexMap<K, V> {
    #[verifier::external_body] pub fn v_or_insert(&mut self, k: K, v: V)
        ensures final(self)@ == (if im_find(old(self)@, k) is Some { old(self)@ } else { old(self)@.push((k, v)) }) { unimplemented!() }
}
impl<K, V> HashableIndexMap<K, V> {
    pub fn v_or_insert(&mut self, k: K, v: V)
        ensures final(self).0@ == (if im_find(old(self).0@, k) is Some { old(self).0@ } else { old(self).0@.push((k, v)) }) { self.0.v_or_insert(k, v) }
}'''),
    (r'\bv_entry_default\b', '''impl<K, P> IndexMap<K, Vec<P>> {
    #[verifier::external_body] pub fn v_entry_default(&mut self, k: K) -> (r: &mut Vec<P>)
        ensures r@ == (match im_find(old(self)@, k) { Some(i) => old(self)@[i].1@, None => Seq::<P>::empty() }),
            final(self)@ == im_insert(old(self)@, k, *final(r)) { unimplemented!() }
}
impl<K, P> HashableIndexMap<K, Vec<P>> {
    #[verifier::external_body] pub fn v_entry_default(&mut self, k: K) -> (r: &mut Vec<P>)
        ensures r@ == (match im_find(old(self).0@, k) { Some(i) => old(self).0@[i].1@, None => Seq::<P>::empty() }),
            final(self).0@ == im_insert(old(self).0@, k, *final(r)) { unimplemented!() }
}'''),
    (r'\bget_mut\b', '''impl<K, V> IndexMap<K, V> {
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match im_find(old(self)@, *k) {
            Some(i) => r matches Some(x) && *x == old(self)@[i].1 && final(self)@ == old(self)@.update(i, (old(self)@[i].0, *final(x))),
            None => r is None && final(self)@ == old(self)@ } { unimplemented!() }
}
impl<K, V> HashableIndexMap<K, V> {
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match im_find(old(self).0@, *k) {
            Some(i) => r matches Some(x) && *x == old(self).0@[i].1 && final(self).0@ == old(self).0@.update(i, (old(self).0@[i].0, *final(x))),
            None => r is None && final(self).0@ == old(self).0@ } { unimplemented!() }
}'''),
    (r'\brewind\b', REWIND),
    # a vector that is written to directly
    (r'let mut (\w+) (?:: Vec < u8 > )?= Vec :: (?:new|with_capacity)[^;]*;[^}]{0,300}write_body \(& ?mut \1 ?,', '''impl VStream for Vec<u8> {
    open spec fn data(&self) -> Seq<u8> { self@ }
    open spec fn pos(&self) -> int { self@.len() as int }
    open spec fn infallible(&self) -> bool { true }
}
impl Write for Vec<u8> {
    #[verifier::external_body] fn write_all<B: VBuf + ?Sized>(&mut self, buf: &B) -> Result<(), IoError> { unimplemented!() }
    #[verifier::external_body] fn write<B: VBuf + ?Sized>(&mut self, buf: &B) -> Result<usize, IoError> { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> Result<(), IoError> { unimplemented!() }
}'''),
    (r'\b(min|max) \(', '''pub fn min<T: VStep>(a: T, b: T) -> (r: T) ensures r == (if b.vi() < a.vi() { b } else { a }) { if b.v_lt(a) { b } else { a } }
pub fn max<T: VStep>(a: T, b: T) -> (r: T) ensures r == (if b.vi() < a.vi() { a } else { b }) { if b.v_lt(a) { a } else { b } }'''),
    (r'(?<![.\w] )\breplace \(', '''#[verifier::external_body]
pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }'''),
    (r'\bunwrap_or\b', '''pub assume_specification<T, E>[Result::<T, E>::unwrap_or](a: Result<T, E>, d: T) -> (r: T) ensures r == (match a { Ok(v) => v, Err(_) => d });'''),
]


def pick(items):
    """The blocks the extracted functions need."""
    s = ' '.join(i.get('body') or '' for i in items if i['kind'] == 'fn')
    return ''.join('\n' + b for r, b in BLOCKS if re.search(r, s))
