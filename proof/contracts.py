"""Contracts for the crate's functions: key -> contract.  See DESIGN.md."""
C = {}

# ---------------------------------------------------------------- builders


def reader(spec, rd='$0', extra=(), **kw):
    """A function that reads: its result is exactly what the parse function gives."""
    o, z = 'old(%s)' % rd, 'final(%s)' % rd
    s = spec.replace('(@', '(%s.data(), %s.pos()' % (o, o))
    c = {
        'requires': ['rd_ok(%s)' % o],
        'ensures': [
            ('FRAME', 'rd_same(%s, %s)' % (o, z)),
            ('ACC', '%s is Ok ==> r is Ok' % s),
            ('REJ', '%s is Err ==> r is Err' % s),
            ('VAL', '%s is Ok && r is Ok ==> r->Ok_0 == %s->Ok_0.0' % (s, s)),
            ('POS', '%s is Ok && r is Ok ==> %s.pos() == %s->Ok_0.1' % (s, z, s)),
            ('ERR', '%s is Err && r is Err ==> ev(r->Err_0) == %s->Err_0' % (s, s)),
            ('MONO', 'r is Ok ==> %s.pos() >= %s.pos()' % (z, o)),
        ] + list(extra),
    }
    c.update(kw)
    return c


def writer(enc, ok='true', wr='$0', count=True, top='', extra=(), req=(), **kw):
    """A function that writes: exactly `enc`, if `ok`."""
    o, z = 'old(%s)' % wr, 'final(%s)' % wr
    c = {
        'requires': ['wr_ok(%s)' % o] + list(req),
        'ensures': [
            ('OUT', 'r is Ok ==> wrote(%s, %s, %s)' % (o, z, enc)),
            ('FRAME', 'r is Err ==> wr_frame(%s, %s)' % (o, z)),
            ('TOTAL', '%s.infallible() && (%s) && room(%s, (%s).len() as int) ==> r is Ok' % (o, ok, o, enc)),
        ],
        'top': 'proof { assert(anchor(old(%s))); %s }' % (wr, top),
    }
    if ok != 'true':
        c['ensures'].append(('VALID', 'r is Ok ==> (%s)' % ok))
    if count:
        c['ensures'].append(('CNT', 'r is Ok ==> r->Ok_0 == (%s).len()' % enc))
    c['ensures'] += list(extra)
    c.update(kw)
    return c


def pure(post, **kw):
    c = {'ensures': [('VAL', '(%s)' % post)]}
    c.update(kw)
    return c


def split_trait(trait, name, impl_key, c):
    """Trait methods carry their contract on the trait, proof text on the impl."""
    C['trait %s::%s' % (trait, name)] = {k: c[k] for k in ('requires', 'ensures') if k in c}
    C[impl_key] = {k: v for k, v in c.items() if k not in ('requires', 'ensures')}


# ---------------------------------------------------------------- glue
C['trait ReadExt'] = {'super': ': VStream'}
C['trait WriteExt'] = {'super': ': VStream'}
C['impl OrdExt for u32'] = {'items': '    open spec fn oe(&self) -> u32 { *self }'}
C['OrdExt for I::between'] = {}
for ty, ws in (('FEditorObjectVersion', (0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41)),
               ('FUE5ReleaseStreamObjectVersion', (0xD89B5E42, 0x24BD4D46, 0x8412ACA8, 0xDF641779))):
    C['CustomVersionTrait for %s::GUID' % ty] = {
        'items': '    open spec fn guid_spec() -> Guid { mkguid(%s) }' % ' + '.join('e32(%du32)' % w for w in ws)}

# ---------------------------------------------------------------- types
C['transmute_4u32_16u8'] = pure('r@ == e32(value[0]) + e32(value[1]) + e32(value[2]) + e32(value[3])')
C['transmute_16u8_4u32'] = pure('r@ == seq![u32_at(src@, 0), u32_at(src@, 4), u32_at(src@, 8), u32_at(src@, 12)]')
C['Guid::from_u8'] = pure('r == mkguid(value@)')
C['Guid::from_u32'] = pure('r == mkguid(e32(value[0]) + e32(value[1]) + e32(value[2]) + e32(value[3]))')
C['Guid::from_u128'] = pure('r == mkguid(e128(value))')
C['Guid::to_u8'] = pure('r == self.0')
C['Guid::to_u32'] = pure('r@ == seq![u32_at(self.0@, 0), u32_at(self.0@, 4), u32_at(self.0@, 8), u32_at(self.0@, 12)]')
C['Guid::to_u128'] = pure('r == u128_of(self.0@)')
C['Guid::is_zero'] = pure('r <==> *self == zero_guid()', top='proof { lemma_guid_zero(*self); }')
C['impl VInto<Guid> for [u32; 4]'] = {'items': 'open spec fn into_spec(self) -> Guid { mkguid(e32(self[0]) + e32(self[1]) + e32(self[2]) + e32(self[3])) }'}
C['From<[u32;4]> for Guid::from'] = {}
C['impl VInto<u128> for Guid'] = {'items': 'open spec fn into_spec(self) -> u128 { u128_of(self.0@) }'}
C['From<Guid> for u128::from'] = {}
C['impl VInto<Guid> for u128'] = {'items': 'open spec fn into_spec(self) -> Guid { mkguid(e128(self)) }'}
C['From<u128> for Guid::from'] = {}
C['impl VInto<[u32; 4]> for Guid'] = {'items': 'open spec fn into_spec(self) -> [u32; 4] { mkarr4(seq![u32_at(self.0@, 0), u32_at(self.0@, 4), u32_at(self.0@, 8), u32_at(self.0@, 12)]) }'}
C['From<Guid> for [u32;4]::from'] = {}
C['Display for Guid::fmt'] = {
    'ensures': [('VALUE', 'r is Ok ==> final(f).out() == guid_text_after(old(f).out(), *self)'),
                ('WROTE', 'old(f).infallible() ==> r is Ok'),
                ('AUX', 'final(f).infallible() == old(f).infallible()')],
    'top': 'proof { reveal_strlit("0"); reveal_strlit("-"); assert("0"@ =~= seq![\'0\']); assert("-"@ =~= seq![\'-\']); }'}
C['FromStr for Guid::from_str'] = {
    'ensures': [('VALUE', 'match guid_parse(s@) { Some(g) => r is Ok && r->Ok_0.0@ =~= g.0@, None => r is Err }')],
    'top': '''broadcast use {ax_mkguid, lemma_hex_len};
        proof { reveal_strlit("0"); reveal_strlit(""); assert("0"@ =~= seq!['0']); assert(""@ =~= Seq::<char>::empty()); }''',
    'loops': 1,
    'inv': {0: '''invariant 0 <= __it0.cur <= 16, __it0.end == 16, vstd::utf8::is_ascii_chars(cleaned@), cleaned@.len() == 32, all_hex(cleaned@),
                        forall|j: int| 0 <= j < __it0.cur ==> guid.0@[j] == hexb(cleaned@, j)'''},
}
for ty in ('DeserializeError', 'SerializeError'):
    C['Display for %s::fmt' % ty] = {
        'ensures': [('ERR', 'r is Ok ==> final($1).shown() =~= old($1).shown() + shown_%s(*self)' % ty[:3].lower()),
                    ('WROTE', 'old($1).infallible() ==> r is Ok'),
                    ('AUX', 'final($1).infallible() == old($1).infallible()')]}
C['Display for Error::fmt'] = {
    'ensures': [('ERR', '''r is Ok ==> match *self {
            Error::Deserialize(e) => final($1).shown() == old($1).shown() + shown_des(e),
            Error::Serialize(e) => final($1).shown() == old($1).shown() + shown_ser(e),
            Error::Io(_) => true }'''),
                ('WROTE', 'old($1).infallible() ==> r is Ok'),
                ('AUX', 'final($1).infallible() == old($1).infallible()')]}
C['HashableIndexMap<K,V>::new'] = pure('r.0@ == Seq::<(K, V)>::empty()')
C['HashableIndexMap<K,V>::with_capacity'] = pure('r.0@ == Seq::<(K, V)>::empty()')
C['Default for HashableIndexMap<K,V>::default'] = pure('r.0@ == Seq::<(K, V)>::empty()')
C['Deref for HashableIndexMap<K,V>::deref'] = pure('*r == self.0')
C['DerefMut for HashableIndexMap<K,V>::deref_mut'] = pure('*r == old(self).0 && final(self).0 == *final(r)')
C["IntoIterator for &'aHashableIndexMap<K,V>::into_iter"] = pure('r.src() == self.0@ && r.ix() == 0')
C['From<[(K,V);N]> for HashableIndexMap<K,V>::from'] = {}
C['impl< K, V, const N : usize > VInto<HashableIndexMap < K, V >> for [(K, V); N]'] = {'items': 'open spec fn into_spec(self) -> HashableIndexMap<K, V> { HashableIndexMap(mkim(im_all(self@))) }'}
C['Hash for HashableIndexMap<K,V>::hash'] = {
    'ensures': [('HASH', 'final($1).fed() == old($1).fed() + map_hcode(self.0@)')],
    'loops': 1,
    'inv': {0: 'invariant __it0.src() == self.0@, 0 <= __it0.ix() <= self.0@.len(), sum as int == hsum(self.0@.take(__it0.ix())) % 0x1_0000_0000_0000_0000'},
    'end': {0: 'proof { lemma_hsum_step(self.0@, __it0.ix() - 1); }'},
    'after': {0: 'proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }'},
}
C['Default for DeserializedGameVersion::default'] = pure('r == DeserializedGameVersion::Default')

# ---------------------------------------------------------------- cursor_ext
for name, spec in (('read_string', 'p_string(@)'), ('read_fstring', 'p_fstring(@)'), ('read_guid', 'p_guid(@)'),
                   ('read_bool', 'p_bool(@)'), ('read_b32', 'p_b32(@)'), ('read_enum', 'p_enum::<T>(@)')):
    c = reader(spec)
    if 'string' in name:
        c['ensures'].append(('MONO', 'r is Ok ==> final($0).pos() >= old($0).pos() + 4'))
        c['top'] = 'proof { reveal(%s); }' % spec[:-3]
    split_trait('ReadExt', name, 'ReadExt for R::' + name, c)

C['check_string_len'] = {'ensures': [('VALID', 'r is Ok <==> len <= STR_MAX')]}
split_trait('WriteExt', 'write_string', 'WriteExt for W::write_string',
            writer('e_string(v.av())', 'str_ok(v.av())', top='reveal(e_string); reveal(str_ok);', loops=1,
                   inv={0: '''invariant __it0.src() == enc16(v@), 0 <= __it0.ix() <= enc16(v@).len(),
                        wrote(old(self), self, e32((0 - (enc16(v@).len() + 1)) as i32 as u32) + e_words(enc16(v@), __it0.ix()))'''},
                   before={0: 'proof { assert(e32((0 - (enc16(v@).len() + 1)) as i32 as u32) + e_words(enc16(v@), 0) =~= e32((0 - (enc16(v@).len() + 1)) as i32 as u32)); }'},
                   body={0: 'proof { lemma_e_words_len(enc16(v@), __it0.ix() - 1); lemma_e_words_len(enc16(v@), enc16(v@).len() as int); }'},
                   end={0: 'proof { lemma_words_step(e32((0 - (enc16(v@).len() + 1)) as i32 as u32), enc16(v@), __it0.ix() - 1); }'},
                   after={0: 'proof { lemma_e_words_len(enc16(v@), enc16(v@).len() as int); }'}))
split_trait('WriteExt', 'write_fstring', 'WriteExt for W::write_fstring',
            writer('e_fstring(match v { Some(s) => Some(s@), None => None })',
                   'fstr_ok(match v { Some(s) => Some(s@), None => None })'))
split_trait('WriteExt', 'write_guid', 'WriteExt for W::write_guid', writer('v.0@', count=False))
split_trait('WriteExt', 'write_bool', 'WriteExt for W::write_bool', writer('e_bool(v)', count=False))
split_trait('WriteExt', 'write_b32', 'WriteExt for W::write_b32', writer('e_b32(v)', count=False))
split_trait('WriteExt', 'write_enum', 'WriteExt for W::write_enum', writer('seq![u8_of(v.into_spec())]', count=False))

# ---------------------------------------------------------------- error
for n, v, args in (('missing_argument', 'MissingArgument', 'argument_name.into_spec()'),
                   ('invalid_property', 'InvalidProperty', 'reason.into_spec()'),
                   ('invalid_enum_value', 'InvalidEnumValue', 'name.into_spec(), value')):
    C['DeserializeError::' + n] = {
        'requires': ['wr_ok(old(stream))', 'old(stream).infallible()'],
        'ensures': [('ERR', 'r == DeserializeError::%s(%s, old(stream).pos() as u64)' % (v, args)),
                    ('FRAME', 'final(stream).data() == old(stream).data() && final(stream).pos() == old(stream).pos() && final(stream).infallible()')]}
C['SerializeError::invalid_value'] = pure('r == SerializeError::InvalidValue(msg.into_spec())')
C['SerializeError::struct_missing_field'] = pure('r == SerializeError::StructMissingField(type_name.into_spec(), missing_field.into_spec())')

# ---------------------------------------------------------------- conversions between enums and bytes
ENUMS = {
    'DateTimeStyle': [('Default', 0), ('Short', 1), ('Medium', 2), ('Long', 3), ('Full', 4)],
    'FormatArgumentType': [('Int', 0), ('UInt', 1), ('Float', 2), ('Double', 3), ('Text', 4), ('Gender', 5)],
    'PalworldCompressionType': [('None', 0x30), ('Zlib', 0x31), ('ZlibTwice', 0x32)],
    'RoundingMode': [('HalfToEven', 0), ('HalfFromZero', 1), ('HalfToZero', 2), ('FromZero', 3), ('ToZero', 4),
                     ('ToNegativeInfinity', 5), ('ToPositiveInfinity', 6)],
    'TextHistoryType': [('None', -1), ('Base', 0), ('NamedFormat', 1), ('OrderedFormat', 2), ('ArgumentFormat', 3),
                        ('AsNumber', 4), ('AsPercent', 5), ('AsCurrency', 6), ('AsDate', 7), ('AsTime', 8),
                        ('AsDateTime', 9), ('Transform', 10), ('StringTableEntry', 11), ('TextGenerator', 12), ('RawText', 13)],
    'TransformType': [('ToLower', 0), ('ToUpper', 1)],
}
for ty, vs in ENUMS.items():
    C['TryFrom<i8> for ' + ty] = {'items': '    open spec fn of_i8(n: i8) -> Option<Self> { %s else { None } }' % ' else '.join(
        'if n == %d { Some(%s::%s) }' % (n, ty, v) for v, n in vs)}
    C['impl VInto<i8> for ' + ty] = {'items': '    open spec fn into_spec(self) -> i8 { match self { %s } }' % ', '.join(
        '%s::%s => %di8' % (ty, v, n) for v, n in vs)}
    C['From<%s> for i8::from' % ty] = {}

# ---------------------------------------------------------------- properties
C['trait PropertyTrait'] = {'items': '''    spec fn enc(&self, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8>;
    spec fn wok(&self, hdr: bool, cv: Seq<(Guid, u32)>) -> bool;'''}
OPT = lambda n: ('STK', 'opt_same(old($%d), final($%d))' % (n, n))
C['trait PropertyTrait::write'] = {k: v for k, v in writer(
    'self.enc($2, cvo(old($3)))', 'self.wok($2, cvo(old($3)))', wr='$1', extra=[OPT(3)]).items() if k != 'top'}
C['trait PropertyTrait::write_body'] = {k: v for k, v in writer(
    'self.enc(false, cvo(old($2)))', 'self.wok(false, cvo(old($2)))', wr='$1', extra=[OPT(2)]).items() if k != 'top'}


def prop(ty, enc, wok, wtop='', btop='', wkw={}, bkw={}, cv=False):
    """The PropertyTrait impl of a type."""
    C['impl PropertyTrait for %s' % ty] = {'items': '''    open spec fn enc(&self, hdr: bool, cv: Seq<(Guid, u32)>) -> Seq<u8> { %s }
    open spec fn wok(&self, hdr: bool, cv: Seq<(Guid, u32)>) -> bool { %s }''' % (enc, wok)}
    C['PropertyTrait for %s::write' % ty] = dict({'top': 'proof { assert(anchor(old($1))); lemma_kinds(); %s }' % wtop}, **wkw)
    C['PropertyTrait for %s::write_body' % ty] = dict({'top': 'proof { assert(anchor(old($1))); %s }' % btop}, **bkw)


INTS = [('Int8Property', 'i8', 'seq![u8_of(x.value)]', 1), ('Int16Property', 'i16', 'e16(x.value as u16)', 2),
        ('UInt16Property', 'u16', 'e16(x.value)', 2), ('IntProperty', 'i32', 'e32(x.value as u32)', 4),
        ('UInt32Property', 'u32', 'e32(x.value)', 4), ('Int64Property', 'i64', 'e64(x.value as u64)', 8),
        ('UInt64Property', 'u64', 'e64(x.value)', 8), ('FloatProperty', 'f32', 'e32(f32_bits(x.value.0))', 4),
        ('DoubleProperty', 'f64', 'e64(f64_bits(x.value.0))', 8)]
SPEC = ''
for ty, p, e, n in INTS:
    v = 'OrderedFloat(v)' if p in ('f32', 'f64') else 'v'
    SPEC += '''pub open spec fn enc_%(p)s(x: %(ty)s, hdr: bool) -> Seq<u8> { if hdr { e_hdr0("%(ty)s"@, %(e)s, 0) } else { %(e)s } }
pub open spec fn p_%(p)sp(d: Seq<u8>, p: int, hdr: bool) -> PR<%(ty)s> {
    if hdr {
        let (_, q) <- p_szero(d, p, %(n)d);
        let (v, q) <- p_%(p)s(d, q);
        Ok((%(ty)s { value: %(v)s }, q))
    } else {
        let (v, q) <- p_%(p)s(d, p);
        Ok((%(ty)s { value: %(v)s }, q))
    }
}
''' % locals()
    prop(ty, 'enc_%s(*self, hdr)' % p, 'true')
    C[ty + '::new'] = pure('r == %s { value: %s }' % (ty, v.replace('v', '$0').replace('OrderedFloat($0)', 'OrderedFloat($0)')))
    C[ty + '::read'] = reader('p_%sp(@, $1)' % p)
prop('BoolProperty', 'enc_bool(*self, hdr)', 'true')
C['BoolProperty::new'] = pure('r == BoolProperty { value: $0 }')
C['BoolProperty::read'] = reader('p_boolp(@, $1)')
prop('ByteProperty', 'enc_byte(*self, hdr)', 'wok_byte(*self, hdr)')
C['ByteProperty::new'] = pure('r == ByteProperty { name: $0, value: $1 }')
C['ByteProperty::new_byte'] = pure('r == ByteProperty { name: $0, value: BytePropertyValue::Byte($1) }')
C['ByteProperty::new_namespaced'] = pure('r == ByteProperty { name: $0, value: BytePropertyValue::Namespaced($1) }')
C['ByteProperty::read'] = reader('p_bytep(@, $1, $2)')
for ty, n, arg in (('StrProperty', 'str', ''), ('ObjectProperty', 'object', ''), ('DelegateProperty', 'delegate', ''),
                   ('MulticastInlineDelegateProperty', 'inline', ''), ('MulticastSparseDelegateProperty', 'sparse', ''),
                   ('FieldPathProperty', 'fpath', ''), ('NameProperty', 'name', ', 0'), ('EnumProperty', 'enum', ', None')):
    C[ty + '::read'] = reader('(if $1 { p_%sh(@) } else { p_%sb(@%s) })' % (n, n, arg))
    C[ty + '::read_header'] = reader('p_%sh(@)' % n)
    C[ty + '::read_body'] = reader('p_%sb(@%s)' % (n, ', $1' if arg else ''))
prop('StrProperty', 'enc_str(*self, hdr)', 'fstr_ok(osv(self.value))')
prop('NameProperty', 'enc_name(*self, hdr)', 'fstr_ok(osv(self.value))')
prop('ObjectProperty', 'enc_object(*self, hdr)', 'str_ok(self.value@)')
prop('EnumProperty', 'enc_enum(*self, hdr)', 'wok_enum(*self, hdr)')
prop('DelegateProperty', 'enc_delegate(*self, hdr)', 'w_delegate(self.value)')
prop('MulticastInlineDelegateProperty', 'enc_inline(*self, hdr)', 'w_multi(self.value)')
prop('MulticastSparseDelegateProperty', 'enc_sparse(*self, hdr)', 'w_multi(self.value)')
prop('FieldPathProperty', 'enc_fpath(*self, hdr)', 'w_fpath(self.value)')
prop('UnknownProperty', 'enc_unknown(*self, hdr)', 'wok_unknown(*self, hdr)')
C['UnknownProperty::new'] = pure('r == UnknownProperty { property_name: $0, raw: $1 }')
C['UnknownProperty::read_with_length'] = reader('p_unknownl(@, $1@, $2 as int)')
C['UnknownProperty::read_with_header'] = reader('p_unknownh(@, $1@)')
C['Delegate::read'] = reader('p_delegate(@)')
C['Delegate::write'] = writer('e_delegate(*self)', 'w_delegate(*self)', wr='$1')
C['Delegate::new'] = pure('r == Delegate { object: $0, function_name: $1 }')
C['EnumProperty::new'] = pure('r == EnumProperty { enum_type: $0, value: $1 }')
for ty in ('DelegateProperty', 'MulticastInlineDelegateProperty', 'MulticastSparseDelegateProperty', 'FieldPathProperty'):
    C[ty + '::new'] = pure('r == %s { value: $0 }' % ty)
C['MulticastScriptDelegate::new'] = pure('r == MulticastScriptDelegate { delegates: $0 }')
C['FieldPath::new'] = pure('r == FieldPath { path: $0, resolved_owner: $1 }')


def rdloop(p, acc, n='(__it0.end - __it0.cur) as int'):
    """Counted list: what is left to parse, after what is already in `acc`."""
    return '''invariant rd_ok($0), $0.data() == old($0).data(), old($0).pos() <= $0.pos(), 0 <= __it0.cur <= __it0.end,
        __it0.end == u32_at(old($0).data(), old($0).pos()),
        (%s) == (%s),
    decreases __it0.end - __it0.cur''' % (p[0], p[1].replace('ACC', acc).replace('N', n))


C['MulticastScriptDelegate::read'] = reader('p_multi(@)', loops=1, inv={0: rdloop(
    ('p_delegates(old($0).data(), old($0).pos() + 4, __it0.end as int, Seq::empty())',
     'p_delegates($0.data(), $0.pos(), N, ACC)'), 'delegates@')})
C['FieldPath::read'] = reader('p_fpath(@)', loops=1, inv={0: rdloop(
    ('p_strings(old($0).data(), old($0).pos() + 4, __it0.end as int, Seq::empty())',
     'p_strings($0.data(), $0.pos(), N, ACC)'), 'path@')})


def wrloop(pre, lst, seq, n, wr='$1', cnt='len'):
    """Loop writing the elements of a list one after another."""
    d = dict(pre=pre, l=lst, s=seq, wr=wr, cnt=cnt)
    return {
        'inv': {n: '''invariant __it%d.src() == %%(s)s, 0 <= __it%d.ix() <= %%(s)s.len(),
            wrote(old(%%(wr)s), %%(wr)s, %%(pre)s + e_%%(l)s(%%(s)s, __it%d.ix())),
            w_%%(l)s(%%(s)s, __it%d.ix()), %%(cnt)s == (%%(pre)s + e_%%(l)s(%%(s)s, __it%d.ix())).len(),
        decreases %%(s)s.len() - __it%d.ix()''' .replace('%d', str(n)).replace('%%', '%') % d},
        'before': {n: 'proof { assert(%(pre)s + e_%(l)s(%(s)s, 0) =~= %(pre)s); }' % d},
        'body': {n: 'proof { let i_ = __it%d.ix() - 1; lemma_%%(l)s_prefix(%%(s)s, i_ + 1, %%(s)s.len() as int); lemma_%%(l)s_step(%%(pre)s, %%(s)s, i_); }'.replace('%d', str(n)).replace('%%', '%') % d},
    }


C['MulticastScriptDelegate::write'] = writer('e_multi(*self)', 'w_multi(*self)', wr='$1', loops=1,
    **wrloop('e32(self.delegates@.len() as u32)', 'delegates', 'self.delegates@', 0))
C['FieldPath::write'] = writer('e_fpath(*self)', 'w_fpath(*self)', wr='$1', loops=1,
    **wrloop('e32(self.path@.len() as u32)', 'strings', 'self.path@', 0))

# ---------------------------------------------------------------- versions
C['impl VInto<u32> for FEditorObjectVersion'] = {'items': '''    open spec fn into_spec(self) -> u32 {
        match self { FEditorObjectVersion::CultureInvariantTextSerializationKeyStability => 32, _ => self as u32 } }'''}
C['impl VInto<u32> for FUE5ReleaseStreamObjectVersion'] = {'items': '''    open spec fn into_spec(self) -> u32 {
        match self { FUE5ReleaseStreamObjectVersion::LargeWorldCoordinates => 28,
            FUE5ReleaseStreamObjectVersion::TextFormatArgumentData64bitSupport => 12, _ => self as u32 } }'''}
for _t in ('EUnrealEngineObjectUE5Version', 'SaveGameVersion'):
    C['impl VInto<u32> for ' + _t] = {'items': '    open spec fn into_spec(self) -> u32 { self as u32 }'}
    C['From<%s> for u32::from' % _t] = {}
C['From<FEditorObjectVersion> for u32::from'] = {}
C['From<FUE5ReleaseStreamObjectVersion> for u32::from'] = {}
C['PropertyOptions::get_custom_version'] = pure(
    'r == (FCustomVersion { key: T::guid_spec(), version: ver(cvo(self), T::guid_spec()) })')
C['PropertyOptions::supports_version'] = pure('r <==> ver(cvo(self), T::guid_spec()) >= $1.into_spec()')

# ---------------------------------------------------------------- text
C['NumberFormattingOptions::read'] = reader('p_nfo(@)')
C['NumberFormattingOptions::write'] = writer('e_nfo(*self)', wr='$1')
C['FText::new_none'] = pure('''r == (FText { flags: $0, history: match $1 {
        Some(s) => FTextHistory::None { culture_invariant_string: s }, None => FTextHistory::Empty {} } })''')
C['FText::new_base'] = pure('r == (FText { flags: $0, history: FTextHistory::Base { namespace: $1, key: $2, source_string: $3 } })')
C['TextProperty::new'] = pure('r == (TextProperty { value: $0 })')
C['FText::read'] = reader('p_text(@, cvo($1))')
C['FText::write'] = writer('enc_text(*self, cvo($2))', 'wok_text(*self, cvo($2))', wr='$1')
C['FormatArgumentValue::read'] = reader('p_arg(@, cvo($1))', extra=[('MONO', 'r is Ok ==> final($0).pos() > old($0).pos()')])
C['FormatArgumentValue::write'] = writer('enc_arg(*self, cvo($2))', 'wok_arg(*self, cvo($2))', wr='$1')


def histloop(k, p, acc):
    return '''invariant rd_ok($0), $0.data() == old($0).data(), old($0).pos() < $0.pos(), __it%(k)d.cur >= 0,
        s_%(k)d == (%(p)s($0.data(), $0.pos(), cvo($1), __it%(k)d.end - __it%(k)d.cur, %(acc)s)),
    decreases __it%(k)d.end - __it%(k)d.cur''' % dict(k=k, p=p, acc=acc)


HL = [(0, 'p_named', 'arguments.0@'), (1, 'p_args', 'arguments@'), (2, 'p_named', 'arguments.0@')]
HISTS = ['Empty', 'None', 'Base', 'NamedFormat', 'OrderedFormat', 'ArgumentFormat', 'AsNumber', 'AsPercent', 'AsCurrency',
         'AsDate', 'AsTime', 'AsDateTime', 'Transform', 'StringTableEntry']
TAG = 'p_enum::<TextHistoryType>(old($0).data(), old($0).pos())'
C['FTextHistory::read'] = reader('p_hist(@, cvo($1))', loops=3,
    cases=[TAG + ' is Ok ==> ' + TAG + '->Ok_0.0 is None'] + ['%s is Ok && %s->Ok_0.0 is %s' % (TAG, TAG, v) for v in
           HISTS[2:] + ['RawText', 'TextGenerator']],
    inv={k: histloop(k, p, a) for k, p, a in HL},
    before={k: 'let ghost s_%d = %s($0.data(), $0.pos(), cvo($1), __it%d.end - __it%d.cur, %s);' % (k, p, k, k, a) for k, p, a in HL})


def rwrloop(k, pre, lst, seq, view, wr='$1', cnt='len', cv='cvo($2)', extra=''):
    """Loop writing list elements whose encoding is recursive."""
    d = dict(k=k, pre=pre, l=lst, s=seq, v=view, wr=wr, cnt=cnt, cv=cv, x=extra)
    return {
        'inv': {k: '''invariant __it%(k)d.src() == %(v)s, 0 <= __it%(k)d.ix() <= %(v)s.len(),
            wrote(old(%(wr)s), %(wr)s, %(pre)s + enc_%(l)s(%(s)s, __it%(k)d.ix(), %(cv)s)), %(x)s
            wok_%(l)s(%(s)s, __it%(k)d.ix(), %(cv)s), %(cnt)s == (%(pre)s + enc_%(l)s(%(s)s, __it%(k)d.ix(), %(cv)s)).len(),
        decreases %(v)s.len() - __it%(k)d.ix()''' % d},
        'before': {k: 'proof { assert(%(pre)s + enc_%(l)s(%(s)s, 0, %(cv)s) =~= %(pre)s); }' % d},
        'body': {k: '''proof { let i_ = __it%(k)d.ix() - 1; lemma_%(l)s_prefix(%(s)s, i_ + 1, %(v)s.len() as int, %(cv)s);
            lemma_%(l)s_step(%(pre)s, %(s)s, i_, %(cv)s); }''' % d},
    }


def merge(*ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r.setdefault(k, {}).update(v)
    return r


C['FTextHistory::write'] = writer('enc_hist(*self, cvo($2))', 'wok_hist(*self, cvo($2))', wr='$1', loops=3, cases=['self is ' + v for v in HISTS], **merge(
    rwrloop(0, '(e_en(TextHistoryType::NamedFormat) + enc_text(**source_format, cvo($2)) + e32(arguments@.len() as i32 as u32))', 'named', '*arguments', 'arguments@'),
    rwrloop(1, '(e_en(TextHistoryType::OrderedFormat) + enc_text(**source_format, cvo($2)) + e32(arguments@.len() as i32 as u32))', 'args', '*arguments', 'arguments@'),
    rwrloop(2, '(e_en(TextHistoryType::ArgumentFormat) + enc_text(**source_format, cvo($2)) + e32(arguments@.len() as i32 as u32))', 'named', '*arguments', 'arguments@')))
prop('TextProperty', 'enc_textp(*self, hdr, cv)', 'wok_text(self.value, cv)')
C['TextProperty::read'] = reader('(if $1 { p_texth(@, cvo(old($2))) } else { p_textb(@, cvo(old($2))) })', extra=[OPT(2)])
C['TextProperty::read_header'] = reader('p_texth(@, cvo(old($1)))', extra=[OPT(1)])
C['TextProperty::read_body'] = reader('p_textb(@, cvo(old($1)))', extra=[OPT(1)])

# ---------------------------------------------------------------- collections, structs, properties
ENV = lambda n: 'env(old($%d)), stk(old($%d))' % (n, n)
KINDS = ['Int8', 'Byte', 'Int16', 'UInt16', 'Int', 'UInt32', 'Int64', 'UInt64', 'Float', 'Double', 'Bool', 'Enum', 'Str', 'Text', 'Name',
         'Object', 'Delegate', 'MulticastInlineDelegate', 'MulticastSparseDelegate', 'FieldPath', 'Struct', 'Array', 'Set', 'Map']
for k in KINDS + ['Unknown', 'StructPropertyValue']:
    t = k if k == 'StructPropertyValue' else k + 'Property'
    C['impl VInto<Property> for %s' % t] = {'items': '    open spec fn into_spec(self) -> Property { Property::%s(self) }' % t}
    C['From<%s> for Property::from' % t] = {}
for s, t, e in (('&str', 'NameProperty', 'NameProperty { array_index: 0, value: Some(mkstr(self@)) }'),
                ('String', 'NameProperty', 'NameProperty { array_index: 0, value: Some(self) }'),
                ('Option < String >', 'NameProperty', 'NameProperty { array_index: 0, value: self }'),
                ('&str', 'ObjectProperty', 'ObjectProperty { value: mkstr(self@) }'),
                ('&str', 'StrProperty', 'StrProperty { value: Some(mkstr(self@)) }'),
                ('String', 'StrProperty', 'StrProperty { value: Some(self) }')):
    C['impl VInto<%s> for %s' % (t, s)] = {'items': '    open spec fn into_spec(self) -> %s { %s }' % (t, e)}
    C['From<%s> for %s::from' % (s.replace(' ', ''), t)] = {}
C['ObjectProperty::new'] = pure('r == (ObjectProperty { value: $0 })')
C['StrProperty::new'] = pure('r == (StrProperty { value: $0 })')
C['SetProperty::new'] = pure('r == (SetProperty { property_type: $0, allocation_flags: $1, properties: $2 })')
C['StructProperty::new'] = pure('r == (StructProperty { guid: $0, type_name: $1, value: $2 })')
XYZ = {'Vector2': 'x y', 'Vector': 'x y z', 'Rotator': 'pitch yaw roll', 'Quat': 'x y z w'}
SVS = [t + s for t in ('Vector2', 'Vector', 'Rotator', 'Quat') for s in 'FD'] + ['DateTime', 'Timespan', 'Guid', 'LinearColor', 'IntPoint']
for t in SVS:
    C['impl VInto<StructPropertyValue> for %s' % t] = {'items': '    open spec fn into_spec(self) -> StructPropertyValue { StructPropertyValue::%s(self) }' % t}
    C['From<%s> for StructPropertyValue::from' % t] = {}
    f = XYZ.get(t[:-1]) or {'LinearColor': 'r g b a'}.get(t)
    if f:
        C[t + '::new'] = pure('%s == (%s { %s })' % ('rr' if t == 'LinearColor' else 'r', t, ', '.join('%s: OrderedFloat($%d)' % (x, i) for i, x in enumerate(f.split()))))
C['DateTime::new'] = pure('r == (DateTime { ticks: $0 })')
C['Timespan::new'] = pure('r == (Timespan { ticks: $0 })')
C['IntPoint::new'] = pure('r == (IntPoint { x: $0, y: $1 })')
ARRS = ['bools', 'bytes', 'enums', 'ints', 'floats', 'names', 'strings', 'structs']
MAPS = ['enum_bools', 'enum_ints', 'enum_props', 'name_bools', 'name_ints', 'name_props', 'str_bools', 'str_ints', 'str_strs', 'str_props']


def collect(k, src, f, m=''):
    """Collecting into a list as long as every element fits."""
    d = dict(k=k, s=src, f=f, m=m)
    return {
        'inv': {k: '''invariant __it%(k)d.src() == %(s)s, coll%(m)s_inv(%(s)s, __it%(k)d.ix(), %(f)s, __acc%(k)d, __err%(k)d),
            decreases %(s)s.len() - __it%(k)d.ix()''' % d},
        'after': {k: 'proof { lemma_coll%(m)s_done(%(s)s, __it%(k)d.ix(), %(s)s.len() as int, %(f)s, __acc%(k)d, __err%(k)d); }' % d},
    }


def arr_cases(t, si):
    ks = ['Bool', 'Byte', 'Enum', 'Int', 'Float', 'Name', 'Str']
    eq = ['%s is None && %s@ == "%sProperty"@' % (si, t, k) for k in ks]
    return eq + ['%s is None && %s' % (si, ' && '.join('%s@ != "%sProperty"@' % (t, k) for k in ks)), '%s is Some' % si]


C['ArrayProperty::new'] = {
    'ensures': [('ACC', 'arr_new($0, $1, $2) is Some ==> r is Ok'), ('REJ', 'arr_new($0, $1, $2) is None ==> r is Err && ev(r->Err_0) == E::Ser'),
                ('VAL', 'arr_new($0, $1, $2) is Some && r is Ok ==> r->Ok_0 == arr_new($0, $1, $2)->Some_0')],
    'top': 'proof { lemma_kinds_apart(); }', 'loops': 8, 'cases': arr_cases('$0', '$1')}
C['ArrayProperty::new'].update(merge(*[collect(k, '$2@', 'fa_%s()' % f) for k, f in enumerate(ARRS)]))
C['ArrayProperty::get_property_type'] = {'ensures': [('VAL', 'r is Ok && r->Ok_0@ == arr_type(*self)')]}
C['StructProperty::get_property_type'] = {'ensures': [('VAL', 'r is Ok && r->Ok_0@ == self.type_name@')]}
C['MapProperty::new'] = {'ensures': [('VAL', 'r == map_new($0, $1, $2, $3)')], 'top': 'proof { lemma_kinds_apart(); }', 'loops': 10,
    'cases': ['$2 != 0', ] + ['$2 == 0 && $0@ == "%sProperty"@ && $1@ == "%sProperty"@' % (a, b) for a in ('Enum', 'Name', 'Str') for b in ('Bool', 'Int')]
        + ['$2 == 0 && $0@ == "StrProperty"@ && $1@ == "StrProperty"@']
        + ['$2 == 0 && $0@ == "%sProperty"@ && $1@ != "BoolProperty"@ && $1@ != "IntProperty"@%s' % (a, ' && $1@ != "StrProperty"@' if a == 'Str' else '') for a in ('Enum', 'Name', 'Str')]
        + ['$2 == 0 && $0@ != "EnumProperty"@ && $0@ != "NameProperty"@ && $0@ != "StrProperty"@']}
C['MapProperty::new'].update(merge(*[collect(k, '$3.0@', 'fm_%s()' % f, 'm') for k, f in enumerate(MAPS)]))
C['MapProperty::key_type'] = {'ensures': [('VAL', 'r@ == map_kt(*self)')]}
C['MapProperty::value_type'] = {'ensures': [('VAL', 'r@ == map_vt(*self)')]}
C['MapProperty::get_key_type'] = {'ensures': [('VAL', 'r is Ok && r->Ok_0@ == map_kt(*self)')]}
C['MapProperty::get_value_type'] = {'ensures': [('VAL', 'r is Ok && r->Ok_0@ == map_vt(*self)')]}


def prdloop(k, p, extra=''):
    """Counted list of properties: what is left to parse, after what is already collected."""
    return {'inv': {k: '''invariant rd_ok($0), $0.data() == old($0).data(), old($0).pos() < $0.pos(), __it%(k)d.cur >= 0, opt_same(old(OPT), OPT), %(x)s
        s_%(k)d == (%(p)s),
    decreases __it%(k)d.end - __it%(k)d.cur''' % dict(k=k, p=p, x=extra)},
        'before': {k: 'let ghost s_%d = %s;' % (k, p)}}


def at_new(*asserts):
    """The path an element is read under."""
    return {'call': r'\bProperty :: new \(', 'tag': 'PATH', 'asserts': list(asserts)}


def opts(d, n):
    return {k: {i: s.replace('OPT', '$%d' % n) for i, s in v.items()} for k, v in d.items()}


for t, a in (('Array', 0), ('Set', 0), ('Map', 0), ('Struct', 0)):
    p, n = t.lower(), t + 'Property'
    C[n + '::read'] = reader('(if $1 { p_%sh(@, %s) } else { Err(E::Prop(old($0).pos())) })' % (p, ENV(2)), extra=[OPT(2)])
    C[n + '::read_header'] = reader('p_%sh(@, %s)' % (p, ENV(1)), extra=[OPT(1), ('MONO', 'r is Ok ==> final($0).pos() > old($0).pos()')])
C['ArrayProperty::read_body'] = reader('p_arrayb(@, %s, $2, $3)' % ENV(1), extra=[OPT(1)], loops=2, cases=['$3@ == "StructProperty"@', '$3@ != "StructProperty"@'], **opts(merge(
    prdloop(0, 'p_svs($0.data(), $0.pos(), env(old(OPT)), stk(old(OPT)), struct_name@, __it0.end - __it0.cur, properties@)', 'properties_start <= $0.pos(),'),
    prdloop(1, 'p_props($0.data(), $0.pos(), env(old(OPT)), stk(old(OPT)), property_type@, suggested_length, __it1.end - __it1.cur, properties@)')), 1), at=at_new('stk($1) =~= stk(old($1))'))
C['SetProperty::read_body'] = reader('p_setb(@, %s, $2, $3)' % ENV(1), extra=[OPT(1)], loops=1, **opts(
    prdloop(0, 'p_props($0.data(), $0.pos(), env(old(OPT)), stk(old(OPT)), property_type@, Some(total_bytes_per_property), __it0.end - __it0.cur, properties@)'), 1), at=at_new('stk($1) =~= stk(old($1))'))
C['MapProperty::read_body'] = reader('p_mapb(@, %s, $2, $3)' % ENV(1), extra=[OPT(1)], loops=1, **opts(
    prdloop(0, 'p_pairs($0.data(), $0.pos(), env(old(OPT)), stk(old(OPT)), key_type@, value_type@, __it0.end - __it0.cur, map.0@)'), 1),
    at=at_new('stk($1) =~= stk(old($1)).push(mkstr("Key"@))', 'stk($1) =~= stk(old($1)).push(mkstr("Value"@))'))
NAMED = ['Vector', 'Vector2D', 'Rotator', 'Quat', 'DateTime', 'Timespan', 'LinearColor', 'IntPoint', 'Guid', 'GameplayTagContainer']
C['StructProperty::read_body'] = reader('p_sv(@, %s, $1@)' % ENV(2), extra=[OPT(2)], top='proof { lemma_structs_apart(); }',
    cases=['$1@ == "%s"@' % n for n in NAMED] + [' && '.join('$1@ != "%s"@' % n for n in NAMED)])
for f, p, o in (('vector', 'vector', 1), ('vector2', 'vector2', 1), ('rotator', 'rotator', 1), ('quat', 'quat', 1), ('datetime', 'datetime', 0),
                ('timespan', 'timespan', 0), ('linearcolor', 'color', 0), ('intpoint', 'point', 0), ('guid', 'guidv', 0)):
    C['StructPropertyValue::read_' + f] = reader('p_%s(@%s)' % (p, ', cvo(old($1))' if o else ''), extra=[OPT(1)] if o else [])
C['StructPropertyValue::read_gameplaytagcontainer'] = reader('p_tags(@)', loops=1, **opts({
    'inv': {0: '''invariant rd_ok($0), $0.data() == old($0).data(), old($0).pos() < $0.pos(), __it0.cur >= 0,
        s_0 == p_strings($0.data(), $0.pos(), __it0.end - __it0.cur, tags@), decreases __it0.end - __it0.cur'''},
    'before': {0: 'let ghost s_0 = p_strings($0.data(), $0.pos(), __it0.end - __it0.cur, tags@);'}}, 1))
FLD = '''p_fields($0.data(), $0.pos(), env(old($1)), stk(old($1)), properties.0@)'''
C['StructPropertyValue::read_custom'] = reader(
    'p_fold(p_fields(@, %s, Seq::empty()), |m: IndexMap<String, Vec<Property>>| StructPropertyValue::CustomStruct(HashableIndexMap(m)))' % ENV(1), extra=[OPT(1)], loops=1, attrs=['#[verifier::allow_complex_invariants]'],
    inv={0: '''invariant_except_break rd_ok($0), $0.data() == old($0).data(), old($0).pos() <= $0.pos(), opt_same(old($1), $1),
            p_fields(old($0).data(), old($0).pos(), env(old($1)), stk(old($1)), Seq::empty()) == %s,
        ensures rd_ok($0), $0.data() == old($0).data(), old($0).pos() <= $0.pos(), opt_same(old($1), $1),
            p_fields(old($0).data(), old($0).pos(), env(old($1)), stk(old($1)), Seq::empty()) == PR::<IndexMap<String, Vec<Property>>>::Ok((properties.0, $0.pos())),
        decreases $0.data().len() - $0.pos()''' % FLD},
    body={0: 'let ghost p_0 = $0.pos();'}, at=at_new('stk($1) =~= stk(old($1)).push(p_string($0.data(), p_0)->Ok_0.0)'))
PP = 'p_prop(old($0).data(), old($0).pos(), %s, $1@, $2, $4)' % ENV(3)
HP = 'join_spec(stk(old($3)).push(mkstr($1@)), "."@)'
C['Property::new'] = reader('p_prop(@, %s, $1@, $2, $4)' % ENV(3), extra=[OPT(3),
    # what the path that leads to a hint is made of
    ('PATH', '$1@ == "StructProperty"@ && !$2 && !env(old($3)).h.contains_key(%s) ==> r is Err && ev(r->Err_0) == E::Hint("StructProperty"@, %s, old($0).pos())' % (HP, HP)),
    ('PATH', '$1@ == "StructProperty"@ && !$2 && env(old($3)).h.contains_key(%s) && %s is Ok ==> r is Ok' % (HP, PP)),
    ('PATH', '$2 && ($1@ == "StructProperty"@ || $1@ == "ArrayProperty"@ || $1@ == "SetProperty"@ || $1@ == "MapProperty"@) && %s is Err && %s->Err_0 is Hint ==> r is Err && ev(r->Err_0) == %s->Err_0' % (PP, PP, PP))],
    top='proof { lemma_kinds_apart(); }',
    cases=['$1@ == "%sProperty"@' % k for k in KINDS] + [' && '.join('$1@ != "%sProperty"@' % k for k in KINDS)])


def ploop(k, seq, pre, E, W, step, wr='$1', cnt='len', opt='$2'):
    """Loop writing elements; m_k is the list, E and W what is written and valid up to an index."""
    d = dict(k=k, pre=pre, wr=wr, cnt=cnt, opt=opt, E=E('__it%d.ix()' % k), W=W('__it%d.ix()' % k), E0=E('0'), step=step, seq=seq)
    return {
        'before': {k: 'let ghost m_%(k)d = *%(seq)s; proof { assert(%(pre)s + %(E0)s =~= %(pre)s); }' % d},
        'inv': {k: '''invariant __it%(k)d.src() == m_%(k)d@, 0 <= __it%(k)d.ix() <= m_%(k)d@.len(), opt_same(old(%(opt)s), %(opt)s),
            wrote(old(%(wr)s), %(wr)s, %(pre)s + %(E)s), %(W)s, %(cnt)s == (%(pre)s + %(E)s).len(),
        decreases m_%(k)d@.len() - __it%(k)d.ix()''' % d},
        'body': {k: 'proof { let i_ = __it%(k)d.ix() - 1; %(step)s }' % d},
    }


def each(k, seq, f):
    pre = '(e32(m_%d@.len() as u32))' % k
    return ploop(k, seq, pre, lambda i: 'e_each(m_%d@, %s, fe_%s())' % (k, i, f), lambda i: 'w_each(m_%d@, %s, fw_%s())' % (k, i, f),
                 'lemma_each_step(%s, m_%d@, i_, m_%d@.len() as int, fe_%s(), fw_%s());' % (pre, k, k, f, f))


def each2(k, seq, f):
    pre = '(e32(0) + e32(m_%d@.len() as u32))' % k
    v = {'sbool': 'e_bool(m_%d@[i_].1)', 'sint': 'e32(m_%d@[i_].1 as u32)', 'sstr': 'e_fstring(osv(m_%d@[i_].1))'}[f] % k
    return ploop(k, seq, pre, lambda i: 'e_each(m_%d@, %s, fe_%s())' % (k, i, f), lambda i: 'w_each(m_%d@, %s, fw_%s())' % (k, i, f),
                 'lemma_each_step2(%s, m_%d@, i_, m_%d@.len() as int, fe_%s(), fw_%s(), e_string(m_%d@[i_].0@), %s);' % (pre, k, k, f, f, k, v))


def rec(k, seq, l, pre, opt='$2', **kw):
    cv = 'cvo(old(%s))' % opt
    return ploop(k, seq, pre, lambda i: 'enc_%s(m_%d, %s, %s)' % (l, k, i, cv), lambda i: 'wok_%s(m_%d, %s, %s)' % (l, k, i, cv),
                 'lemma_%s_prefix(m_%d, i_ + 1, m_%d@.len() as int, %s); lemma_%s_step(%s, m_%d, i_, %s);' % (l, k, k, cv, l, pre, k, cv), opt=opt, **kw)


AW = ['Bools', 'Bytes', 'Enums', 'Floats', 'Ints', 'Names', 'Strings', 'Structs', 'Properties']
SL = rec(7, 'structs', 'svs', 'Seq::<u8>::empty()')
SL['before'][7] = '''let ghost m_7 = *structs; let ghost b_7 = *buf; let ghost l_7 = len as int; proof { assert(anchor(&b_7)); lemma_wrote_nothing(&b_7); }'''
SL['inv'][7] = '''invariant __it7.src() == m_7@, 0 <= __it7.ix() <= m_7@.len(), opt_same(old($2), $2), wr_ok(&b_7), b_7.data().len() == 0, b_7.pos() == 0,
            wrote(&b_7, &*buf, enc_svs(m_7, __it7.ix(), cvo(old($2)))), wok_svs(m_7, __it7.ix(), cvo(old($2))), len == l_7 + enc_svs(m_7, __it7.ix(), cvo(old($2))).len(),
        decreases m_7@.len() - __it7.ix()'''
SL['body'][7] = 'proof { let i_ = __it7.ix() - 1; lemma_svs_prefix(m_7, i_ + 1, m_7@.len() as int, cvo(old($2))); }'
prop('ArrayProperty', 'enc_array(*self, hdr, cv)', 'wok_array(*self, hdr, cv)', btop='lemma_kinds();', bkw=dict(loops=9, cases=['self is ' + v for v in AW],
    **merge(*[each(k, v.lower(), v.lower()) for k, v in enumerate(AW[:7])], SL, rec(8, 'properties', 'props', '(e32(m_8@.len() as u32))'))))
prop('SetProperty', 'enc_set(*self, hdr, cv)', 'wok_set(*self, hdr, cv)', bkw=dict(loops=1, **rec(0, '(&self.properties)', 'props', '(e32(self.allocation_flags) + e32(m_0@.len() as u32))')))
MW = ['EnumBool', 'EnumInt', 'EnumProperty', 'NameBool', 'NameInt', 'NameProperty', 'Properties', 'StrBool', 'StrInt', 'StrProperty', 'StrStr']
ml = []
for k, v in enumerate(MW):
    if v == 'Properties':
        ml.append(rec(k, 'value', 'pairs', '(e32(*allocation_flags) + e32(m_%d@.len() as u32))' % k))
    else:
        a, b = [x for x in ('Enum', 'Name', 'Str') if v.startswith(x)][0], None
        b = v[len(a):]
        seq = a.lower() + '_' + {'Bool': 'bools', 'Int': 'ints', 'Property': 'props', 'Str': 'strs'}[b]
        ml.append(rec(k, seq, 'kprops', '(e32(0) + e32(m_%d@.len() as u32))' % k) if b == 'Property' else each2(k, seq, 's' + b.lower()))
prop('MapProperty', 'enc_map(*self, hdr, cv)', 'wok_map(*self, hdr, cv)', bkw=dict(loops=11, cases=['self is ' + v for v in MW], **merge(*ml)))
prop('StructProperty', 'enc_struct(*self, hdr, cv)', 'wok_struct(*self, hdr, cv)')
CV2 = 'cvo(old($2))'
svl = {
    'before': {0: 'let ghost m_0 = *tags; proof { assert(e32(m_0@.len() as i32 as u32) + e_strings(m_0@, 0) =~= e32(m_0@.len() as i32 as u32)); }',
               1: 'let ghost m_1 = properties.0; proof { lemma_wrote_nothing(old($1)); lemma_none_ok(); }',
               2: 'let ghost m_2 = *values; let ghost k_2 = key@; let ghost i_2 = __it1.ix() - 1;'},
    'inv': {0: '''invariant __it0.src() == m_0@, 0 <= __it0.ix() <= m_0@.len(), opt_same(old($2), $2),
            wrote(old($1), $1, e32(m_0@.len() as i32 as u32) + e_strings(m_0@, __it0.ix())), w_strings(m_0@, __it0.ix()),
            len == (e32(m_0@.len() as i32 as u32) + e_strings(m_0@, __it0.ix())).len(),
        decreases m_0@.len() - __it0.ix()''',
            1: '''invariant __it1.src() == m_1@, 0 <= __it1.ix() <= m_1@.len(), opt_same(old($2), $2),
            wrote(old($1), $1, enc_fields(m_1, __it1.ix(), CV)), wok_fields(m_1, __it1.ix(), CV), len == enc_fields(m_1, __it1.ix(), CV).len(),
        decreases m_1@.len() - __it1.ix()'''.replace('CV', CV2),
            2: '''invariant __it2.src() == m_2@, 0 <= __it2.ix() <= m_2@.len(), opt_same(old($2), $2),
            wrote(old($1), $1, enc_fields(m_1, i_2, CV) + enc_field(k_2, m_2, __it2.ix(), CV)), wok_field(k_2, m_2, __it2.ix(), CV),
            len == (enc_fields(m_1, i_2, CV) + enc_field(k_2, m_2, __it2.ix(), CV)).len(),
        decreases m_2@.len() - __it2.ix()'''.replace('CV', CV2)},
    'body': {0: 'proof { let i_ = __it0.ix() - 1; lemma_strings_prefix(m_0@, i_ + 1, m_0@.len() as int); lemma_strings_step(e32(m_0@.len() as i32 as u32), m_0@, i_); }',
             1: '''proof { let i_ = __it1.ix() - 1; lemma_fields_prefix(m_1, i_ + 1, m_1@.len() as int, CV);
                assert(enc_fields(m_1, i_, CV) + enc_field(m_1@[i_].0@, m_1@[i_].1, 0, CV) =~= enc_fields(m_1, i_, CV)); }'''.replace('CV', CV2),
             2: '''proof { let j_ = __it2.ix() - 1; lemma_field_prefix(k_2, m_2, j_ + 1, m_2@.len() as int, CV); lemma_field_step(enc_fields(m_1, i_2, CV), k_2, m_2, j_, CV); }'''.replace('CV', CV2)},
}
prop('StructPropertyValue', 'enc_sv(*self, cv)', '(!hdr && wok_sv(*self, cv))', bkw=dict(loops=3, cases=['self is ' + v for v in SVS + ['GameplayTagContainer', 'CustomStruct']], **svl))
prop('Property', 'enc_prop(*self, hdr, cv)', 'wok_prop(*self, hdr, cv)')

# ---------------------------------------------------------------- headers and files
C['FCustomVersion::new'] = pure('r == (FCustomVersion { key: $0, version: $1 })')
C['FCustomVersion::read'] = reader('p_cv(@)')
C['FCustomVersion::write'] = writer('e_cv(self.key, self.version)', wr='$1')
C['FEngineVersion::new'] = pure('r == (FEngineVersion { major: $0, minor: $1, patch: $2, change_list: $3, branch: $4 })')
C['FEngineVersion::read'] = reader('p_engine(@)')
C['FEngineVersion::write'] = writer('e_engine(*self)', 'str_ok(self.branch@)', wr='$1')
C['FEngineVersion::get_version'] = pure('r == eng(*self)')
C['GvasHeader::get_custom_versions'] = pure('*r == hcv(*self)')
C['GvasHeader::read'] = reader('p_header(@)', loops=1, inv={0: '''invariant rd_ok($0), $0.data() == old($0).data(), old($0).pos() <= $0.pos(),
        s_0 == p_cvs($0.data(), $0.pos(), __it0.end - __it0.cur, custom_versions.0@), __it0.cur <= __it0.end,
    decreases __it0.end - __it0.cur'''},
    before={0: 'let ghost s_0 = p_cvs($0.data(), $0.pos(), __it0.end - __it0.cur, custom_versions.0@);'})


def hdrloop(k, pre):
    d = dict(k=k, pre=pre)
    return {
        'before': {k: 'let ghost m_%(k)d = custom_versions.0@; proof { assert(%(pre)s + e_cvs(m_%(k)d, 0) =~= %(pre)s); }' % d},
        'inv': {k: '''invariant __it%(k)d.src() == m_%(k)d, 0 <= __it%(k)d.ix() <= m_%(k)d.len(),
            wrote(old($1), $1, %(pre)s + e_cvs(m_%(k)d, __it%(k)d.ix())), len == (%(pre)s + e_cvs(m_%(k)d, __it%(k)d.ix())).len(),
        decreases m_%(k)d.len() - __it%(k)d.ix()''' % d},
        'body': {k: 'proof { let i_ = __it%(k)d.ix() - 1; lemma_cvs_prefix(m_%(k)d, i_ + 1, m_%(k)d.len() as int); lemma_cvs_step(%(pre)s, m_%(k)d, i_); }' % d},
    }


HP = '(e32(GVAS) + e32(%d) + e32(*package_file_version)%s + e_engine(*engine_version) + e32(*custom_version_format) + e32(custom_versions.0@.len() as u32))'
C['GvasHeader::write'] = writer('enc_header(*self)', 'wok_header(*self)', wr='$1', loops=2, cases=['self is Version2', 'self is Version3'],
    **merge(hdrloop(0, HP % (2, '')), hdrloop(1, HP % (3, ' + e32(*package_file_version_ue5)'))))

PAY, BODY = 'p_pay(old($0).data(), old($0).pos(), $1)', 'p_body(PAY->Ok_0.data, HINTS)'


def gfile(h, **kw):
    c = {'requires': ['rd_ok(old($0))'], 'ensures': [
        ('ACC', 'PAY is Ok && PAY->Ok_0.sure && BODY is Ok ==> r is Ok'),
        ('REJ', 'PAY is Err || BODY is Err ==> r is Err'),
        ('VAL', 'PAY is Ok && BODY is Ok && r is Ok ==> r->Ok_0.header == BODY->Ok_0.0 && r->Ok_0.properties.0 == BODY->Ok_0.1'),
        ('GV', 'PAY is Ok && r is Ok ==> r->Ok_0.deserialized_game_version == PAY->Ok_0.gv'),
        ('ERR', 'PAY is Err && r is Err ==> ev(r->Err_0) == PAY->Err_0'),
        ('ERR', 'PAY is Ok && PAY->Ok_0.sure && BODY is Err && r is Err ==> ev(r->Err_0) == BODY->Err_0'),
    ]}
    f = lambda s: s.replace('BODY', BODY).replace('PAY', PAY).replace('HINTS', h)
    c['ensures'] = [(t, f(e)) for t, e in c['ensures']]
    c.update({k: {i: f(s) for i, s in v.items()} if isinstance(v, dict) and k != 'at' else v for k, v in kw.items()})
    return c


C['const PLZ_MAGIC'] = {'ensures': [('VAL', 'PLZ_MAGIC@ == plz()')], 'top': ''}
C['GvasFile::read'] = gfile('Map::<Seq<char>, String>::empty()')
TOP = 'p_top(cursor.data(), cursor.pos(), Env { h: hints@, cv: hcv(header).0@ }, properties.0@)'
C['GvasFile::read_with_hints'] = gfile('$2@', loops=1, attrs=['#[verifier::allow_complex_invariants]'],
    body={0: 'let ghost p_0 = cursor.pos();'}, at=at_new('stk(&options) =~= Seq::empty().push(p_string(d_0, p_0)->Ok_0.0)'),
    before={0: 'let ghost s_0 = %s; let ghost d_0 = cursor.data(); let ghost h_0 = header;' % TOP},
    inv={0: '''invariant_except_break rd_ok(&cursor), cursor.data() == d_0, options.properties_stack@ == Seq::<String>::empty(), *options.hints == *hints, options.custom_versions.0@ == hcv(h_0).0@,
            s_0 == %s,
        ensures s_0 == PR::<IndexMap<String, Property>>::Ok((properties.0, cursor.pos())),
        decreases cursor.data().len() - cursor.pos()''' % TOP})
WB = 'enc_header(self.header) + enc_top(self.properties.0, %s, hcv(self.header).0@)'
C['GvasFile::write'] = {
    'requires': ['wr_ok(old($1))'],
    'ensures': [('OUT', 'r is Ok ==> file_wrote(*self, old($1), final($1))'),
                ('TOTAL', 'old($1).infallible() && wok_body(*self) && file_room(*self, old($1)) ==> r is Ok'),
                ('VALID', 'r is Ok ==> wok_body(*self)')],
    'top': 'broadcast use {lemma_patch, lemma_wrote_same, lemma_cut, lemma_pal, lemma_zlib}; proof { assert(anchor(old($1))); lemma_none_ok(); }',
    'loops': 1, 'cases': ['self.deserialized_game_version is Default'] + ['self.deserialized_game_version is Palworld && self.deserialized_game_version->Palworld_0 is ' + t
        for t in ('None', 'Zlib', 'ZlibTwice')],
    'before': {0: 'proof { assert(%s =~= enc_header(self.header)); }' % (WB % '0')},
    'inv': {0: '''invariant __it0.src() == self.properties.0@, 0 <= __it0.ix() <= self.properties.0@.len(), cvo(&options) == hcv(self.header).0@,
            wr_ok(&writing_cursor), at_end(&writing_cursor), writing_cursor.data() == %s, wok_top(self.properties.0, __it0.ix(), hcv(self.header).0@),
        decreases self.properties.0@.len() - __it0.ix()''' % (WB % '__it0.ix()')},
    'body': {0: '''proof { let i_ = __it0.ix() - 1; lemma_top_prefix(self.properties.0, i_ + 1, self.properties.0@.len() as int, hcv(self.header).0@);
        lemma_top_step(enc_header(self.header), self.properties.0, i_, hcv(self.header).0@); }'''},
}

# ---------------------------------------------------------------- typed access
GETS = {'array': 'Array', 'enum': 'Enum', 'bool': 'Bool', 'byte': 'Byte', 'f64': 'Double', 'f32': 'Float', 'i16': 'Int16', 'i64': 'Int64', 'i8': 'Int8',
        'int': 'Int', 'u16': 'UInt16', 'u32': 'UInt32', 'u64': 'UInt64', 'map': 'Map', 'name': 'Name', 'object_ref': 'Object', 'delegate': 'Delegate',
        'multicast_inline_delegate': 'MulticastInlineDelegate', 'multicast_sparse_delegate': 'MulticastSparseDelegate', 'field_path': 'FieldPath',
        'set': 'Set', 'str': 'Str', 'struct': 'Struct', 'text': 'Text', 'unknown': 'Unknown'}
SGETS = {'vector_f': 'VectorF', 'vector_d': 'VectorD', 'rotator_f': 'RotatorF', 'rotator_d': 'RotatorD', 'quat_f': 'QuatF', 'quat_d': 'QuatD',
         'date_time': 'DateTime', 'int_point': 'IntPoint', 'guid': 'Guid', 'custom_struct': 'CustomStruct'}
for _k in list(GETS.values()) + ['StructPropertyValue']:
    _k += '' if _k.endswith('Value') else 'Property'
    C['TryInto<%s> for Property::try_into' % _k] = pure('match r { Ok(x) => self == Property::%s(x), Err(_) => !(self is %s) }' % (_k, _k))
for t, names, suf in (('Property', GETS, 'Property'), ('StructPropertyValue', SGETS, '')):
    for g, v in names.items():
        v += suf
        C['%s::get_%s' % (t, g)] = pure('match r { Some(x) => self is %s && *x == self->%s_0, None => !(self is %s) }' % (v, v, v))
        C['%s::get_%s_mut' % (t, g)] = pure('''match r { Some(x) => *old(self) == %s::%s(*x) && *final(self) == %s::%s(*final(x)),
            None => !(*old(self) is %s) && *final(self) == *old(self) }''' % (t, v, t, v, v))
