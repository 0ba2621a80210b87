"""Which property a proof obligation belongs to.

hard(key, tag): properties that are broken if the obligation fails.
soft(key, tag): properties whose argument uses the obligation, so that a failure
                may break them; a concrete input decides.
"""
import re

ALL = ['C%02d' % i for i in range(1, 20)]

SCALARS = r'(Int8|Int16|UInt16|Int|UInt32|Int64|UInt64|Float|Double|Bool|Byte|Str|Object|Name|Enum)Property'
STRUCTS = r'(Vector2F|Vector2D|VectorF|VectorD|RotatorF|RotatorD|QuatF|QuatD|LinearColor|DateTime|Timespan|IntPoint)'

DOMAIN = [
    (r'(read|write)_f?string$|check_string_len|^const MAX', ['C04']),
    (r'^ReadExt|^WriteExt|^trait (Read|Write)Ext', ['C05']),
    (r'^transmute_|^Guid::|for Guid::(from|fmt)|^From<Guid>', ['C17']),
    (r'HashableIndexMap', ['C11']),
    (r'^Default for DeserializedGameVersion', ['C10']),
    (r'^TryInto<', ['C18']),
    (r'::get_\w+$', ['C18']),
    (r'^From<.*> for Property::from', ['C18']),
    (r'^From<.*> for StructPropertyValue::from', ['C18']),
    (r'get_custom_versions', ['C07']),
    (r'^CustomVersionTrait|^From<F(Editor|UE5).*for u32|supports_version|get_custom_version', ['C07']),
    (r'^From<(EUnreal|SaveGame).*for u32', ['C06']),
    (r'PalworldCompressionType|PLZ_MAGIC', ['C10']),
    (r'^TryFrom<i8>|^NumberFormattingOptions|^FText|^FormatArgument|TextProperty', ['C13']),
    (r'^(PropertyTrait for )?' + SCALARS + '::', ['C05']),
    (r'UnknownProperty', ['C09']),
    (r'(Array|Set|Map)Property::', ['C11']),
    (r'Delegate|FieldPath|Struct|^' + STRUCTS + '::', ['C12']),
    (r'^FCustomVersion|^FEngineVersion|^GvasHeader|^OrdExt|^const ', ['C06']),
    (r'^GvasFile::', ['C01', 'C10', 'C19']),
    (r'^(Display for )?DeserializeError::|^Display for (Error|SerializeError)::', ['C16']),
    (r'^SerializeError::', ['C15']),
]


def domain(key):
    for pat, props in DOMAIN:
        if re.search(pat, key):
            return props
    return ['C01']


def is_writer(key):
    return bool(re.search(r'::write(_\w+)?$|check_string_len', key)) or key.startswith('WriteExt')


def is_reader(key):
    return bool(re.search(r'::read(_\w+)?$', key)) or key in ('Property::new', 'OrdExt for I::between') or key.startswith(('ReadExt', 'TryFrom<i8>', 'DeserializeError'))


def hard(key, tag):
    if key == 'Property::new' and tag in ('ACC', 'REJ', 'VAL', 'POS', 'FRAME'):
        return ['C01', 'C19']
    if tag == 'ERR':
        return ['C16']
    if tag == 'HASH' or key.startswith('Hash for'):
        # another way of hashing that agrees with Eq is as good
        return []
    if tag == 'CNT':
        return ['C14']
    if tag in ('TOTAL', 'VALID'):
        return ['C04', 'C15'] if 'check_string_len' in key else ['C15']
    if tag in ('STK', 'PATH'):
        return ['C08']
    if tag == 'MONO':
        return ['C02']
    if tag == 'GV':
        return ['C10']
    if tag in ('PRE', 'BODY'):
        # overflow, panic, a callee's precondition, or the proof itself
        if re.search(r'(Array|Map)Property::new$', key):
            return ['C02', 'C11']
        return ['C15'] if is_writer(key) else ['C02'] if is_reader(key) else domain(key)
    if tag == 'FRAME' and is_writer(key):
        return ['C15']
    d = list(domain(key))
    if tag == 'REJ' and re.search(r'Property::read(_header|_with_header)?$|ArrayProperty::read_body', key):
        d.append('C03')
    if tag in ('OUT', 'INV') and is_writer(key) and not key.startswith('GvasHeader'):
        # other bytes than the ones the reader is proved to turn back into the value
        d += [p for p in ('C01', 'C19') if p not in d]
    return d


def soft(key, tag):
    s = set(domain(key)) | {'C01', 'C19'}
    if is_reader(key):
        s |= {'C02', 'C16', 'C03'}
        if key == 'Property::new' or tag == 'STK' or tag == 'ERR':
            s |= {'C08'}
    if is_writer(key):
        s |= {'C14', 'C15', 'C03'}
    if key == 'Property::new' or key.startswith('PropertyTrait for Property::'):
        s |= {'C05', 'C08', 'C09', 'C11', 'C12', 'C13'}
    if re.search(r'StructPropertyValue::(read_(vector|rotator|quat)|write_body)|FText|FormatArgument|GvasHeader|GvasFile', key):
        s |= {'C07'}
    if key.startswith('GvasFile'):
        s |= {'C06', 'C07', 'C08', 'C12'}
    if re.search(r'(Map|Set|Array|Struct)Property::|StructPropertyValue::read_custom', key):
        s |= {'C08', 'C09'}
    if re.search(r'Guid', key):
        s |= {'C17'}
    return s - set(hard(key, tag))


def wanted(prop, key, tags):
    """Does the property's check verify this function?"""
    if prop in ('C01', 'C19'):
        return domain(key) not in (['C18'], ['C17'])
    ts = list(tags) + ['PRE']
    if any(prop in hard(key, t) for t in ts):
        return True
    if key.startswith('Hash for'):
        return prop in domain(key)
    if prop == 'C03':
        return bool(re.search(r'Property::(read|read_header|read_with_header|write)$|check_size|ArrayProperty::read_body', key))
    if prop == 'C07':
        return any(prop in soft(key, t) for t in ts)
    if prop == 'C08':
        return key == 'Property::new' or 'STK' in tags or key.startswith('GvasFile')
    if prop == 'C09':
        return key in ('Property::new', 'ArrayProperty::read_body', 'SetProperty::read_body') or key.startswith('PropertyTrait for Property')
    if prop in ('C05', 'C11', 'C12', 'C13'):
        return key == 'Property::new' or key.startswith('PropertyTrait for Property') or (prop == 'C12' and key.startswith('GvasFile'))
    if prop == 'C10':
        return key.startswith(('GvasFile', 'GvasHeader'))
    return False
