// ------------------------------------------------------------------ kind names
/// a fingerprint that tells the kind names apart
#[verifier::opaque]
pub open spec fn kid(s: Seq<char>) -> int { ((((s.len() * 1000) + (s[0] as int) + (s[1] as int) * 7) * 1000 + (s[3] as int)) * 1000 + (s[4] as int)) * 1000 + (s[9] as int) }
pub proof fn lemma_lit_ok(s: Seq<char>)
    requires is_ascii(s), s.len() < 1000
    ensures str_ok(s)
{ reveal(str_ok); vstd::utf8::is_ascii_chars_encode_utf8(s); }
pub proof fn lemma_kinds()
    ensures
        str_ok("Int8Property"@),
        str_ok("ByteProperty"@),
        str_ok("Int16Property"@),
        str_ok("UInt16Property"@),
        str_ok("IntProperty"@),
        str_ok("UInt32Property"@),
        str_ok("Int64Property"@),
        str_ok("UInt64Property"@),
        str_ok("FloatProperty"@),
        str_ok("DoubleProperty"@),
        str_ok("BoolProperty"@),
        str_ok("EnumProperty"@),
        str_ok("StrProperty"@),
        str_ok("TextProperty"@),
        str_ok("NameProperty"@),
        str_ok("ObjectProperty"@),
        str_ok("DelegateProperty"@),
        str_ok("MulticastInlineDelegateProperty"@),
        str_ok("MulticastSparseDelegateProperty"@),
        str_ok("FieldPathProperty"@),
        str_ok("StructProperty"@),
        str_ok("ArrayProperty"@),
        str_ok("SetProperty"@),
        str_ok("MapProperty"@),
{
    reveal_strlit("Int8Property"); lemma_lit_ok("Int8Property"@);
    reveal_strlit("ByteProperty"); lemma_lit_ok("ByteProperty"@);
    reveal_strlit("Int16Property"); lemma_lit_ok("Int16Property"@);
    reveal_strlit("UInt16Property"); lemma_lit_ok("UInt16Property"@);
    reveal_strlit("IntProperty"); lemma_lit_ok("IntProperty"@);
    reveal_strlit("UInt32Property"); lemma_lit_ok("UInt32Property"@);
    reveal_strlit("Int64Property"); lemma_lit_ok("Int64Property"@);
    reveal_strlit("UInt64Property"); lemma_lit_ok("UInt64Property"@);
    reveal_strlit("FloatProperty"); lemma_lit_ok("FloatProperty"@);
    reveal_strlit("DoubleProperty"); lemma_lit_ok("DoubleProperty"@);
    reveal_strlit("BoolProperty"); lemma_lit_ok("BoolProperty"@);
    reveal_strlit("EnumProperty"); lemma_lit_ok("EnumProperty"@);
    reveal_strlit("StrProperty"); lemma_lit_ok("StrProperty"@);
    reveal_strlit("TextProperty"); lemma_lit_ok("TextProperty"@);
    reveal_strlit("NameProperty"); lemma_lit_ok("NameProperty"@);
    reveal_strlit("ObjectProperty"); lemma_lit_ok("ObjectProperty"@);
    reveal_strlit("DelegateProperty"); lemma_lit_ok("DelegateProperty"@);
    reveal_strlit("MulticastInlineDelegateProperty"); lemma_lit_ok("MulticastInlineDelegateProperty"@);
    reveal_strlit("MulticastSparseDelegateProperty"); lemma_lit_ok("MulticastSparseDelegateProperty"@);
    reveal_strlit("FieldPathProperty"); lemma_lit_ok("FieldPathProperty"@);
    reveal_strlit("StructProperty"); lemma_lit_ok("StructProperty"@);
    reveal_strlit("ArrayProperty"); lemma_lit_ok("ArrayProperty"@);
    reveal_strlit("SetProperty"); lemma_lit_ok("SetProperty"@);
    reveal_strlit("MapProperty"); lemma_lit_ok("MapProperty"@);
}
pub proof fn lemma_kinds_apart()
    ensures
        kid("Int8Property"@) == 12843056080114,
        kid("ByteProperty"@) == 12913101080114,
        kid("Int16Property"@) == 13843049054101,
        kid("UInt16Property"@) == 14596116049112,
        kid("IntProperty"@) == 11843080114116,
        kid("UInt32Property"@) == 14596116051112,
        kid("Int64Property"@) == 13843054052101,
        kid("UInt64Property"@) == 14596116054112,
        kid("FloatProperty"@) == 13826097116101,
        kid("DoubleProperty"@) == 14845098108112,
        kid("BoolProperty"@) == 12843108080114,
        kid("EnumProperty"@) == 12839109080114,
        kid("StrProperty"@) == 11895080114116,
        kid("TextProperty"@) == 12791116080114,
        kid("NameProperty"@) == 12757101080114,
        kid("ObjectProperty"@) == 14765101099112,
        kid("DelegateProperty"@) == 16775101103114,
        kid("MulticastInlineDelegateProperty"@) == 31896116105073,
        kid("MulticastSparseDelegateProperty"@) == 31896116105083,
        kid("FieldPathProperty"@) == 17805108100080,
        kid("StructProperty"@) == 14895117099112,
        kid("ArrayProperty"@) == 13863097121101,
        kid("SetProperty"@) == 11790080114116,
        kid("MapProperty"@) == 11756080114116,
{
    reveal(kid);
    reveal_strlit("Int8Property");
    reveal_strlit("ByteProperty");
    reveal_strlit("Int16Property");
    reveal_strlit("UInt16Property");
    reveal_strlit("IntProperty");
    reveal_strlit("UInt32Property");
    reveal_strlit("Int64Property");
    reveal_strlit("UInt64Property");
    reveal_strlit("FloatProperty");
    reveal_strlit("DoubleProperty");
    reveal_strlit("BoolProperty");
    reveal_strlit("EnumProperty");
    reveal_strlit("StrProperty");
    reveal_strlit("TextProperty");
    reveal_strlit("NameProperty");
    reveal_strlit("ObjectProperty");
    reveal_strlit("DelegateProperty");
    reveal_strlit("MulticastInlineDelegateProperty");
    reveal_strlit("MulticastSparseDelegateProperty");
    reveal_strlit("FieldPathProperty");
    reveal_strlit("StructProperty");
    reveal_strlit("ArrayProperty");
    reveal_strlit("SetProperty");
    reveal_strlit("MapProperty");
}
