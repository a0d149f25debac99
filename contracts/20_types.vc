## mod der::types
# items
// the specification's view of decoded values
pub open spec fn v_kind_id(k: spec::Kind) -> ASNTypeId {
    match k {
        spec::Kind::Bool => ASNTypeId::Boolean,
        spec::Kind::Int => ASNTypeId::Integer,
        spec::Kind::Bits => ASNTypeId::BitString,
        spec::Kind::Octets => ASNTypeId::OctetString,
        spec::Kind::Null => ASNTypeId::Null,
        spec::Kind::Oid => ASNTypeId::ObjectIdentifier,
        spec::Kind::Utf8 => ASNTypeId::UTF8String,
        spec::Kind::Printable => ASNTypeId::PrintableString,
        spec::Kind::Ia5 => ASNTypeId::IA5String,
        spec::Kind::Utc => ASNTypeId::UTCTime,
        spec::Kind::Gen => ASNTypeId::GeneralizedTime,
        spec::Kind::Sequence => ASNTypeId::Sequence,
        spec::Kind::SetOf => ASNTypeId::Set,
        spec::Kind::Tag(_) => ASNTypeId::ExplicitTag,
    }
}

pub open spec fn v_id_kind(i: ASNTypeId, tag: u8) -> spec::Kind {
    match i {
        ASNTypeId::Boolean => spec::Kind::Bool,
        ASNTypeId::Integer => spec::Kind::Int,
        ASNTypeId::BitString => spec::Kind::Bits,
        ASNTypeId::OctetString => spec::Kind::Octets,
        ASNTypeId::Null => spec::Kind::Null,
        ASNTypeId::ObjectIdentifier => spec::Kind::Oid,
        ASNTypeId::UTF8String => spec::Kind::Utf8,
        ASNTypeId::PrintableString => spec::Kind::Printable,
        ASNTypeId::IA5String => spec::Kind::Ia5,
        ASNTypeId::UTCTime => spec::Kind::Utc,
        ASNTypeId::GeneralizedTime => spec::Kind::Gen,
        ASNTypeId::Sequence => spec::Kind::Sequence,
        ASNTypeId::Set => spec::Kind::SetOf,
        ASNTypeId::ExplicitTag => spec::Kind::Tag(tag),
    }
}

pub open spec fn v_elem_id(e: spec::Elem) -> ASNTypeId {
    match e {
        spec::Elem::Bool(_) => ASNTypeId::Boolean,
        spec::Elem::Int(_) => ASNTypeId::Integer,
        spec::Elem::Bits(_, _) => ASNTypeId::BitString,
        spec::Elem::Octets(_) => ASNTypeId::OctetString,
        spec::Elem::Null => ASNTypeId::Null,
        spec::Elem::Oid(_) => ASNTypeId::ObjectIdentifier,
        spec::Elem::Utf8(_) => ASNTypeId::UTF8String,
        spec::Elem::Printable(_) => ASNTypeId::PrintableString,
        spec::Elem::Ia5(_) => ASNTypeId::IA5String,
        spec::Elem::Time(_) => ASNTypeId::UTCTime,
        spec::Elem::Sequence(_) => ASNTypeId::Sequence,
        spec::Elem::SetOf(_) => ASNTypeId::Set,
        spec::Elem::Tag(_, _) => ASNTypeId::ExplicitTag,
    }
}

## type der::types::Identifier
# items
impl Identifier {
    pub open spec fn octet(&self) -> int {
        (match self.class {
            TagClass::Universal => 0int,
            TagClass::Application => 64,
            TagClass::ContextSpecific => 128,
            TagClass::Private => 192,
        }) + (match self.pc { PC::Primitive => 0int, PC::Constructed => 32 }) + self.tag
    }
    pub open spec fn wf(&self) -> bool { self.tag < 32 }
}

## der::types::Identifier::from
# props C01 C03
ensures ret.wf(), ret.octet() == $1,

## type der::types::ASNType
# items
impl<'a> ASNType<'a> {
    pub open spec fn elem(&self) -> spec::Elem {
        match self {
            ASNType::Boolean(w) => spec::Elem::Bool(w.value),
            ASNType::Sequence(w) => spec::Elem::Sequence(w.value@),
            ASNType::Set(w) => spec::Elem::SetOf(w.value@),
            ASNType::Integer(w) => spec::Elem::Int(w.value.bytes@),
            ASNType::PrintableString(w) => spec::Elem::Printable(w.value@),
            ASNType::IA5String(w) => spec::Elem::Ia5(w.value@),
            ASNType::UTF8String(w) => spec::Elem::Utf8(w.value@),
            ASNType::Null => spec::Elem::Null,
            ASNType::UTCTime(w) => spec::Elem::Time(w.value as int),
            ASNType::GeneralizedTime(w) => spec::Elem::Time(w.value as int),
            ASNType::BitString(w) => spec::Elem::Bits(w.value.unused_bits, w.value.bytes@),
            ASNType::OctetString(w) => spec::Elem::Octets(w.value@),
            ASNType::ObjectIdentifier(w) => spec::Elem::Oid(w.value.items@),
            ASNType::ExplicitTag(w) => spec::Elem::Tag(w.value.value, w.value.contents@),
        }
    }
    // what every decoded value satisfies
    pub open spec fn wf(&self) -> bool {
        match self {
            ASNType::BitString(w) => w.value.wf(),
            ASNType::GeneralizedTime(w) => false,
            _ => true,
        }
    }
}

## type der::types::ASNBitString
# items
impl<'a> ASNBitString<'a> {
    pub open spec fn wf(&self) -> bool {
        self.unused_bits <= 7 && (self.unused_bits > 0 ==> self.bytes@.len() > 0) && self.bytes@.len() <= 0x1000_0000_0000_0000
    }
    pub open spec fn bits(&self) -> int { spec::bit_size(self.unused_bits, self.bytes@) }
}

## der::types::ASNType::get_id
# props C01
ensures self.wf() ==> ret == v_elem_id(self.elem()),

## der::types::ASNBitString::size
# props C01 C09
requires self.wf(),
ensures ret == self.bits(),

## der::types::ASNBitString::octets
# props C01 C09
ensures
    ret is Some <==> self.unused_bits == 0,
    ret is Some ==> ret->0@ == self.bytes@,

## der::types::ASNBitString::iter
# props C01 C09
ensures ret.bit_string == self, ret.current_bit == 0,

## type der::types::ASNBitStringIterator
# items
impl<'a> ASNBitStringIterator<'a> {
    pub open spec fn wf(&self) -> bool {
        self.bit_string.wf() && self.current_bit <= self.bit_string.bits()
    }
}

## der::types::ASNBitStringIterator::next
# props C01 C09
requires old(self).wf(),
ensures
    final(self).wf(),
    final(self).bit_string == old(self).bit_string,
    old(self).current_bit == old(self).bit_string.bits() ==> ret is None && final(self).current_bit == old(self).current_bit,
    old(self).current_bit < old(self).bit_string.bits() ==>
        final(self).current_bit == old(self).current_bit + 1
        && ret == Some(spec::bit_at(old(self).bit_string.bytes@, old(self).current_bit as int)),
# pre
broadcast use crate::lemmas::shl_top, crate::lemmas::shr_any, crate::lemmas::and_mask;

## der::types::ASNInteger::as_i32
# props C01 C06
ensures
    ret is Some <==> spec::twos(self.bytes@) is Some,
    ret is Some ==> ret->0 == spec::twos(self.bytes@)->0,
# unroll 4
# pre
proof { reveal(spec::twos); }
proof { reveal_with_fuel(spec::be, 6); }

## der::types::ASNObjectIdentifier::new
# props C01 C08
ensures ret.items@ == $1@,

## der::types::ASNObjectIdentifier::values
# props C01 C08
ensures ret@ == self.items@,

## trait der::types::ASNWrapperType
# items
    spec fn sid() -> ASNTypeId;
    spec fn vw(i: Self::Item) -> spec::Elem;
    spec fn ok(i: Self::Item) -> bool;

## der::types::ASNWrapperType::get_id
ensures ret == Self::sid(), ret != ASNTypeId::GeneralizedTime,

## der::types::ASNWrapperType::get_value
ensures
    $1.wf() ==> (ret is Some <==> v_elem_id($1.elem()) == Self::sid()),
    $1.wf() && ret is Some ==> Self::vw(ret->0) == $1.elem() && Self::ok(ret->0),

## impl der::types::Boolean<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::Boolean }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Bool(i) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::Integer<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::Integer }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Int(i.bytes@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::PrintableString<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::PrintableString }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Printable(i@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::IA5String<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::IA5String }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Ia5(i@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::UTF8String<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::UTF8String }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Utf8(i@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::Sequence<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::Sequence }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Sequence(i@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::Set<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::Set }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::SetOf(i@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::ObjectIdentifier<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::ObjectIdentifier }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Oid(i.items@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::OctetString<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::OctetString }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Octets(i@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::BitString<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::BitString }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Bits(i.unused_bits, i.bytes@) }
    open spec fn ok(i: Self::Item) -> bool { i.wf() }

## impl der::types::UtcTime<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::UTCTime }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Time(i.value as int) }
    open spec fn ok(i: Self::Item) -> bool { true }

## impl der::types::ExplicitTag<ASNWrapperType>
# items
    open spec fn sid() -> ASNTypeId { ASNTypeId::ExplicitTag }
    open spec fn vw(i: Self::Item) -> spec::Elem { spec::Elem::Tag(i.value, i.contents@) }
    open spec fn ok(i: Self::Item) -> bool { true }

## type der::types::UtcTime
# items
impl vstd::std_specs::cmp::PartialEqSpecImpl for UtcTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &UtcTime) -> bool { self.value == o.value }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for UtcTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &UtcTime) -> Option<core::cmp::Ordering> {
        Some(if self.value < o.value { core::cmp::Ordering::Less } else if self.value == o.value { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}

## der::types::UtcTime::from_seconds_since_epoch
# props C07 C11
ensures ret.value == $1,
