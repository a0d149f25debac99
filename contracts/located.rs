// What octet strings and texts are where it matters which octets they are, not only what
// value they have (C21).  Slices of octets are slices of `Oct`.  An `Oct` cannot be made,
// copied or moved: a value of type `&'a [Oct]` can only be a part of the input, or empty.
// Each `Oct` is a thing of its own, its value being but one thing about it, so that a
// postcondition `ret@ == s.subrange(a, b)` says which part.  A text consists of the octets
// that encode it.
use vstd::prelude::*;
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl};

#[verifier::external_body]
pub struct Oct { v: u8 }

impl Oct {
    pub uninterp spec fn val(&self) -> u8;

    #[verifier::external_body]
    pub fn is_ascii_digit(&self) -> (ret: bool)
        ensures ret == (48 <= self.val() && self.val() <= 57),
    { self.v.is_ascii_digit() }
}

pub type Octet = Oct;
pub type Octets = Seq<Oct>;
pub type Text = Seq<Oct>;

#[verifier::inline]
pub open spec fn oct(s: Octets, i: int) -> u8 { s[i].val() }

pub open spec fn values(s: Octets) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i].val()) }

pub open spec fn octets_ok(s: Octets) -> bool { vstd::utf8::valid_utf8(values(s)) }

#[verifier::inline]
pub open spec fn text_of(s: Octets) -> Text { s }

// reading a place
pub trait Read {
    type Out;
    spec fn out(&self) -> Self::Out;
    fn read(&self) -> (ret: Self::Out)
        ensures ret == self.out();
}

impl Read for Oct {
    type Out = u8;
    open spec fn out(&self) -> u8 { self.val() }
    #[verifier::external_body]
    fn read(&self) -> (ret: u8) { self.v }
}

macro_rules! read_plain {
    ($($t:ty),*) => { verus! { $(
        impl Read for $t {
            type Out = $t;
            open spec fn out(&self) -> $t { *self }
            fn read(&self) -> (ret: $t) { *self }
        }
    )* } };
}
read_plain!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool);

impl<'a, T: ?Sized> Read for &'a T {
    type Out = &'a T;
    open spec fn out(&self) -> &'a T { *self }
    fn read(&self) -> (ret: &'a T) { *self }
}

pub type Str<'a> = Txt<'a>;

// a text in the input
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Txt<'a> { s: &'a [Oct] }

impl<'a> View for Txt<'a> {
    type V = Text;
    uninterp spec fn view(&self) -> Text;
}

#[verifier::external_body]
pub fn from_utf8<'a>(s: &'a [Oct]) -> (ret: Result<Txt<'a>, core::str::Utf8Error>)
    ensures
        ret is Ok <==> octets_ok(s@),
        ret is Ok ==> ret->Ok_0@ == s@,
{ unimplemented!() }

// octets are compared by value
impl PartialEqSpecImpl for Oct {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Oct) -> bool { self.val() == other.val() }
}
impl PartialEq for Oct {
    #[verifier::external_body]
    fn eq(&self, other: &Oct) -> (ret: bool) { self.v == other.v }
}
impl PartialEqSpecImpl<u8> for Oct {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &u8) -> bool { self.val() == *other }
}
impl PartialEq<u8> for Oct {
    #[verifier::external_body]
    fn eq(&self, other: &u8) -> (ret: bool) { self.v == *other }
}
impl<'a> PartialEqSpecImpl for Txt<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Txt<'a>) -> bool { values(self@) == values(other@) }
}
impl<'a> PartialEq for Txt<'a> {
    #[verifier::external_body]
    fn eq(&self, other: &Txt<'a>) -> (ret: bool) { unimplemented!() }
}
impl<'a> PartialEqSpecImpl<str> for Txt<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { vstd::utf8::decode_utf8(values(self@)) == other@ }
}
impl<'a> PartialEq<str> for Txt<'a> {
    #[verifier::external_body]
    fn eq(&self, other: &str) -> (ret: bool) { unimplemented!() }
}
impl<'a, 'b> PartialEqSpecImpl<&'b str> for Txt<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&'b str) -> bool { vstd::utf8::decode_utf8(values(self@)) == other@ }
}
impl<'a, 'b> PartialEq<&'b str> for Txt<'a> {
    #[verifier::external_body]
    fn eq(&self, other: &&'b str) -> (ret: bool) { unimplemented!() }
}
impl<'a> Read for Txt<'a> {
    type Out = Txt<'a>;
    open spec fn out(&self) -> Txt<'a> { *self }
    fn read(&self) -> (ret: Txt<'a>) { *self }
}

// comparison of octet strings, and of octet strings with constants
pub broadcast proof fn eq_slice(a: &[Oct], b: &[Oct])
    ensures #[trigger] <[Oct] as PartialEqSpec<[Oct]>>::eq_spec(a, b) <==> values(a@) =~= values(b@),
{ 
    if values(a@) == values(b@) {
        assert forall|i: int| 0 <= i < a@.len() implies a@[i].val() == b@[i].val() by { assert(values(a@)[i] == values(b@)[i]); }
    }
 }
pub broadcast proof fn eq_array<const N: usize>(a: &[Oct], b: [u8; N])
    ensures #[trigger] <&[Oct] as PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) <==> values(a@) =~= b@,
{ 
    if values(a@) == b@ {
        assert forall|i: int| 0 <= i < a@.len() implies a@[i].val() == b@[i] by { assert(values(a@)[i] == b@[i]); }
    }
 }
pub broadcast proof fn eq_array_ref<const N: usize>(a: &[Oct], b: &[u8; N])
    ensures #[trigger] <&[Oct] as PartialEqSpec<&[u8; N]>>::eq_spec(&a, &b) <==> values(a@) =~= b@,
{ 
    if values(a@) == b@ {
        assert forall|i: int| 0 <= i < a@.len() implies a@[i].val() == b@[i] by { assert(values(a@)[i] == b@[i]); }
    }
 }
pub broadcast proof fn eq_array_place<const N: usize>(a: &[Oct], b: &[u8; N])
    ensures #[trigger] <[Oct] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) <==> values(a@) =~= b@,
{ 
    if values(a@) == b@ {
        assert forall|i: int| 0 <= i < a@.len() implies a@[i].val() == b@[i] by { assert(values(a@)[i] == b@[i]); }
    }
 }

// no object is larger than isize::MAX octets
pub broadcast axiom fn slice_size(s: &[Oct])
    ensures #[trigger] s@.len() <= isize::MAX;

pub broadcast group group_eq {
    slice_size, eq_slice, eq_array, eq_array_ref, eq_array_place,
}
