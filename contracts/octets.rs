// What octet strings and texts are.
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;

pub type Octet = u8;
pub type Octets = Seq<u8>;
pub type Text = Seq<char>;
pub type Str<'a> = &'a str;

#[verifier::inline]
pub open spec fn oct(s: Octets, i: int) -> u8 { s[i] }

#[verifier::inline]
pub open spec fn octets_ok(s: Octets) -> bool { vstd::utf8::valid_utf8(s) }

#[verifier::inline]
pub open spec fn text_of(s: Octets) -> Text { vstd::utf8::decode_utf8(s) }

// comparison of octet strings, and of octet strings with constants
pub broadcast proof fn eq_slice(a: &[u8], b: &[u8])
    ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) <==> a@ =~= b@,
{}
pub broadcast proof fn eq_array<const N: usize>(a: &[u8], b: [u8; N])
    ensures #[trigger] <&[u8] as PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) <==> a@ =~= b@,
{}
pub broadcast proof fn eq_array_ref<const N: usize>(a: &[u8], b: &[u8; N])
    ensures #[trigger] <&[u8] as PartialEqSpec<&[u8; N]>>::eq_spec(&a, &b) <==> a@ =~= b@,
{}
pub broadcast proof fn eq_array_place<const N: usize>(a: &[u8], b: &[u8; N])
    ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) <==> a@ =~= b@,
{}

// no object is larger than isize::MAX octets
pub broadcast axiom fn slice_size(s: &[u8])
    ensures #[trigger] s@.len() <= isize::MAX;

pub broadcast group group_eq {
    slice_size, eq_slice, eq_array, eq_array_ref, eq_array_place,
}
