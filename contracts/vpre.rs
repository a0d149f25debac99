// What the extracted code calls into: the targets of lowered macros, the model of the
// formatter, and the assumed contracts of library functions vstd does not specify.
use vstd::prelude::*;
use crate::spec;

// ---- panics --------------------------------------------------------------------------

// a call of panic!, unreachable!, ...: must be proved unreachable
#[verifier::external_body]
pub fn v_unreachable() -> !
    requires false,
{ panic!() }

// behind the last unrolled iteration of a loop
#[verifier::external_body]
pub fn v_unwind() -> !
    requires false,
{ panic!() }

pub fn v_assert(c: bool)
    requires c,
{}

pub fn v_debug_assert(c: bool)
    requires c,
{}

// ---- formatting ----------------------------------------------------------------------

pub struct FmtError;

// the text written so far, and whether the sink accepts text at all
#[verifier::external_body]
pub struct Fmt { p: core::marker::PhantomData<u8> }

impl View for Fmt {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

impl Fmt {
    pub uninterp spec fn accepts(&self) -> bool;

    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (ret: Result<(), FmtError>)
        ensures
            final(self).accepts() == old(self).accepts(),
            old(self).accepts() ==> ret is Ok && final(self)@ == old(self)@.add(s@),
    { unimplemented!() }
}

// core::fmt::Arguments
#[verifier::external_body]
pub struct Args { p: core::marker::PhantomData<u8> }

#[verifier::external_body]
pub fn v_args() -> Args { unimplemented!() }

#[verifier::external_body]
pub fn v_console() -> Fmt { unimplemented!() }

// a sink that is a String: format!, to_string
#[verifier::external_body]
pub fn v_sink() -> (ret: Fmt)
    ensures ret.accepts(), ret@ == Seq::<char>::empty(),
{ unimplemented!() }

#[verifier::external_body]
pub fn v_string(f: Fmt) -> (ret: String)
    ensures f.accepts() ==> ret@ == f@,
{ unimplemented!() }

pub fn v_touch<T: ?Sized>(x: &T) {}

pub trait VDisplay {
    // whether the text is specified, and the text
    spec fn exact(&self) -> bool;
    spec fn text(&self) -> Seq<char>;

    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>)
        ensures
            final(f).accepts() == old(f).accepts(),
            old(f).accepts() ==> ret is Ok,
            old(f).accepts() && self.exact() ==> final(f)@ == old(f)@.add(self.text());
}

pub fn v_write_str(f: &mut Fmt, s: &str) -> (ret: Result<(), FmtError>)
    ensures
        final(f).accepts() == old(f).accepts(),
        old(f).accepts() ==> ret is Ok && final(f)@ == old(f)@.add(s@),
{ f.write_str(s) }

pub fn v_display<T: VDisplay + ?Sized>(f: &mut Fmt, x: &T) -> (ret: Result<(), FmtError>)
    ensures
        final(f).accepts() == old(f).accepts(),
        old(f).accepts() ==> ret is Ok,
        old(f).accepts() && x.exact() ==> final(f)@ == old(f)@.add(x.text()),
{ x.fmt(f) }

#[verifier::external_body]
pub fn v_debug<T: ?Sized>(f: &mut Fmt, x: &T) -> (ret: Result<(), FmtError>)
    ensures
        final(f).accepts() == old(f).accepts(),
        old(f).accepts() ==> ret is Ok,
{ unimplemented!() }

pub trait VHex {
    spec fn octet(&self) -> u8;
}
impl VHex for u8 {
    open spec fn octet(&self) -> u8 { *self }
}
impl<T: VHex> VHex for &T {
    open spec fn octet(&self) -> u8 { (**self).octet() }
}

// {:02X} of an octet
#[verifier::external_body]
pub fn v_hex2<T: VHex>(f: &mut Fmt, x: &T) -> (ret: Result<(), FmtError>)
    ensures
        final(f).accepts() == old(f).accepts(),
        old(f).accepts() ==> ret is Ok && final(f)@ == old(f)@.add(spec::hex2(x.octet())),
{ unimplemented!() }

macro_rules! display_int {
    ($($t:ty),*) => { verus! { $(
        impl VDisplay for $t {
            open spec fn exact(&self) -> bool { true }
            open spec fn text(&self) -> Seq<char> { spec::dec_text10(*self as int) }
            #[verifier::external_body]
            fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { unimplemented!() }
        }
    )* } };
}
display_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

impl VDisplay for bool {
    open spec fn exact(&self) -> bool { false }
    open spec fn text(&self) -> Seq<char> { Seq::empty() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { unimplemented!() }
}
impl VDisplay for String {
    open spec fn exact(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { f.write_str(self.as_str()) }
}
impl VDisplay for str {
    open spec fn exact(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { f.write_str(self) }
}
impl<T: VDisplay + ?Sized> VDisplay for &T {
    open spec fn exact(&self) -> bool { (**self).exact() }
    open spec fn text(&self) -> Seq<char> { (**self).text() }
    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { (**self).fmt(f) }
}
impl VDisplay for Args {
    open spec fn exact(&self) -> bool { false }
    open spec fn text(&self) -> Seq<char> { Seq::empty() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { unimplemented!() }
}
impl VDisplay for core::str::Utf8Error {
    open spec fn exact(&self) -> bool { false }
    open spec fn text(&self) -> Seq<char> { Seq::empty() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { unimplemented!() }
}

// ---- memory --------------------------------------------------------------------------

// no object is as large as 2^60 octets
#[verifier::external_body]
pub proof fn axiom_slice_len(s: &[crate::octets::Octet])
    ensures s@.len() <= 0x1000_0000_0000_0000,
{ }

// ---- library functions ------------------------------------------------------------------

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

pub assume_specification[core::str::from_utf8](b: &[u8]) -> (r: Result<&str, core::str::Utf8Error>)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(b@),
        r is Ok ==> r->Ok_0@ == vstd::utf8::decode_utf8(b@),
;

pub assume_specification<T>[core::mem::replace](dest: &mut T, src: T) -> (r: T)
    ensures
        *final(dest) == src,
        r == *old(dest),
;

pub assume_specification<T>[<[T]>::split_last](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures
        s@.len() == 0 ==> r is None,
        s@.len() > 0 ==> r is Some && *((r->0).0) == s@.last() && ((r->0).1)@ == s@.drop_last(),
;

pub assume_specification[char::to_digit](c: char, radix: u32) -> (r: Option<u32>)
    requires
        2 <= radix <= 36,
    ensures
        radix == 10 ==> (r is Some <==> '0' <= c && c <= '9'),
        radix == 10 && r is Some ==> r->0 == c as u32 - 48,
;

pub assume_specification[str::repeat](s: &str, n: usize) -> (r: String)
;

// `last_mut` of a vector
#[verifier::external_body]
pub fn v_last_mut<'a, T>(v: &'a mut Vec<T>) -> (r: Option<&'a mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *(r->0) == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r->0)),
{ v.last_mut() }

pub assume_specification[u8::is_ascii_digit](b: &u8) -> (r: bool)
    ensures
        r == (48 <= *b && *b <= 57),
;


/// texts that start or end with others
pub trait VPat {
    spec fn v_pat(&self) -> Seq<char>;
}
impl<'a> VPat for &'a str {
    open spec fn v_pat(&self) -> Seq<char> { (*self)@ }
}
impl VPat for char {
    open spec fn v_pat(&self) -> Seq<char> { seq![*self] }
}
pub open spec fn v_is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
pub open spec fn v_is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) =~= p }

#[verifier::external_body]
pub fn v_text_starts_with<P: VPat>(s: &str, p: P) -> (r: bool)
    ensures r == v_is_prefix(p.v_pat(), s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_text_ends_with<P: VPat>(s: &str, p: P) -> (r: bool)
    ensures r == v_is_suffix(p.v_pat(), s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_text_strip_prefix<P: VPat>(s: &str, p: P) -> (r: Option<&str>)
    ensures
        r is Some == v_is_prefix(p.v_pat(), s@),
        r is Some ==> r->0@ == s@.skip(p.v_pat().len() as int) && s@ == p.v_pat() + r->0@,
        // equal to a text exactly when the whole is
        forall|t: Seq<char>| r is Some && #[trigger] (p.v_pat() + t) == s@ ==> r->0@ == t,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_text_strip_suffix<P: VPat>(s: &str, p: P) -> (r: Option<&str>)
    ensures
        r is Some == v_is_suffix(p.v_pat(), s@),
        r is Some ==> r->0@ == s@.take(s@.len() - p.v_pat().len()),
{ unimplemented!() }

/// `starts_with`, `strip_prefix` and their like of slices
pub trait VPrefix {
    type E;
    spec fn v_seq(&self) -> Seq<Self::E>;
    fn v_starts_with(&self, p: &Self) -> (r: bool)
        ensures
            r == (p.v_seq().len() <= self.v_seq().len() && forall|j: int| 0 <= j < p.v_seq().len() ==> #[trigger] p.v_seq()[j] == self.v_seq()[j]),
    ;
    fn v_strip_prefix(&self, p: &Self) -> (r: Option<&Self>)
        ensures
            r is Some == (p.v_seq().len() <= self.v_seq().len() && forall|j: int| 0 <= j < p.v_seq().len() ==> #[trigger] p.v_seq()[j] == self.v_seq()[j]),
            r is Some ==> r->0.v_seq() == self.v_seq().skip(p.v_seq().len() as int),
    ;
    fn v_ends_with(&self, p: &Self) -> (r: bool)
        ensures
            r == (p.v_seq().len() <= self.v_seq().len() && forall|j: int| 0 <= j < p.v_seq().len() ==> #[trigger] p.v_seq()[j] == self.v_seq()[self.v_seq().len() - p.v_seq().len() + j]),
    ;
    fn v_strip_suffix(&self, p: &Self) -> (r: Option<&Self>)
        ensures
            r is Some == (p.v_seq().len() <= self.v_seq().len() && forall|j: int| 0 <= j < p.v_seq().len() ==> #[trigger] p.v_seq()[j] == self.v_seq()[self.v_seq().len() - p.v_seq().len() + j]),
            r is Some ==> r->0.v_seq() == self.v_seq().take(self.v_seq().len() - p.v_seq().len()),
    ;
    fn v_contains(&self, x: &Self::E) -> (r: bool)
        ensures
            r == (exists|j: int| 0 <= j < self.v_seq().len() && #[trigger] self.v_seq()[j] == *x),
    ;
}

impl VPrefix for [u8] {
    type E = u8;
    open spec fn v_seq(&self) -> Seq<u8> { self@ }
    fn v_starts_with(&self, p: &Self) -> (r: bool) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if p.len() > self.len() {
            return false;
        }
        let mut i: usize = 0;
        while i < p.len()
            invariant
                i <= p@.len() <= self@.len(),
                forall|j: int| 0 <= j < i ==> p@[j] == self@[j],
            decreases p@.len() - i,
        {
            if p[i] != self[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    fn v_strip_prefix(&self, p: &Self) -> (r: Option<&Self>) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if self.v_starts_with(p) {
            let r = vstd::slice::slice_subrange(self, p.len(), self.len());
            assert(r.v_seq() == r@);
            assert(r@ == self@.skip(p@.len() as int));
            Some(r)
        } else {
            None
        }
    }
    fn v_ends_with(&self, p: &Self) -> (r: bool) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if p.len() > self.len() {
            return false;
        }
        let mut i: usize = 0;
        let n = self.len() - p.len();
        while i < p.len()
            invariant
                i <= p@.len() <= self@.len(),
                n + p.len() == self.len(),
                forall|j: int| 0 <= j < i ==> p@[j] == self@[n + j],
            decreases p@.len() - i,
        {
            if p[i] != self[n + i] {
                assert(p.v_seq()[i as int] != self.v_seq()[n + i]);
                return false;
            }
            i += 1;
        }
        true
    }
    fn v_strip_suffix(&self, p: &Self) -> (r: Option<&Self>) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if self.v_ends_with(p) {
            let r = vstd::slice::slice_subrange(self, 0, self.len() - p.len());
            assert(r.v_seq() == r@);
            assert(r@ == self@.take(self@.len() - p@.len()));
            Some(r)
        } else {
            None
        }
    }
    fn v_contains(&self, x: &Self::E) -> (r: bool) {
        assert(self.v_seq() == self@);
        let mut i: usize = 0;
        while i < self.len()
            invariant
                i <= self@.len(),
                self.v_seq() == self@,
                forall|j: int| 0 <= j < i ==> self@[j] != *x,
            decreases self@.len() - i,
        {
            if self[i] == *x {
                assert(self.v_seq()[i as int] == *x);
                return true;
            }
            i += 1;
        }
        false
    }
}

impl VPrefix for [u32] {
    type E = u32;
    open spec fn v_seq(&self) -> Seq<u32> { self@ }
    fn v_starts_with(&self, p: &Self) -> (r: bool) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if p.len() > self.len() {
            return false;
        }
        let mut i: usize = 0;
        while i < p.len()
            invariant
                i <= p@.len() <= self@.len(),
                forall|j: int| 0 <= j < i ==> p@[j] == self@[j],
            decreases p@.len() - i,
        {
            if p[i] != self[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    fn v_strip_prefix(&self, p: &Self) -> (r: Option<&Self>) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if self.v_starts_with(p) {
            let r = vstd::slice::slice_subrange(self, p.len(), self.len());
            assert(r.v_seq() == r@);
            assert(r@ == self@.skip(p@.len() as int));
            Some(r)
        } else {
            None
        }
    }
    fn v_ends_with(&self, p: &Self) -> (r: bool) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if p.len() > self.len() {
            return false;
        }
        let mut i: usize = 0;
        let n = self.len() - p.len();
        while i < p.len()
            invariant
                i <= p@.len() <= self@.len(),
                n + p.len() == self.len(),
                forall|j: int| 0 <= j < i ==> p@[j] == self@[n + j],
            decreases p@.len() - i,
        {
            if p[i] != self[n + i] {
                assert(p.v_seq()[i as int] != self.v_seq()[n + i]);
                return false;
            }
            i += 1;
        }
        true
    }
    fn v_strip_suffix(&self, p: &Self) -> (r: Option<&Self>) {
        assert(self.v_seq() == self@ && p.v_seq() == p@);
        if self.v_ends_with(p) {
            let r = vstd::slice::slice_subrange(self, 0, self.len() - p.len());
            assert(r.v_seq() == r@);
            assert(r@ == self@.take(self@.len() - p@.len()));
            Some(r)
        } else {
            None
        }
    }
    fn v_contains(&self, x: &Self::E) -> (r: bool) {
        assert(self.v_seq() == self@);
        let mut i: usize = 0;
        while i < self.len()
            invariant
                i <= self@.len(),
                self.v_seq() == self@,
                forall|j: int| 0 <= j < i ==> self@[j] != *x,
            decreases self@.len() - i,
        {
            if self[i] == *x {
                assert(self.v_seq()[i as int] == *x);
                return true;
            }
            i += 1;
        }
        false
    }
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExChunks<'a, T: 'a>(core::slice::Chunks<'a, T>);

pub uninterp spec fn chunks_rem<'a, T>(c: core::slice::Chunks<'a, T>) -> Seq<T>;

pub uninterp spec fn chunks_n<'a, T>(c: core::slice::Chunks<'a, T>) -> nat;

pub assume_specification<'a, T>[<[T]>::chunks](s: &'a [T], n: usize) -> (r: core::slice::Chunks<'a, T>)
    requires
        n > 0,
    ensures
        chunks_rem(r) == s@,
        chunks_n(r) == n,
;

pub assume_specification<'a, T>[<core::slice::Chunks<'a, T> as Iterator>::next](s: &mut core::slice::Chunks<'a, T>) -> (r: Option<&'a [T]>)
    ensures
        chunks_n(*final(s)) == chunks_n(*old(s)),
        chunks_rem(*old(s)).len() == 0 ==> r is None && chunks_rem(*final(s)) == chunks_rem(*old(s)),
        chunks_rem(*old(s)).len() > 0 ==> r is Some && ({
            let k = if chunks_rem(*old(s)).len() < chunks_n(*old(s)) { chunks_rem(*old(s)).len() as int } else { chunks_n(*old(s)) as int };
            r->0@ == chunks_rem(*old(s)).subrange(0, k) && chunks_rem(*final(s)) == chunks_rem(*old(s)).skip(k)
        }),
;

pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]),
;

pub assume_specification<T>[<[T]>::reverse](s: &mut [T])
    ensures
        final(s)@ == old(s)@.reverse(),
;

pub assume_specification<T, const N: usize>[<[T]>::first_chunk](s: &[T]) -> (r: Option<&[T; N]>)
    ensures
        r is Some == (s@.len() >= N),
        r is Some ==> r->0@ == s@.take(N as int),
;

pub assume_specification<T, const N: usize>[<[T]>::split_first_chunk](s: &[T]) -> (r: Option<(&[T; N], &[T])>)
    ensures
        r is Some == (s@.len() >= N),
        r is Some ==> (r->0).0@ == s@.take(N as int) && (r->0).1@ == s@.skip(N as int),
;

pub assume_specification<T: Default>[core::mem::take](dest: &mut T) -> (r: T)
    ensures
        r == *old(dest),
        call_ensures(T::default, (), *final(dest)),
;

pub assume_specification[<[u8]>::is_ascii](s: &[u8]) -> (r: bool)
    ensures
        r == (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] < 128),
;
