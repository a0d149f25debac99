// The command-line program and the process it runs in.  Part of the verified text only when
// decoder::main is (not with --nomain).
use vstd::prelude::*;
use crate::spec;
use crate::vpre::*;

// ---- the process and what surrounds it ------------------------------------------------
use crate::x509::printer::{LinePrinter, Printable};
use crate::der::parse_all::ParseHandler;

// the argument list of the process: octets, as Unix has it
pub uninterp spec fn v_argv() -> Seq<Seq<u8>>;

// the octets of a file, None if it cannot be read; files do not change while the process runs
pub uninterp spec fn v_file(path: Seq<u8>) -> Option<Seq<u8>>;

// what octets say as text, if they do
pub open spec fn v_text(b: Seq<u8>) -> Option<Seq<char>> {
    if vstd::utf8::valid_utf8(b) { Some(vstd::utf8::decode_utf8(b)) } else { None }
}
pub open spec fn v_is_text(b: Seq<u8>, t: Seq<char>) -> bool {
    v_text(b) == Some(t) && vstd::utf8::encode_utf8(t) == b
}
// text without the replacement character
pub open spec fn v_genuine(t: Seq<char>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> t[i] != '\u{FFFD}'
}

// std::ffi::{OsString, OsStr}, std::path::{PathBuf, Path}
#[verifier::external_body]
pub struct VOs { p: core::marker::PhantomData<u8> }

impl VOs {
    pub uninterp spec fn raw(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn to_str(&self) -> (ret: Option<&str>)
        ensures
            ret is Some <==> v_text(self.raw()) is Some,
            ret is Some ==> v_is_text(self.raw(), ret->0@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (ret: String)
        ensures
            v_text(self.raw()) is Some ==> v_is_text(self.raw(), ret@),
            v_text(self.raw()) is None ==> !v_genuine(ret@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn into_string(self) -> (ret: Result<String, VOs>)
        ensures
            ret is Ok <==> v_text(self.raw()) is Some,
            ret is Ok ==> v_is_text(self.raw(), ret->Ok_0@),
            ret is Err ==> ret->Err_0.raw() == self.raw(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn clone(&self) -> (ret: VOs)
        ensures ret.raw() == self.raw(),
    { unimplemented!() }

    pub fn same(&self) -> (ret: &VOs)
        ensures ret.raw() == self.raw(),
    { self }
}
impl VDisplay for VOs {
    open spec fn exact(&self) -> bool { false }
    open spec fn text(&self) -> Seq<char> { Seq::empty() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (ret: Result<(), FmtError>) { unimplemented!() }
}

// what names a file
pub trait VPath {
    spec fn path(&self) -> Seq<u8>;
}
impl VPath for str {
    open spec fn path(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
}
impl VPath for String {
    open spec fn path(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
}
impl VPath for VOs {
    open spec fn path(&self) -> Seq<u8> { self.raw() }
}
impl<T: VPath + ?Sized> VPath for &T {
    open spec fn path(&self) -> Seq<u8> { (**self).path() }
}

#[verifier::external_body]
pub fn v_os_of<T: VPath>(x: T) -> (ret: VOs)
    ensures ret.raw() == x.path(),
{ unimplemented!() }

#[verifier::external_body]
pub fn v_os_ref<T: VPath + ?Sized>(x: &T) -> (ret: &VOs)
    ensures ret.raw() == x.path(),
{ unimplemented!() }

// what has been printed
pub enum Shown {
    Cert(spec::SCert),
    Walk(Seq<u8>),
}

#[verifier::external_body]
pub struct Io { p: core::marker::PhantomData<u8> }

impl Io {
    // how many reports went to the standard error stream
    pub uninterp spec fn errs(&self) -> nat;
    pub uninterp spec fn shown(&self) -> Seq<Shown>;

    #[verifier::external_body]
    pub fn err(&mut self)
        ensures final(self).errs() == old(self).errs() + 1, final(self).shown() == old(self).shown(),
    { }

    // c.print(p): the contract of Printable::print, and the record of the call
    // (Verus does not take the conversion of `p` to a trait object)
    #[verifier::external_body]
    pub fn print(&mut self, c: &crate::x509::Certificate, p: &mut crate::x509::printer::ConsoleLinePrinter)
        requires
            0 <= old(p).depth() <= 0x1000_0000_0000_0000,
        ensures
            final(p).depth() == old(p).depth(),
            final(self).errs() == old(self).errs(),
            final(self).shown() == old(self).shown().push(Shown::Cert(c.sp())),
    { unimplemented!() }

    // parse_all(b, p): the contract of parse_all, and the record of the call
    #[verifier::external_body]
    pub fn parse_all(&mut self, b: &[u8], p: &mut crate::decoder::der_printer::ParsePrinter) -> (ret: Result<(), crate::der::types::ASNError>)
        requires
            0 <= old(p).depth() <= 0x1000_0000_0000_0000,
        ensures
            ret is Ok <==> spec::walk(b@).1,
            ret is Ok ==> final(p).depth() == old(p).depth(),
            final(self).errs() == old(self).errs(),
            final(self).shown() == old(self).shown().push(Shown::Walk(b@)),
    { unimplemented!() }

    // the process ends with the status `c`
    #[verifier::external_body]
    pub fn exit(&mut self, c: i32) -> !
        requires v_faithful(c as int % 256 == 0, old(self).errs(), old(self).shown()),
        ensures false,
    { unimplemented!() }
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

// std::fs::File
#[verifier::external_body]
pub struct VFile { p: core::marker::PhantomData<u8> }

impl VFile {
    // what a reader gets, None if reading fails
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;

    #[verifier::external_body]
    pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (ret: Result<usize, std::io::Error>)
        ensures
            ret is Ok <==> old(self).rest() is Some,
            ret is Ok ==> final(v)@ == old(v)@.add(old(self).rest()->0) && final(self).rest() == Some(Seq::<u8>::empty()),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn v_open<P: VPath>(path: P) -> (ret: Result<VFile, std::io::Error>)
    ensures
        ret is Err ==> v_file(path.path()) is None,
        ret is Ok ==> ret->Ok_0.rest() == v_file(path.path()),
{ unimplemented!() }

#[verifier::external_body]
pub fn v_read<P: VPath>(path: P) -> (ret: Result<Vec<u8>, std::io::Error>)
    ensures
        ret is Ok <==> v_file(path.path()) is Some,
        ret is Ok ==> ret->Ok_0@ == v_file(path.path())->0,
{ unimplemented!() }

// std::env::Args, and what skip makes of it.  It panics on an argument that is not text: each
// method would, where its argument is due; here no argument may be
#[verifier::external_body]
pub struct VArgs { p: core::marker::PhantomData<u8> }

impl VArgs {
    pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;

    #[verifier::external_body]
    pub fn len(&self) -> (ret: usize)
        ensures ret == self.rest().len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<String>)
        ensures
            ret is Some <==> old(self).rest().len() > 0,
            ret is Some ==> v_is_text(old(self).rest()[0], ret->0@) && final(self).rest() == old(self).rest().skip(1),
            ret is None ==> final(self).rest() == old(self).rest(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (ret: Option<String>)
        ensures
            ret is Some <==> old(self).rest().len() > n,
            ret is Some ==> v_is_text(old(self).rest()[n as int], ret->0@) && final(self).rest() == old(self).rest().skip(n + 1),
            ret is None ==> final(self).rest() == Seq::<Seq<u8>>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (ret: VArgs)
        ensures ret.rest() == if n <= self.rest().len() { self.rest().skip(n as int) } else { Seq::<Seq<u8>>::empty() },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn collect(self) -> (ret: Vec<String>)
        ensures
            ret@.len() == self.rest().len(),
            forall|i: int| 0 <= i < ret@.len() ==> v_is_text(self.rest()[i], (#[trigger] ret@[i])@),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn v_env_args() -> (ret: VArgs)
    requires forall|i: int| 0 <= i < v_argv().len() ==> v_text(#[trigger] v_argv()[i]) is Some,
    ensures ret.rest() == v_argv(),
{ unimplemented!() }

// std::env::ArgsOs
#[verifier::external_body]
pub struct VArgsOs { p: core::marker::PhantomData<u8> }

impl VArgsOs {
    pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;

    #[verifier::external_body]
    pub fn len(&self) -> (ret: usize)
        ensures ret == self.rest().len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<VOs>)
        ensures
            ret is Some <==> old(self).rest().len() > 0,
            ret is Some ==> ret->0.raw() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            ret is None ==> final(self).rest() == old(self).rest(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (ret: Option<VOs>)
        ensures
            ret is Some <==> old(self).rest().len() > n,
            ret is Some ==> ret->0.raw() == old(self).rest()[n as int] && final(self).rest() == old(self).rest().skip(n + 1),
            ret is None ==> final(self).rest() == Seq::<Seq<u8>>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (ret: VArgsOs)
        ensures ret.rest() == if n <= self.rest().len() { self.rest().skip(n as int) } else { Seq::<Seq<u8>>::empty() },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn collect(self) -> (ret: Vec<VOs>)
        ensures
            ret@.len() == self.rest().len(),
            forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).raw() == self.rest()[i],
    { unimplemented!() }
}

#[verifier::external_body]
pub fn v_env_args_os() -> (ret: VArgsOs)
    ensures ret.rest() == v_argv(),
{ unimplemented!() }

// std::process::ExitCode
#[verifier::external_body]
pub struct VExitCode { p: core::marker::PhantomData<u8> }

impl VExitCode {
    pub uninterp spec fn success(&self) -> bool;

    #[verifier::external_body]
    pub fn code(c: u8) -> (ret: VExitCode)
        ensures ret.success() == (c == 0),
    { unimplemented!() }
}

// what `main` returns: the status of success?  a report by the runtime?
pub trait VEnd {
    spec fn ok(&self) -> bool;
    spec fn reports(&self) -> nat;
}
impl VEnd for () {
    open spec fn ok(&self) -> bool { true }
    open spec fn reports(&self) -> nat { 0 }
}
impl VEnd for VExitCode {
    open spec fn ok(&self) -> bool { self.success() }
    open spec fn reports(&self) -> nat { 0 }
}
impl<T: VEnd, E> VEnd for Result<T, E> {
    open spec fn ok(&self) -> bool { match self { Ok(t) => t.ok(), Err(_) => false } }
    open spec fn reports(&self) -> nat { match self { Ok(t) => t.reports(), Err(_) => 1 } }
}

// text in any of its forms
pub trait VText<'a>: Sized {
    spec fn chars(&self) -> Seq<char>;
    fn v_text(self) -> (r: &'a str)
        ensures r@ == self.chars();
}
impl<'a> VText<'a> for &'a str {
    open spec fn chars(&self) -> Seq<char> { (**self)@ }
    fn v_text(self) -> (r: &'a str) { self }
}
impl<'a> VText<'a> for &'a String {
    open spec fn chars(&self) -> Seq<char> { (**self)@ }
    fn v_text(self) -> (r: &'a str) { self.as_str() }
}
impl<'a, 'b, T> VText<'a> for &'b &'a T where T: ?Sized, &'a T: VText<'a> {
    open spec fn chars(&self) -> Seq<char> { (**self).chars() }
    fn v_text(self) -> (r: &'a str) { (*self).v_text() }
}
pub fn v_str<'a, T: VText<'a>>(x: T) -> (r: &'a str)
    ensures r@ == x.chars(),
{ x.v_text() }

pub trait VStr {
    spec fn chars_of(&self) -> Seq<char>;
}
impl VStr for str {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
}
impl VStr for String {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
}
impl<T: VStr + ?Sized> VStr for &T {
    open spec fn chars_of(&self) -> Seq<char> { (**self).chars_of() }
}

impl VStr for VOs {
    // never the chars of a text when it is none
    open spec fn chars_of(&self) -> Seq<char> { match v_text(self.raw()) { Some(t) => t, None => seq!['\u{FFFD}'] } }
}

// comparison of texts
#[verifier::external_body]
pub fn v_eq<A: VStr + ?Sized, B: VStr + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.chars_of() == b.chars_of()),
{ unimplemented!() }


// Whether a process that ends so (`ok`: with the status of success) has reported what happened,
// given what its arguments and the file they name are.
pub open spec fn v_faithful(ok: bool, errs: nat, shown: Seq<Shown>) -> bool {
    let a = v_argv();
    let usage = a.len() == 3 && (v_text(a[1]) == Some("--der"@) || v_text(a[1]) == Some("--certs"@));
    let file = v_file(a[2]);
    if !usage || file is None {
        !ok && errs > 0 && shown.len() == 0
    } else if v_text(a[1]) == Some("--der"@) {
        &&& ok
        &&& shown == seq![Shown::Walk(file->0)]
        &&& (errs > 0 <==> !spec::walk(file->0).1)
    } else {
        &&& ok
        &&& shown == match spec::dec_cert(file->0) { Some(c) => seq![Shown::Cert(c)], None => Seq::empty() }
        &&& (errs > 0 <==> spec::dec_cert(file->0) is None)
    }
}
