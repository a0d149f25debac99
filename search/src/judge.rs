// Runs the real crate on one case and compares what it does with the specification.
use crate::oracle::{self, Elem, Ev, SContent, SGen, SPurpose, Seq};
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::*;

/// Ok(accepted by the specification) or what is wrong.
pub type Verdict = Result<bool, String>;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// C21: where the input lies, and where the copy of it that the specification sees.
// While it is set, octet strings and texts are compared by position, not by value.
thread_local! {
    static BASE: std::cell::Cell<Option<(usize, usize, usize)>> = const { std::cell::Cell::new(None) };
}
const NO_VIEW: &str = "not a view of the input: ";

fn placed(what: &str, base: (usize, usize, usize), got: &[u8], want: &[u8]) -> Result<(), String> {
    let (data, len, copy) = base;
    // an empty slice lies nowhere; what is missing is no returned slice
    if got.is_empty() || want.is_empty() {
        return Ok(());
    }
    let (g, w) = (got.as_ptr() as usize, want.as_ptr() as usize);
    ensure!(g >= data && g + got.len() <= data + len, "{}{}: {:02x?} lies outside the input", NO_VIEW, what, got);
    if w >= copy && w + want.len() <= copy + len {
        ensure!(
            g - data == w - copy && got.len() == want.len(),
            "{}{}: octets {}..{} of the input, the content lies at {}..{}",
            NO_VIEW,
            what,
            g - data,
            g - data + got.len(),
            w - copy,
            w - copy + want.len()
        );
    }
    Ok(())
}

fn bytes_eq(what: &str, got: &[u8], want: Seq<u8>) -> Result<(), String> {
    if let Some(b) = BASE.with(|b| b.get()) {
        return placed(what, b, got, want.as_slice());
    }
    ensure!(got == want.as_slice(), "{}: got {:02x?}, expected {:02x?}", what, got, want);
    Ok(())
}

fn text_eq(what: &str, got: &str, want: Seq<char>) -> Result<(), String> {
    if let Some(b) = BASE.with(|b| b.get()) {
        return match oracle::octets_of(want) {
            Some(w) => placed(what, b, got.as_bytes(), w.as_slice()),
            None => Ok(()),
        };
    }
    let g: Vec<char> = got.chars().collect();
    ensure!(&g[..] == want.as_slice(), "{}: got {:?}, expected {:?}", what, got, want);
    Ok(())
}

fn oid_eq(what: &str, got: &ASNObjectIdentifier, want: Seq<u32>) -> Result<(), String> {
    ensure!(got.values() == want.as_slice(), "{}: got {:?}, expected {:?}", what, got.values(), want);
    Ok(())
}

pub fn bits_eq(what: &str, got: &ASNBitString, unused: u8, b: Seq<u8>) -> Result<(), String> {
    let n = oracle::bit_size(unused, b);
    ensure!(got.size() as i128 == n, "{}: size {}, expected {}", what, got.size(), n);
    match got.octets() {
        Some(o) => {
            ensure!(unused == 0, "{}: octets of a bit string with {} unused bits", what, unused);
            bytes_eq(what, o, b)?
        }
        None => ensure!(unused != 0, "{}: no octets of a bit string without unused bits", what),
    }
    let mut i: i128 = 0;
    let mut it = got.iter();
    while let Some(v) = it.next() {
        ensure!(i < n, "{}: more than {} bits", what, n);
        ensure!(v == oracle::bit_at(b, i), "{}: bit {} is {}", what, i, v);
        i += 1;
    }
    ensure!(i == n, "{}: {} bits, expected {}", what, i, n);
    ensure!(it.next().is_none(), "{}: a bit after the last one", what);
    ensure!(*got == ASNBitString::new(unused, b.as_slice()), "{}: got {:?}, expected {} unused, {:02x?}", what, got, unused, b);
    Ok(())
}

pub fn int_value(got: Option<i32>, c: Seq<u8>) -> Result<(), String> {
    let want = oracle::twos(c);
    ensure!(got.map(|x| x as i128) == want, "integer {:02x?} converts to {:?}, expected {:?}", c, got, want);
    Ok(())
}

pub fn elem_eq(got: &ASNType, want: Elem) -> Result<(), String> {
    match (got, want) {
        (ASNType::Boolean(x), Elem::Bool(v)) => ensure!(x.value == v, "BOOLEAN: got {}, expected {}", x.value, v),
        (ASNType::Integer(x), Elem::Int(c)) => bytes_eq("INTEGER", x.value.bytes, c)?,
        (ASNType::BitString(x), Elem::Bits(u, b)) => bits_eq("BIT STRING", &x.value, u, b)?,
        (ASNType::OctetString(x), Elem::Octets(c)) => bytes_eq("OCTET STRING", x.value, c)?,
        (ASNType::Null, Elem::Null) => {}
        (ASNType::ObjectIdentifier(x), Elem::Oid(a)) => oid_eq("OBJECT IDENTIFIER", &x.value, a)?,
        (ASNType::UTF8String(x), Elem::Utf8(t)) => text_eq("UTF8String", x.value, t)?,
        (ASNType::PrintableString(x), Elem::Printable(t)) => text_eq("PrintableString", x.value, t)?,
        (ASNType::IA5String(x), Elem::Ia5(t)) => text_eq("IA5String", x.value, t)?,
        (ASNType::UTCTime(x), Elem::Time(t)) | (ASNType::GeneralizedTime(x), Elem::Time(t)) => {
            ensure!(x.value as i128 == t, "time: got {}, expected {}", x.value, t)
        }
        (ASNType::Sequence(x), Elem::Sequence(c)) => bytes_eq("SEQUENCE", x.value, c)?,
        (ASNType::Set(x), Elem::SetOf(c)) => bytes_eq("SET", x.value, c)?,
        (ASNType::ExplicitTag(x), Elem::Tag(n, c)) => {
            ensure!(x.value.value == n, "tag: got [{}], expected [{}]", x.value.value, n);
            bytes_eq("tag", x.value.contents, c)?
        }
        _ => return Err(format!("got {:?}, expected {:?}", got, want)),
    }
    Ok(())
}

// ---- the generic walk ------------------------------------------------------------------

struct Trace<'a> {
    want: &'a [Ev],
    at: usize,
    bad: Option<String>,
}

impl<'a> Trace<'a> {
    fn step(&mut self, name: &str, f: impl Fn(Ev) -> Result<(), String>) {
        if self.bad.is_some() {
            return;
        }
        match self.want.get(self.at) {
            None => self.bad = Some(format!("notification {}: {} after the last expected one", self.at, name)),
            Some(e) => {
                if let Err(m) = f(*e) {
                    self.bad = Some(format!("notification {}: {}", self.at, m))
                }
            }
        }
        self.at += 1;
    }
}

impl<'a> ParseHandler for Trace<'a> {
    fn begin_constructed(&mut self) {
        self.step("begin", |e| if e == Ev::Begin { Ok(()) } else { Err(format!("begin, expected {:?}", e)) })
    }
    fn end_constructed(&mut self) {
        self.step("end", |e| if e == Ev::End { Ok(()) } else { Err(format!("end, expected {:?}", e)) })
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.step("element", |e| match e {
            Ev::Item(x) => elem_eq(asn, x),
            _ => Err(format!("{:?}, expected {:?}", asn, e)),
        })
    }
    fn on_error(&mut self, err: &ASNError) {
        self.step("error", |e| if e == Ev::Error { Ok(()) } else { Err(format!("error \"{}\", expected {:?}", err, e)) })
    }
}

pub fn walk(data: &[u8]) -> Verdict {
    walk_of(data, Seq::of(data))
}
fn walk_of(data: &[u8], copy: Seq<u8>) -> Verdict {
    let (want, ok) = oracle::walk(copy);
    let mut t = Trace { want: want.as_slice(), at: 0, bad: None };
    let r = parse_all(data, &mut t);
    if let Some(m) = t.bad {
        return Err(m);
    }
    ensure!(t.at == want.as_slice().len(), "{} notifications, expected {}", t.at, want.as_slice().len());
    ensure!(r.is_ok() == ok, "walk returned {:?}, expected {}", r, if ok { "success" } else { "an error" });
    Ok(ok)
}

/// Only that the walk and the accessors return, without an oracle.
pub struct Touch {
    pub items: usize,
    pub begins: usize,
    pub ends: usize,
    pub errors: usize,
}
impl ParseHandler for Touch {
    fn begin_constructed(&mut self) {
        self.begins += 1
    }
    fn end_constructed(&mut self) {
        self.ends += 1
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.items += 1;
        match asn {
            ASNType::Integer(x) => {
                x.value.as_i32();
            }
            ASNType::BitString(x) => {
                x.value.size();
                x.value.octets();
                x.value.iter().count();
            }
            ASNType::ObjectIdentifier(x) => {
                x.value.values();
            }
            _ => {}
        }
        asn.get_id();
        let _ = asn.to_string();
    }
    fn on_error(&mut self, e: &ASNError) {
        let _ = e.to_string();
        self.errors += 1
    }
}

pub fn touch(data: &[u8]) -> Verdict {
    let mut t = Touch { items: 0, begins: 0, ends: 0, errors: 0 };
    let ok = parse_all(data, &mut t).is_ok();
    if let Ok(c) = Certificate::parse(data) {
        touch_cert(&c)
    }
    let n = Name { inner: data };
    let _ = n.parse();
    if let Ok(e) = Extension::parse(data) {
        e.print(&mut Lines::new(0));
    }
    Ok(ok)
}

fn touch_cert(c: &Certificate) {
    let t = &c.tbs_certificate.value;
    t.serial_number.as_i32();
    let _ = t.serial_number.to_string();
    for n in [&t.issuer, &t.subject] {
        if let Ok(n) = n.parse() {
            n.print(&mut Lines::new(0));
        }
    }
    for b in [Some(&c.signature_value), Some(&t.subject_public_key_info.subject_public_key), t.issuer_unique_id.as_ref(), t.subject_unique_id.as_ref()].into_iter().flatten() {
        b.size();
        b.octets();
        b.iter().count();
    }
    t.validity.is_valid(UtcTime::from_seconds_since_epoch(0));
    if let Some(x) = &t.extensions {
        if let Ok(v) = x.parse() {
            for e in &v {
                e.print(&mut Lines::new(0));
            }
        }
    }
    c.print(&mut Lines::new(0));
}

/// The decoders, which must all return whatever they are given.
pub fn total(data: &[u8]) -> Verdict {
    touch(data)
}

// C19: the encoding of an accepted element must be the one its value determines.
struct First<'a> {
    data: &'a [u8],
    again: Option<Vec<u8>>,
    text: String,
    n: usize,
}
impl<'a> ParseHandler for First<'a> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, asn: &ASNType) {
        if self.n == 0 {
            self.again = crate::gen::encode(self.data[0], asn);
            self.text = format!("{:?}", asn);
        }
        self.n += 1;
    }
    fn on_error(&mut self, _: &ASNError) {}
}

fn first(data: &[u8]) -> Option<(String, Option<Vec<u8>>)> {
    let mut f = First { data, again: None, text: String::new(), n: 0 };
    let _ = parse_all(data, &mut f);
    if f.n > 0 {
        Some((f.text, f.again))
    } else {
        None
    }
}

pub fn pair(data: &[u8]) -> Verdict {
    // data is one element, possibly followed by others
    if let Some((text, Some(again))) = first(data) {
        if again.len() <= data.len() && data[..again.len()] == again[..] {
            return Ok(true);
        }
        if again.first() != data.first() {
            return Ok(true);
        }
        if let Some((t2, _)) = first(&again) {
            ensure!(t2 != text, "{:02x?} and {:02x?} both decode to {}", data, again, text);
        }
        return Ok(true);
    }
    Ok(false)
}

// ---- certificates -----------------------------------------------------------------------

fn alg_eq(what: &str, got: &AlgorithmIdentifier, want: oracle::SAlg) -> Result<(), String> {
    oid_eq(what, &got.algorithm, want.oid)?;
    match (&got.parameters, want.params) {
        (None, None) => Ok(()),
        (Some(p), Some(e)) => elem_eq(p, e).map_err(|m| format!("{} parameters: {}", what, m)),
        _ => Err(format!("{} parameters: got {:?}, expected {:?}", what, got.parameters, want.params)),
    }
}

fn uid_eq(what: &str, got: &Option<ASNBitString>, want: Option<(u8, Seq<u8>)>) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(b), Some((u, s))) => bits_eq(what, b, u, s),
        _ => Err(format!("{}: got {:?}, expected {:?}", what, got, want)),
    }
}

pub fn cert(data: &[u8]) -> Verdict {
    cert_of(data, Seq::of(data))
}
fn cert_of(data: &[u8], copy: Seq<u8>) -> Verdict {
    let want = oracle::dec_cert(copy);
    let got = Certificate::parse(data);
    match (&got, want) {
        (Err(_), None) => Ok(false),
        (Ok(c), Some(w)) => {
            bytes_eq("raw TBS contents", c.tbs_certificate.bytes, w.raw)?;
            let (t, u) = (&c.tbs_certificate.value, w.tbs);
            let v = match t.version {
                Version::V1 => 0,
                Version::V2 => 1,
                Version::V3 => 2,
            };
            ensure!(v == u.version, "version: got {:?}, expected v{}", t.version, u.version + 1);
            bytes_eq("serial number", t.serial_number.bytes, u.serial)?;
            alg_eq("signature", &t.signature, u.signature)?;
            bytes_eq("issuer", t.issuer.inner, u.issuer)?;
            ensure!(t.validity.not_before.value as i128 == u.not_before, "not before: got {}, expected {}", t.validity.not_before.value, u.not_before);
            ensure!(t.validity.not_after.value as i128 == u.not_after, "not after: got {}, expected {}", t.validity.not_after.value, u.not_after);
            bytes_eq("subject", t.subject.inner, u.subject)?;
            alg_eq("key algorithm", &t.subject_public_key_info.algorithm, u.key_alg)?;
            bits_eq("key", &t.subject_public_key_info.subject_public_key, u.key_unused, u.key)?;
            uid_eq("issuer unique id", &t.issuer_unique_id, u.issuer_uid)?;
            uid_eq("subject unique id", &t.subject_unique_id, u.subject_uid)?;
            ensure!(t.extensions.is_some() == u.extensions.is_some(), "extensions: got {:?}, expected {:?}", t.extensions, u.extensions);
            alg_eq("signature algorithm", &c.signature_algorithm, w.alg)?;
            bits_eq("signature value", &c.signature_value, w.sig_unused, w.sig)?;
            if BASE.with(|b| b.get()).is_some() {
                name_of(&t.issuer, u.issuer)?;
                name_of(&t.subject, u.subject)?;
                if let (Some(x), Some(y)) = (&t.extensions, u.extensions) {
                    exts_eq(x.parse(), oracle::dec_exts(y))?;
                }
            }
            Ok(true)
        }
        (Err(e), Some(_)) => Err(format!("certificate rejected ({}), but it is well formed", e)),
        (Ok(_), None) => Err("certificate accepted, but it is not well formed".to_string()),
    }
}

/// Whether the extensions field carries exactly the given octets: compared through what it
/// decodes to.
pub fn exts(data: &[u8]) -> Verdict {
    let c = crate::gen::cert_with_extensions(data);
    let parsed = match Certificate::parse(&c) {
        Ok(x) => x,
        Err(_) => return Ok(false), // C10
    };
    let x = match &parsed.tbs_certificate.value.extensions {
        Some(x) => x,
        None => return Ok(false), // C10
    };
    exts_eq(x.parse(), oracle::dec_exts(Seq::of(data)))
}

fn exts_eq(got: Result<Vec<Extension>, ASNError>, want: Option<Seq<oracle::SExt>>) -> Verdict {
    match (got, want) {
        (Err(_), None) => Ok(false),
        (Ok(v), Some(w)) => {
            let w = w.as_slice();
            ensure!(v.len() == w.len(), "{} extensions, expected {}", v.len(), w.len());
            for (i, (a, b)) in v.iter().zip(w).enumerate() {
                ext_eq(a, *b).map_err(|m| format!("extension {}: {}", i, m))?
            }
            Ok(true)
        }
        (Err(e), Some(w)) => Err(format!("extension list rejected ({}), but it has {} well-formed extensions", e, w.len())),
        (Ok(v), None) => Err(format!("extension list accepted with {} entries, but it is not well formed", v.len())),
    }
}

fn general_eq(got: &GeneralName, want: SGen) -> Result<(), String> {
    match (got, want) {
        (GeneralName::Rfc822Name(s), SGen::Email(t)) => text_eq("e-mail", s, t),
        (GeneralName::DnsName(s), SGen::Dns(t)) => text_eq("DNS name", s, t),
        (GeneralName::UniformResourceIdentifier(s), SGen::Uri(t)) => text_eq("URI", s, t),
        (GeneralName::IpAddress(s), SGen::Ip(t)) => bytes_eq("IP address", s, t),
        (GeneralName::RegisteredId(s), SGen::Rid(t)) => oid_eq("registered id", s, t),
        _ => Err(format!("name {:?}, expected {:?}", got, want)),
    }
}

fn purpose(p: &ExtendedKeyUsagePurpose) -> SPurpose {
    match p {
        ExtendedKeyUsagePurpose::ServerAuth => SPurpose::Server,
        ExtendedKeyUsagePurpose::ClientAuth => SPurpose::Client,
        ExtendedKeyUsagePurpose::CodeSigning => SPurpose::Code,
        ExtendedKeyUsagePurpose::EmailProtection => SPurpose::Email,
        ExtendedKeyUsagePurpose::TimeStamping => SPurpose::Stamp,
        ExtendedKeyUsagePurpose::OCSPSigning => SPurpose::Ocsp,
    }
}

fn ext_eq(got: &Extension, want: oracle::SExt) -> Result<(), String> {
    oid_eq("identifier", &got.extn_id, want.oid)?;
    ensure!(got.critical == want.critical, "critical: got {}, expected {}", got.critical, want.critical);
    match (&got.content, want.content) {
        (SpecificExtension::SubjectKeyIdentifier(x), SContent::KeyId(c)) => bytes_eq("key identifier", x.key_identifier, c),
        (SpecificExtension::KeyUsage(k), SContent::Usage(u)) => {
            for (n, a, b) in [
                ("digital signature", k.digital_signature, u.digital_signature),
                ("content commitment", k.content_commitment, u.content_commitment),
                ("key encipherment", k.key_encipherment, u.key_encipherment),
                ("data encipherment", k.data_encipherment, u.data_encipherment),
                ("key agreement", k.key_agreement, u.key_agreement),
                ("key cert sign", k.key_cert_sign, u.key_cert_sign),
                ("crl sign", k.crl_sign, u.crl_sign),
                ("encipher only", k.encipher_only, u.encipher_only),
                ("decipher only", k.decipher_only, u.decipher_only),
            ] {
                ensure!(a == b, "{}: got {}, expected {}", n, a, b);
            }
            Ok(())
        }
        (SpecificExtension::SubjectAlternativeName(s), SContent::AltNames(w)) => {
            let w = w.as_slice();
            ensure!(s.names.len() == w.len(), "{} names, expected {}", s.names.len(), w.len());
            for (a, b) in s.names.iter().zip(w) {
                general_eq(a, *b)?
            }
            Ok(())
        }
        (SpecificExtension::BasicConstraints(b), SContent::Basic(ca, len)) => {
            ensure!(b.ca == ca, "CA flag: got {}, expected {}", b.ca, ca);
            ensure!(b.path_length_constraint.map(|x| x as i128) == len, "path length: got {:?}, expected {:?}", b.path_length_constraint, len);
            Ok(())
        }
        (SpecificExtension::ExtendedKeyUsage(k), SContent::Purposes(w)) => {
            let g: Vec<SPurpose> = k.ext_key_usages.iter().map(purpose).collect();
            ensure!(&g[..] == w.as_slice(), "purposes: got {:?}, expected {:?}", g, w);
            Ok(())
        }
        (SpecificExtension::ModbusRole(m), SContent::Modbus(t)) => text_eq("role", m.role, t),
        (SpecificExtension::Unknown(c), SContent::Unknown(w)) => bytes_eq("contents", c, w),
        _ => Err(format!("contents: got {:?}, expected {:?}", got.content, want.content)),
    }
}

pub fn ext(data: &[u8]) -> Verdict {
    ext_of(data, Seq::of(data))
}
fn ext_of(data: &[u8], copy: Seq<u8>) -> Verdict {
    let want = oracle::dec_ext(copy);
    match (Extension::parse(data), want) {
        (Err(_), None) => Ok(false),
        (Ok(e), Some(w)) => {
            ext_eq(&e, w)?;
            Ok(true)
        }
        (Err(e), Some(w)) => Err(format!("extension rejected ({}), expected {:?}", e, w)),
        (Ok(e), None) => Err(format!("extension accepted as {:?}, but it is not well formed", e)),
    }
}

pub fn purpose_id(data: &[u8]) -> Verdict {
    let v: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
    let want = oracle::dec_purpose(Seq::of(&v));
    let got = ExtendedKeyUsagePurpose::try_from_id(&ASNObjectIdentifier::new(v.clone())).map(|p| purpose(&p));
    ensure!(got == want, "purpose of {:?}: got {:?}, expected {:?}", v, got, want);
    Ok(got.is_some())
}

pub fn name(data: &[u8]) -> Verdict {
    name_of(&Name { inner: data }, Seq::of(data))
}
fn name_of(n: &Name, copy: Seq<u8>) -> Verdict {
    let want = oracle::dec_name(copy);
    let r = n.parse();
    match (r, want) {
        (Err(_), None) => Ok(false),
        (Ok(g), Some(w)) => {
            for (what, a, b) in [
                ("country", g.country_name, w.country),
                ("state or province", g.state_or_province_unit_name, w.state),
                ("locality", g.locality_name, w.locality),
                ("organization", g.organization, w.org),
                ("organizational unit", g.organizational_unit_name, w.unit),
                ("common name", g.common_name, w.common),
            ] {
                match (a, b) {
                    (None, None) => {}
                    (Some(s), Some(t)) => text_eq(what, s, t)?,
                    _ => return Err(format!("{}: got {:?}, expected {:?}", what, a, b)),
                }
            }
            Ok(true)
        }
        (Err(e), Some(w)) => Err(format!("name rejected ({}), expected {:?}", e, w)),
        (Ok(_), None) => Err("name accepted, but it is not well formed".to_string()),
    }
}

// ---- single values -----------------------------------------------------------------------

fn u64_at(data: &[u8], i: usize) -> u64 {
    let mut b = [0u8; 8];
    for (k, x) in b.iter_mut().enumerate() {
        *x = *data.get(i + k).unwrap_or(&0);
    }
    u64::from_be_bytes(b)
}

pub fn validity(data: &[u8]) -> Verdict {
    let (a, b, t) = (u64_at(data, 0), u64_at(data, 8), u64_at(data, 16));
    let v = Validity { not_before: UtcTime::from_seconds_since_epoch(a), not_after: UtcTime::from_seconds_since_epoch(b) };
    let got = v.is_valid(UtcTime::from_seconds_since_epoch(t));
    let want = oracle::within(a as i128, b as i128, t as i128);
    ensure!(got == want, "validity from {} to {} at {}: got {}, expected {}", a, b, t, got, want);
    let (x, y) = (UtcTime::from_seconds_since_epoch(a), UtcTime::from_seconds_since_epoch(b));
    ensure!((x < y) == (a < b) && (x <= y) == (a <= b) && (x == y) == (a == b) && (x > y) == (a > b) && (x >= y) == (a >= b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "instants {} and {} compare as {:?}", a, b, x.partial_cmp(&y));
    ensure!(x.value == a, "instant {} has the value {}", a, x.value);
    Ok(true)
}

pub fn int(data: &[u8]) -> Verdict {
    let s = Seq::of(data);
    int_value(ASNInteger::new(data).as_i32(), s)?;
    Ok(oracle::twos(s).is_some())
}

pub fn ident(data: &[u8]) -> Verdict {
    let b = *data.first().unwrap_or(&0);
    let i = Identifier::from(b);
    let class = match b >> 6 {
        0 => TagClass::Universal,
        1 => TagClass::Application,
        2 => TagClass::ContextSpecific,
        _ => TagClass::Private,
    };
    let pc = if (b >> 5) & 1 == 1 { PC::Constructed } else { PC::Primitive };
    let want = Identifier::new(class, pc, b % 32);
    ensure!(i == want, "identifier octet {:02x}: got {:?}, expected {:?}", b, i, want);
    Ok(true)
}

pub fn show_int(data: &[u8]) -> Verdict {
    text_eq(&format!("display of integer {:02x?}", data), &ASNInteger::new(data).to_string(), oracle::int_text(Seq::of(data)))?;
    Ok(true)
}

pub fn show_oid(data: &[u8]) -> Verdict {
    let v: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
    text_eq(&format!("display of identifier {:?}", v), &ASNObjectIdentifier::new(v.clone()).to_string(), oracle::oid_text(Seq::of(&v)))?;
    Ok(true)
}

// ---- printing ------------------------------------------------------------------------------

/// A line printer that records depth, and what the console printer has to print.
pub struct Lines {
    pub depth: usize,
    pub start: usize,
    pub low: bool,
    pub out: String,
}
impl Lines {
    pub fn new(start: usize) -> Lines {
        Lines { depth: start, start, low: false, out: String::new() }
    }
}
impl LinePrinter for Lines {
    fn begin_type(&mut self) {
        self.depth += 1
    }
    fn begin_line(&mut self) {
        for _ in 0..self.depth {
            self.out.push_str("  ")
        }
    }
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.out.push_str(&fmt.to_string())
    }
    fn print_str(&mut self, s: &str) {
        self.out.push_str(s)
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.out.push_str(&fmt.to_string());
        self.out.push('\n')
    }
    fn println_str(&mut self, line: &str) {
        self.out.push_str(line);
        self.out.push('\n')
    }
    fn end_type(&mut self) {
        if self.depth == self.start {
            self.low = true;
        } else {
            self.depth -= 1
        }
    }
}

fn balanced(what: &str, p: &dyn Printable) -> Result<(), String> {
    for start in [0usize, 3] {
        let mut l = Lines::new(start);
        p.print(&mut l);
        ensure!(!l.low, "printing {} closes a block it did not open", what);
        ensure!(l.depth == start, "printing {} from depth {} ends at depth {}", what, start, l.depth);
    }
    Ok(())
}

pub fn print(data: &[u8]) -> Verdict {
    let mut any = false;
    balanced("octets", &data)?;
    for u in 0..8u8 {
        if u == 0 || !data.is_empty() {
            balanced("a bit string", &ASNBitString::new(u, data))?;
        }
    }
    balanced("a subject key identifier", &SubjectKeyIdentifier { key_identifier: data })?;
    balanced("a name", &Name { inner: data })?;
    if let Ok(s) = std::str::from_utf8(data) {
        balanced("a role", &ModbusRole { role: s })?;
        let names = vec![GeneralName::OtherName(data), GeneralName::X400Address, GeneralName::DirectoryName, GeneralName::EdiPartyName, GeneralName::IpAddress(data), GeneralName::DnsName(s)];
        for n in &names {
            balanced("a general name", n)?;
        }
        balanced("alternative names", &SubjectAlternativeName { names })?;
    }
    let bit = |i: usize| data.get(i / 8).map_or(false, |b| b >> (i % 8) & 1 == 1);
    balanced(
        "key usage",
        &KeyUsage {
            digital_signature: bit(0),
            content_commitment: bit(1),
            key_encipherment: bit(2),
            data_encipherment: bit(3),
            key_agreement: bit(4),
            key_cert_sign: bit(5),
            crl_sign: bit(6),
            encipher_only: bit(7),
            decipher_only: bit(8),
        },
    )?;
    balanced("basic constraints", &BasicConstraints { ca: bit(0), path_length_constraint: if bit(1) { Some(u64_at(data, 0) as i32) } else { None } })?;
    balanced("validity", &Validity { not_before: UtcTime { value: u64_at(data, 0) }, not_after: UtcTime { value: u64_at(data, 8) } })?;
    if let Ok(n) = (Name { inner: data }).parse() {
        balanced("a decoded name", &n)?;
        any = true;
    }
    if let Ok(e) = Extension::parse(data) {
        balanced("an extension", &e)?;
        balanced("an extension's contents", &e.content)?;
        any = true;
    }
    if let Ok(c) = Certificate::parse(data) {
        let t = &c.tbs_certificate.value;
        balanced("a certificate", &c)?;
        balanced("a TBS certificate", t)?;
        balanced("a public key", &t.subject_public_key_info)?;
        balanced("an algorithm", &t.signature)?;
        any = true;
    }
    Ok(any)
}

// ---- the console printers: one child process prints, the parent knows what is expected -----

struct Tree {
    depth: usize,
    out: String,
}
impl ParseHandler for Tree {
    fn begin_constructed(&mut self) {
        self.depth += 1
    }
    fn end_constructed(&mut self) {
        self.depth -= 1
    }
    fn on_type(&mut self, asn: &ASNType) {
        let pad = "  ".repeat(self.depth);
        self.out.push_str(&format!("{}{}\n", pad, asn));
        if let ASNType::BitString(b) = asn {
            if let Some(o) = b.value.octets() {
                for c in o.chunks(16) {
                    let h: Vec<String> = c.iter().map(|x| format!("{:02X}", x)).collect();
                    self.out.push_str(&format!("{}  {}\n", pad, h.join(":")));
                }
            }
        }
    }
    fn on_error(&mut self, err: &ASNError) {
        self.out.push_str(&format!("Error: {:?}\n", err))
    }
}

fn indents(s: &str) -> Vec<usize> {
    s.lines().map(|l| l.len() - l.trim_start_matches(' ').len()).collect()
}

/// kind 'd' (walk), 'c' (certificate), 'e' (extension)
pub fn console_expect(kind: char, data: &[u8]) -> String {
    match kind {
        'd' => {
            let mut t = Tree { depth: 0, out: String::new() };
            let _ = parse_all(data, &mut t);
            t.out
        }
        'c' => {
            let mut l = Lines::new(0);
            if let Ok(c) = Certificate::parse(data) {
                c.print(&mut l)
            }
            l.out
        }
        _ => {
            let mut l = Lines::new(0);
            if let Ok(e) = Extension::parse(data) {
                e.print(&mut l)
            }
            l.out
        }
    }
}

/// Compares the indentation of every line, and that the lines are the same apart from it.
pub fn console_judge(kind: char, data: &[u8], got: &str) -> Verdict {
    let want = console_expect(kind, data);
    // an element may itself contain text with line ends: then only the output as a whole counts
    if got == want {
        return Ok(!want.is_empty());
    }
    let (a, b) = (indents(got), indents(&want));
    for i in 0..a.len().min(b.len()) {
        ensure!(a[i] == b[i], "console output line {} is indented by {}, expected {}:\n{}", i + 1, a[i], b[i], got);
    }
    // different words on a line are no question of nesting
    ensure!(a.len() == b.len(), "console output has {} lines, expected {}:\n{}", a.len(), b.len(), got);
    Ok(true)
}

// ---- the command-line program: run as it is, in a scratch directory --------------------------

/// Arguments of the program and the content of the file `f` in its directory.
pub fn cli_case(args: &[&[u8]], file: &[u8]) -> Vec<u8> {
    let mut v = vec![args.len() as u8];
    for a in args {
        v.push(a.len() as u8);
        v.extend_from_slice(a);
    }
    v.extend_from_slice(file);
    v
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("rasn-cli-{}", std::process::id()));
        let _ = std::fs::create_dir_all(p.join("cwd/d"));
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn cli(data: &[u8]) -> Verdict {
    use std::os::unix::ffi::OsStrExt;
    let exe = std::env::current_exe().unwrap().with_file_name("decoder");
    let mut d = data;
    let mut take = |n: usize| -> Option<&[u8]> {
        if n > d.len() {
            return None;
        }
        let (a, b) = d.split_at(n);
        d = b;
        Some(a)
    };
    let mut args: Vec<&[u8]> = vec![];
    let n = match take(1) {
        Some(x) => x[0],
        None => return Ok(false),
    };
    for _ in 0..n {
        match take(1).map(|x| x[0] as usize).and_then(&mut take) {
            Some(a) if !a.contains(&0) && !a.contains(&b'/') => args.push(a),
            _ => return Ok(false),
        }
    }
    let s = Scratch::new();
    let cwd = s.0.join("cwd");
    std::fs::write(cwd.join("f"), d).map_err(|e| e.to_string())?;
    // the file may have any name but those of the missing one and the directory
    if args.len() == 2 && !["", "m", "d", ".", ".."].iter().any(|n| n.as_bytes() == args[1]) {
        std::fs::write(cwd.join(std::ffi::OsStr::from_bytes(args[1])), d).map_err(|e| e.to_string())?;
    }
    // nothing but the scratch directory is looked at: no argument has a `/`
    let named = if args.len() == 2 && args[1] != b".." { std::fs::read(cwd.join(std::ffi::OsStr::from_bytes(args[1]))).ok() } else { None };
    let want = match (args.first().copied().unwrap_or(b""), named) {
        (b"--der", Some(b)) => Some((console_expect('d', &b), parse_all(&b, &mut Tree { depth: 0, out: String::new() }).is_ok())),
        (b"--certs", Some(b)) => Some((console_expect('c', &b), Certificate::parse(&b).is_ok())),
        _ => None,
    };
    let file = |n: &str| std::fs::File::create(s.0.join(n)).unwrap();
    let mut c = std::process::Command::new(&exe);
    c.args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a))).current_dir(&cwd);
    c.stdin(std::process::Stdio::null()).stdout(file("out")).stderr(file("err"));
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(_) => return Ok(false), // not built
    };
    let t = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            _ => std::thread::sleep(std::time::Duration::from_micros(if t.elapsed().as_millis() < 20 { 100 } else { 5000 })),
        }
        if t.elapsed().as_secs() > 15 {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the program does not end within 15 s".into());
        }
    };
    let out = String::from_utf8_lossy(&std::fs::read(s.0.join("out")).unwrap_or_default()).to_string();
    let err = std::fs::read(s.0.join("err")).unwrap_or_default();
    let show = || args.iter().map(|a| format!("{:?}", String::from_utf8_lossy(a))).collect::<Vec<_>>().join(" ");
    match want {
        Some((text, ok)) => {
            ensure!(st.success(), "decoder {} ends with {} though the file is readable: {}", show(), st, String::from_utf8_lossy(&err));
            ensure!(out == text, "decoder {} prints\n{}\nexpected\n{}", show(), out.chars().take(2000).collect::<String>(), text.chars().take(2000).collect::<String>());
            ensure!(err.is_empty() == ok, "decoder {}: the input {} decode, standard error has {} octets", show(), if ok { "does" } else { "does not" }, err.len());
        }
        None => {
            ensure!(!st.success(), "decoder {} ends with success", show());
            ensure!(st.code().is_some(), "decoder {} ends with {}", show(), st);
            ensure!(!err.is_empty(), "decoder {} does not report the problem", show());
            ensure!(out.is_empty(), "decoder {} prints {}", show(), out);
        }
    }
    Ok(true)
}

/// C21: every octet string and text lies in the input, where the content it was decoded from
/// lies. Whatever else is wrong decides other properties.
pub fn views(data: &[u8]) -> Verdict {
    struct Unset;
    impl Drop for Unset {
        fn drop(&mut self) {
            BASE.with(|b| b.set(None))
        }
    }
    let _u = Unset;
    // exactly as much memory as the input takes, with nothing of it around
    let data: Box<[u8]> = data.into();
    let copy = Seq::of(&data);
    BASE.with(|b| b.set(Some((data.as_ptr() as usize, data.len(), copy.as_slice().as_ptr() as usize))));
    let mut any = false;
    let parts: [&dyn Fn() -> Verdict; 4] = [&|| walk_of(&data, copy), &|| cert_of(&data, copy), &|| ext_of(&data, copy), &|| name_of(&Name { inner: &data }, copy)];
    for f in parts {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Err(m)) if m.contains(NO_VIEW) => return Err(m),
            Ok(Ok(x)) => any |= x,
            _ => {}
        }
    }
    Ok(any)
}

pub fn run(target: &str, data: &[u8]) -> Verdict {
    match target {
        "cli" => cli(data),
        "walk" => walk(data),
        "views" => views(data),
        "total" => total(data),
        "pair" => pair(data),
        "cert" => cert(data),
        "exts" => exts(data),
        "ext" => ext(data),
        "name" => name(data),
        "validity" => validity(data),
        "int" => int(data),
        "ident" => ident(data),
        "purpose" => purpose_id(data),
        "show_int" => show_int(data),
        "show_oid" => show_oid(data),
        "print" => print(data),
        _ => Err(format!("unknown target {}", target)),
    }
}
