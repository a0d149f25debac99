// The specification.  It is written once, in executable style: Verus reads it as
// mathematical functions (the postconditions of the contracts), and search/build.rs
// converts the same text into the Rust functions that judge runs of the real crate.
// Conventions that keep the conversion trivial: `decreases` stands alone on its line, all
// arithmetic is on `int`, no quantifiers, no `is`/`->`, sequences are only built by
// `push`, `add` and `subrange`.
use vstd::prelude::*;
pub use crate::octets::{Octet, Octets, Text, oct, octets_ok, text_of};

// ---- elements ------------------------------------------------------------------------

pub enum Elem {
    Bool(bool),
    Int(Octets),
    Bits(u8, Octets),
    Octets(Octets),
    Null,
    Oid(Seq<u32>),
    Utf8(Text),
    Printable(Text),
    Ia5(Text),
    Time(int),
    Sequence(Octets),
    SetOf(Octets),
    Tag(u8, Octets),
}

pub enum Kind {
    Bool,
    Int,
    Bits,
    Octets,
    Null,
    Oid,
    Utf8,
    Printable,
    Ia5,
    Utc,
    Gen,
    Sequence,
    SetOf,
    Tag(u8),
}

// C03: the meaning of each identifier octet
#[verifier::opaque]
pub open spec fn kind_of(b: u8) -> Option<Kind> {
    if b == 0x01 { Some(Kind::Bool) }
    else if b == 0x02 { Some(Kind::Int) }
    else if b == 0x03 { Some(Kind::Bits) }
    else if b == 0x04 { Some(Kind::Octets) }
    else if b == 0x05 { Some(Kind::Null) }
    else if b == 0x06 { Some(Kind::Oid) }
    else if b == 0x0C { Some(Kind::Utf8) }
    else if b == 0x13 { Some(Kind::Printable) }
    else if b == 0x16 { Some(Kind::Ia5) }
    else if b == 0x17 { Some(Kind::Utc) }
    else if b == 0x18 { Some(Kind::Gen) }
    else if b == 0x30 { Some(Kind::Sequence) }
    else if b == 0x31 { Some(Kind::SetOf) }
    else if 0x80 <= b && b < 0xC0 && (b as int) % 32 != 31 { Some(Kind::Tag(((b as int) % 32) as u8)) }
    else { None }
}

// the number that the first k octets denote in big endian
pub open spec fn be(s: Octets, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { be(s, k - 1) * 256 + (oct(s, k - 1) as int) }
}

// the smallest length that needs n octets after the first
pub open spec fn min_len(n: int) -> int {
    if n == 1 { 128 } else if n == 2 { 256 } else if n == 3 { 65536 } else { 16777216 }
}

// C02: a definite, minimal length and what follows it
#[verifier::opaque]
pub open spec fn dec_len(s: Octets) -> Option<(int, Octets)> {
    if s.len() == 0 {
        None
    } else if oct(s, 0) < 128 {
        Some((oct(s, 0) as int, s.subrange(1, s.len() as int)))
    } else {
        let n = (oct(s, 0) as int) - 128;
        if n < 1 || n > 4 || (s.len() as int) < 1 + n {
            None
        } else {
            let t = s.subrange(1, s.len() as int);
            let v = be(t, n);
            if v < min_len(n) { None } else { Some((v, s.subrange(1 + n, s.len() as int))) }
        }
    }
}

// identifier octet, content, and what follows the element
#[verifier::opaque]
pub open spec fn dec_hdr(s: Octets) -> Option<(u8, Octets, Octets)> {
    if s.len() == 0 {
        None
    } else {
        match dec_len(s.subrange(1, s.len() as int)) {
            None => None,
            Some((n, r)) =>
                if (r.len() as int) < n { None }
                else { Some((oct(s, 0), r.subrange(0, n), r.subrange(n, r.len() as int))) },
        }
    }
}

// ---- contents ------------------------------------------------------------------------

#[verifier::opaque]
pub open spec fn dec_bits(c: Octets) -> Option<(u8, Octets)> {
    if c.len() == 0 || oct(c, 0) > 7 || (oct(c, 0) > 0 && c.len() == 1) { None }
    else { Some((oct(c, 0), c.subrange(1, c.len() as int))) }
}

// C09: number of bits and the value of one of them
pub open spec fn bit_size(unused: u8, b: Octets) -> int {
    (b.len() as int) * 8 - (unused as int)
}

pub open spec fn pow2(k: int) -> int {
    if k == 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else if k == 3 { 8 }
    else if k == 4 { 16 } else if k == 5 { 32 } else if k == 6 { 64 } else { 128 }
}

pub open spec fn bit_at(b: Octets, i: int) -> bool {
    ((oct(b, i / 8) as int) / pow2(7 - i % 8)) % 2 == 1
}

// C08: one subidentifier (at most four octets) and what follows it
pub open spec fn sub_go(s: Octets, acc: int, count: int) -> Option<(int, Octets)>
    decreases 4 - count,
{
    if count >= 4 || s.len() == 0 {
        None
    } else if count == 0 && oct(s, 0) == 0x80 {
        None
    } else {
        let v = acc * 128 + (oct(s, 0) as int) % 128;
        let r = s.subrange(1, s.len() as int);
        if oct(s, 0) < 128 { Some((v, r)) } else { sub_go(r, v, count + 1) }
    }
}

#[verifier::opaque]
pub open spec fn dec_sub(s: Octets) -> Option<(int, Octets)> {
    sub_go(s, 0, 0)
}

pub open spec fn arcs_tail(s: Octets, acc: Seq<u32>) -> Option<Seq<u32>>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(acc)
    } else {
        match dec_sub(s) {
            None => None,
            Some((v, r)) => if r.len() < s.len() { arcs_tail(r, acc.push(v as u32)) } else { None },
        }
    }
}

#[verifier::opaque]
pub open spec fn oid_arcs(c: Octets) -> Option<Seq<u32>> {
    match dec_sub(c) {
        None => None,
        Some((v, r)) => {
            let root: int = if v < 40 { 0 } else if v < 80 { 1 } else { 2 };
            arcs_tail(r, Seq::<u32>::empty().push(root as u32).push((v - 40 * root) as u32))
        },
    }
}

// C07: the proleptic Gregorian calendar
pub open spec fn leap(y: int) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

pub open spec fn month_days(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } }
    else if m == 4 || m == 6 || m == 9 || m == 11 { 30 }
    else { 31 }
}

// days of the months of year y before month m
pub open spec fn days_before_month(y: int, m: int) -> int
    decreases m,
{
    if m <= 1 { 0 } else { days_before_month(y, m - 1) + month_days(y, m - 1) }
}

pub open spec fn year_days(y: int) -> int {
    if leap(y) { 366 } else { 365 }
}

// days from 1970-01-01 to the first of January of year y
pub open spec fn days_before_year(y: int) -> int
    decreases y,
{
    if y <= 1970 { 0 } else { days_before_year(y - 1) + year_days(y - 1) }
}

pub open spec fn instant(y: int, mo: int, d: int, h: int, mi: int, s: int) -> int {
    (days_before_year(y) + days_before_month(y, mo) + (d - 1)) * 86400 + h * 3600 + mi * 60 + s
}

// two decimal digits at i, or -1
pub open spec fn two(c: Octets, i: int) -> int {
    if 48 <= oct(c, i) && oct(c, i) <= 57 && 48 <= oct(c, i + 1) && oct(c, i + 1) <= 57 {
        ((oct(c, i) as int) - 48) * 10 + ((oct(c, i + 1) as int) - 48)
    } else {
        -1
    }
}

// MMDDHHMMSSZ at i, in the given year
pub open spec fn dec_date(c: Octets, i: int, y: int) -> Option<int> {
    let mo = two(c, i);
    let d = two(c, i + 2);
    let h = two(c, i + 4);
    let mi = two(c, i + 6);
    let s = two(c, i + 8);
    if y < 1970 || mo < 1 || mo > 12 || d < 1 || d > month_days(y, mo) || h < 0 || h > 23 || mi < 0 || mi > 59
        || s < 0 || s > 59 || oct(c, i + 10) != 90
    {
        None
    } else {
        Some(instant(y, mo, d, h, mi, s))
    }
}

#[verifier::opaque]
pub open spec fn dec_utc(c: Octets) -> Option<int> {
    if c.len() != 13 {
        None
    } else {
        let yy = two(c, 0);
        if yy < 0 { None } else { dec_date(c, 2, if yy >= 50 { 1900 + yy } else { 2000 + yy }) }
    }
}

#[verifier::opaque]
pub open spec fn dec_gen(c: Octets) -> Option<int> {
    if c.len() != 15 {
        None
    } else {
        let hi = two(c, 0);
        let lo = two(c, 2);
        if hi < 0 || lo < 0 { None } else { dec_date(c, 4, hi * 100 + lo) }
    }
}

#[verifier::opaque]
pub open spec fn dec_bool(c: Octets) -> Option<bool> {
    if c.len() == 1 && oct(c, 0) == 0xFF { Some(true) }
    else if c.len() == 1 && oct(c, 0) == 0x00 { Some(false) }
    else { None }
}

#[verifier::opaque]
pub open spec fn dec_text(c: Octets) -> Option<Text> {
    if octets_ok(c) { Some(text_of(c)) } else { None }
}

pub open spec fn dec_content(k: Kind, c: Octets) -> Option<Elem> {
    match k {
        Kind::Bool => match dec_bool(c) { Some(b) => Some(Elem::Bool(b)), None => None },
        Kind::Int => if c.len() == 0 { None } else { Some(Elem::Int(c)) },
        Kind::Bits => match dec_bits(c) { Some((u, b)) => Some(Elem::Bits(u, b)), None => None },
        Kind::Octets => Some(Elem::Octets(c)),
        Kind::Null => if c.len() == 0 { Some(Elem::Null) } else { None },
        Kind::Oid => match oid_arcs(c) { Some(a) => Some(Elem::Oid(a)), None => None },
        Kind::Utf8 => match dec_text(c) { Some(t) => Some(Elem::Utf8(t)), None => None },
        Kind::Printable => match dec_text(c) { Some(t) => Some(Elem::Printable(t)), None => None },
        Kind::Ia5 => match dec_text(c) { Some(t) => Some(Elem::Ia5(t)), None => None },
        Kind::Utc => match dec_utc(c) { Some(t) => Some(Elem::Time(t)), None => None },
        Kind::Gen => match dec_gen(c) { Some(t) => Some(Elem::Time(t)), None => None },
        Kind::Sequence => Some(Elem::Sequence(c)),
        Kind::SetOf => Some(Elem::SetOf(c)),
        Kind::Tag(n) => Some(Elem::Tag(n, c)),
    }
}

// one element and what follows it
#[verifier::opaque]
pub open spec fn dec_tlv(s: Octets) -> Option<(Elem, Octets)> {
    match dec_hdr(s) {
        None => None,
        Some((id, c, r)) => match kind_of(id) {
            None => None,
            Some(k) => match dec_content(k, c) {
                None => None,
                Some(e) => Some((e, r)),
            },
        },
    }
}

// C06: big-endian two's complement
#[verifier::opaque]
pub open spec fn twos(c: Octets) -> Option<int> {
    let n = c.len() as int;
    if n < 1 || n > 4 {
        None
    } else {
        let m: int = if n == 1 { 0x100 } else if n == 2 { 0x1_0000 } else if n == 3 { 0x100_0000 } else { 0x1_0000_0000 };
        Some(if oct(c, 0) >= 128 { be(c, n) - m } else { be(c, n) })
    }
}

// ---- C04: the walk over all elements ---------------------------------------------------

pub enum Ev {
    Item(Elem),
    Begin,
    End,
    Error,
}

pub open spec fn children(e: Elem) -> Option<Octets> {
    match e {
        Elem::Sequence(c) => Some(c),
        Elem::SetOf(c) => Some(c),
        Elem::Tag(_, c) => Some(c),
        _ => None,
    }
}

// the notifications, and whether the walk succeeds
pub open spec fn walk(s: Octets) -> (Seq<Ev>, bool)
    decreases s.len(),
{
    if s.len() == 0 {
        (Seq::<Ev>::empty(), true)
    } else {
        match dec_tlv(s) {
            None => (Seq::<Ev>::empty().push(Ev::Error), false),
            Some((e, r)) => if r.len() < s.len() {
                let here = Seq::<Ev>::empty().push(Ev::Item(e));
                match children(e) {
                    None => {
                        let w = walk(r);
                        (here.add(w.0), w.1)
                    },
                    Some(c) => if c.len() < s.len() {
                        let i = walk(c);
                        if i.1 {
                            let w = walk(r);
                            (here.push(Ev::Begin).add(i.0).push(Ev::End).add(w.0), w.1)
                        } else {
                            (here.push(Ev::Begin).add(i.0), false)
                        }
                    } else {
                        (here, false)
                    },
                }
            } else {
                (Seq::<Ev>::empty(), false)
            },
        }
    }
}

// ---- elements of an expected type ------------------------------------------------------

pub open spec fn exp_seq(s: Octets) -> Option<(Octets, Octets)> {
    match dec_tlv(s) { Some((Elem::Sequence(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_set(s: Octets) -> Option<(Octets, Octets)> {
    match dec_tlv(s) { Some((Elem::SetOf(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_int(s: Octets) -> Option<(Octets, Octets)> {
    match dec_tlv(s) { Some((Elem::Int(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_octets(s: Octets) -> Option<(Octets, Octets)> {
    match dec_tlv(s) { Some((Elem::Octets(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_bits(s: Octets) -> Option<(u8, Octets, Octets)> {
    match dec_tlv(s) { Some((Elem::Bits(u, c), r)) => Some((u, c, r)), _ => None }
}
pub open spec fn exp_oid(s: Octets) -> Option<(Seq<u32>, Octets)> {
    match dec_tlv(s) { Some((Elem::Oid(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_time(s: Octets) -> Option<(int, Octets)> {
    match dec_tlv(s) { Some((Elem::Time(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_bool(s: Octets) -> Option<(bool, Octets)> {
    match dec_tlv(s) { Some((Elem::Bool(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_utf8(s: Octets) -> Option<(Text, Octets)> {
    match dec_tlv(s) { Some((Elem::Utf8(c), r)) => Some((c, r)), _ => None }
}
pub open spec fn exp_tag(s: Octets) -> Option<(u8, Octets, Octets)> {
    match dec_tlv(s) { Some((Elem::Tag(n, c), r)) => Some((n, c, r)), _ => None }
}

// an optional element with context tag n: its contents, and what follows
pub open spec fn opt_tag(s: Octets, n: u8) -> Option<(Option<Octets>, Octets)> {
    if s.len() == 0 {
        Some((None, s))
    } else {
        match kind_of(oct(s, 0)) {
            None => None,
            Some(Kind::Tag(t)) =>
                if t == n {
                    match exp_tag(s) { Some((_, c, r)) => Some((Some(c), r)), None => None }
                } else {
                    Some((None, s))
                },
            Some(_) => Some((None, s)),
        }
    }
}

pub open spec fn opt_bool(s: Octets) -> Option<(Option<bool>, Octets)> {
    if s.len() == 0 {
        Some((None, s))
    } else {
        match kind_of(oct(s, 0)) {
            None => None,
            Some(Kind::Bool) => match exp_bool(s) { Some((b, r)) => Some((Some(b), r)), None => None },
            Some(_) => Some((None, s)),
        }
    }
}

pub open spec fn opt_int(s: Octets) -> Option<(Option<Octets>, Octets)> {
    if s.len() == 0 {
        Some((None, s))
    } else {
        match kind_of(oct(s, 0)) {
            None => None,
            Some(Kind::Int) => match exp_int(s) { Some((b, r)) => Some((Some(b), r)), None => None },
            Some(_) => Some((None, s)),
        }
    }
}

// the contents of the one SEQUENCE that s consists of
pub open spec fn only_seq(s: Octets) -> Option<Octets> {
    match exp_seq(s) { Some((c, r)) => if r.len() == 0 { Some(c) } else { None }, None => None }
}

// ---- C10: certificates -----------------------------------------------------------------

pub struct SAlg {
    pub oid: Seq<u32>,
    pub params: Option<Elem>,
}

pub struct STbs {
    pub version: int,
    pub serial: Octets,
    pub signature: SAlg,
    pub issuer: Octets,
    pub not_before: int,
    pub not_after: int,
    pub subject: Octets,
    pub key_alg: SAlg,
    pub key_unused: u8,
    pub key: Octets,
    pub issuer_uid: Option<(u8, Octets)>,
    pub subject_uid: Option<(u8, Octets)>,
    pub extensions: Option<Octets>,
}

pub struct SCert {
    pub raw: Octets,
    pub tbs: STbs,
    pub alg: SAlg,
    pub sig_unused: u8,
    pub sig: Octets,
}

#[verifier::opaque]
pub open spec fn dec_alg(s: Octets) -> Option<SAlg> {
    match exp_oid(s) {
        None => None,
        Some((oid, r)) => if r.len() == 0 {
            Some(SAlg { oid: oid, params: None })
        } else {
            match dec_tlv(r) {
                None => None,
                Some((e, r2)) => if r2.len() == 0 { Some(SAlg { oid: oid, params: Some(e) }) } else { None },
            }
        },
    }
}

pub open spec fn exp_alg(s: Octets) -> Option<(SAlg, Octets)> {
    match exp_seq(s) {
        None => None,
        Some((c, r)) => match dec_alg(c) { Some(a) => Some((a, r)), None => None },
    }
}

#[verifier::opaque]
pub open spec fn dec_version(s: Octets) -> Option<(int, Octets)> {
    match opt_tag(s, 0) {
        None => None,
        Some((None, r)) => Some((0, r)),
        Some((Some(c), r)) => match exp_int(c) {
            None => None,
            Some((n, r2)) => if r2.len() != 0 {
                None
            } else {
                match twos(n) {
                    None => None,
                    Some(v) => if 0 <= v && v <= 2 { Some((v, r)) } else { None },
                }
            },
        },
    }
}

#[verifier::opaque]
pub open spec fn dec_validity(s: Octets) -> Option<(int, int)> {
    match exp_time(s) {
        None => None,
        Some((a, r)) => match exp_time(r) {
            None => None,
            Some((b, r2)) => if r2.len() == 0 { Some((a, b)) } else { None },
        },
    }
}

#[verifier::opaque]
pub open spec fn dec_key(s: Octets) -> Option<(SAlg, u8, Octets)> {
    match exp_alg(s) {
        None => None,
        Some((a, r)) => match exp_bits(r) {
            None => None,
            Some((u, b, r2)) => if r2.len() == 0 { Some((a, u, b)) } else { None },
        },
    }
}

// an optional, implicitly tagged BIT STRING
#[verifier::opaque]
pub open spec fn dec_uid(s: Octets, n: u8) -> Option<(Option<(u8, Octets)>, Octets)> {
    match opt_tag(s, n) {
        None => None,
        Some((None, r)) => Some((None, r)),
        Some((Some(c), r)) => match dec_bits(c) {
            None => None,
            Some((u, b)) => Some((Some((u, b)), r)),
        },
    }
}

// the optional fields at the end
pub open spec fn dec_tbs_end(s: Octets, t: STbs) -> Option<STbs> {
    match dec_uid(s, 1) {
        None => None,
        Some((iu, r1)) => match dec_uid(r1, 2) {
            None => None,
            Some((su, r2)) => match opt_tag(r2, 3) {
                None => None,
                Some((x, r3)) => if r3.len() == 0 {
                    Some(STbs {
                        version: t.version, serial: t.serial, signature: t.signature, issuer: t.issuer,
                        not_before: t.not_before, not_after: t.not_after, subject: t.subject,
                        key_alg: t.key_alg, key_unused: t.key_unused, key: t.key,
                        issuer_uid: iu, subject_uid: su, extensions: x,
                    })
                } else {
                    None
                },
            },
        },
    }
}

#[verifier::opaque]
pub open spec fn dec_tbs(s: Octets) -> Option<STbs> {
    match dec_version(s) {
        None => None,
        Some((version, r1)) => match exp_int(r1) {
            None => None,
            Some((serial, r2)) => match exp_alg(r2) {
                None => None,
                Some((signature, r3)) => match exp_seq(r3) {
                    None => None,
                    Some((issuer, r4)) => match exp_seq(r4) {
                        None => None,
                        Some((vc, r5)) => match dec_validity(vc) {
                            None => None,
                            Some((not_before, not_after)) => match exp_seq(r5) {
                                None => None,
                                Some((subject, r6)) => match exp_seq(r6) {
                                    None => None,
                                    Some((kc, r7)) => match dec_key(kc) {
                                        None => None,
                                        Some((key_alg, key_unused, key)) => dec_tbs_end(r7, STbs {
                                            version: version, serial: serial, signature: signature, issuer: issuer,
                                            not_before: not_before, not_after: not_after, subject: subject,
                                            key_alg: key_alg, key_unused: key_unused, key: key,
                                            issuer_uid: None, subject_uid: None, extensions: None,
                                        }),
                                    },
                                },
                            },
                        },
                    },
                },
            },
        },
    }
}

#[verifier::opaque]
pub open spec fn dec_cert(s: Octets) -> Option<SCert> {
    match only_seq(s) {
        None => None,
        Some(c) => match exp_seq(c) {
            None => None,
            Some((raw, r1)) => match dec_tbs(raw) {
                None => None,
                Some(tbs) => match exp_alg(r1) {
                    None => None,
                    Some((alg, r2)) => match exp_bits(r2) {
                        None => None,
                        Some((u, b, r3)) => if r3.len() == 0 {
                            Some(SCert { raw: raw, tbs: tbs, alg: alg, sig_unused: u, sig: b })
                        } else {
                            None
                        },
                    },
                },
            },
        },
    }
}

// C11
pub open spec fn within(a: int, b: int, t: int) -> bool {
    a <= t && t <= b
}

// ---- C12: names --------------------------------------------------------------------------

pub struct SName {
    pub country: Option<Text>,
    pub state: Option<Text>,
    pub locality: Option<Text>,
    pub org: Option<Text>,
    pub unit: Option<Text>,
    pub common: Option<Text>,
}

pub open spec fn no_name() -> SName {
    SName { country: None, state: None, locality: None, org: None, unit: None, common: None }
}

pub open spec fn elem_text(e: Elem) -> Option<Text> {
    match e {
        Elem::Utf8(t) => Some(t),
        Elem::Printable(t) => Some(t),
        Elem::Ia5(t) => Some(t),
        _ => None,
    }
}

// the last arc of an attribute identifier 2.5.4.x, or 0
pub open spec fn attr_arc(o: Seq<u32>) -> int {
    if o.len() == 4 && o[0] == 2 && o[1] == 5 && o[2] == 4 { o[3] as int } else { 0 }
}

// fills an attribute that must still be empty
pub open spec fn fill(old: Option<Text>, e: Elem) -> Option<Text> {
    match old {
        Some(_) => None,
        None => elem_text(e),
    }
}

#[verifier::opaque]
pub open spec fn dec_attr(s: Octets, n: SName) -> Option<SName> {
    match exp_oid(s) {
        None => None,
        Some((o, r)) => match dec_tlv(r) {
            None => None,
            Some((e, r2)) => if r2.len() != 0 {
                None
            } else {
                let a = attr_arc(o);
                if a == 3 {
                    match fill(n.common, e) { None => None, Some(t) => Some(SName { country: n.country, state: n.state, locality: n.locality, org: n.org, unit: n.unit, common: Some(t) }) }
                } else if a == 6 {
                    match fill(n.country, e) { None => None, Some(t) => Some(SName { country: Some(t), state: n.state, locality: n.locality, org: n.org, unit: n.unit, common: n.common }) }
                } else if a == 7 {
                    match fill(n.locality, e) { None => None, Some(t) => Some(SName { country: n.country, state: n.state, locality: Some(t), org: n.org, unit: n.unit, common: n.common }) }
                } else if a == 8 {
                    match fill(n.state, e) { None => None, Some(t) => Some(SName { country: n.country, state: Some(t), locality: n.locality, org: n.org, unit: n.unit, common: n.common }) }
                } else if a == 10 {
                    match fill(n.org, e) { None => None, Some(t) => Some(SName { country: n.country, state: n.state, locality: n.locality, org: Some(t), unit: n.unit, common: n.common }) }
                } else if a == 11 {
                    match fill(n.unit, e) { None => None, Some(t) => Some(SName { country: n.country, state: n.state, locality: n.locality, org: n.org, unit: Some(t), common: n.common }) }
                } else {
                    Some(n)
                }
            },
        },
    }
}

// the attributes of the remaining contents of a SET
pub open spec fn rdn_tail(s: Octets, n: SName) -> Option<SName>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(n)
    } else {
        match exp_seq(s) {
            None => None,
            Some((c, r)) => match dec_attr(c, n) {
                None => None,
                Some(n2) => if r.len() < s.len() { rdn_tail(r, n2) } else { None },
            },
        }
    }
}

pub open spec fn name_tail(s: Octets, n: SName) -> Option<SName>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(n)
    } else {
        match exp_set(s) {
            None => None,
            Some((c, r)) => if c.len() == 0 {
                None
            } else {
                match rdn_tail(c, n) {
                    None => None,
                    Some(n2) => if r.len() < s.len() { name_tail(r, n2) } else { None },
                }
            },
        }
    }
}

#[verifier::opaque]
pub open spec fn dec_name(s: Octets) -> Option<SName> {
    name_tail(s, no_name())
}

// ---- C13-C17: extensions -------------------------------------------------------------------

pub struct SUsage {
    pub digital_signature: bool,
    pub content_commitment: bool,
    pub key_encipherment: bool,
    pub data_encipherment: bool,
    pub key_agreement: bool,
    pub key_cert_sign: bool,
    pub crl_sign: bool,
    pub encipher_only: bool,
    pub decipher_only: bool,
}

pub enum SGen {
    Email(Text),
    Dns(Text),
    Uri(Text),
    Ip(Octets),
    Rid(Seq<u32>),
    Other,
}

pub enum SPurpose {
    Server,
    Client,
    Code,
    Email,
    Stamp,
    Ocsp,
}

pub enum SContent {
    KeyId(Octets),
    Usage(SUsage),
    AltNames(Seq<SGen>),
    Basic(bool, Option<int>),
    Purposes(Seq<SPurpose>),
    Modbus(Text),
    Unknown(Octets),
}

pub struct SExt {
    pub oid: Seq<u32>,
    pub critical: bool,
    pub content: SContent,
}

#[verifier::opaque]
pub open spec fn dec_ski(s: Octets) -> Option<Octets> {
    match exp_octets(s) { Some((c, r)) => if r.len() == 0 { Some(c) } else { None }, None => None }
}

pub open spec fn granted(u: u8, b: Octets, i: int) -> bool {
    i < bit_size(u, b) && bit_at(b, i)
}

#[verifier::opaque]
pub open spec fn dec_usage(s: Octets) -> Option<SUsage> {
    match exp_bits(s) {
        None => None,
        Some((u, b, r)) => if r.len() != 0 {
            None
        } else {
            Some(SUsage {
                digital_signature: granted(u, b, 0),
                content_commitment: granted(u, b, 1),
                key_encipherment: granted(u, b, 2),
                data_encipherment: granted(u, b, 3),
                key_agreement: granted(u, b, 4),
                key_cert_sign: granted(u, b, 5),
                crl_sign: granted(u, b, 6),
                encipher_only: granted(u, b, 7),
                decipher_only: granted(u, b, 8),
            })
        },
    }
}

#[verifier::opaque]
pub open spec fn dec_basic(s: Octets) -> Option<(bool, Option<int>)> {
    match only_seq(s) {
        None => None,
        Some(c) => match opt_bool(c) {
            None => None,
            Some((b, r1)) => match opt_int(r1) {
                None => None,
                Some((i, r2)) => if r2.len() != 0 {
                    None
                } else {
                    let ca = match b { Some(x) => x, None => false };
                    match i {
                        None => Some((ca, None)),
                        Some(n) => match twos(n) { None => None, Some(v) => Some((ca, Some(v))) },
                    }
                },
            },
        },
    }
}

// the last arc of 1.3.6.1.5.5.7.3.x, or 0
pub open spec fn purpose_arc(o: Seq<u32>) -> int {
    if o.len() == 9 && o[0] == 1 && o[1] == 3 && o[2] == 6 && o[3] == 1 && o[4] == 5 && o[5] == 5 && o[6] == 7 && o[7] == 3 {
        o[8] as int
    } else {
        0
    }
}

#[verifier::opaque]
pub open spec fn dec_purpose(o: Seq<u32>) -> Option<SPurpose> {
    let a = purpose_arc(o);
    if a == 1 { Some(SPurpose::Server) }
    else if a == 2 { Some(SPurpose::Client) }
    else if a == 3 { Some(SPurpose::Code) }
    else if a == 4 { Some(SPurpose::Email) }
    else if a == 8 { Some(SPurpose::Stamp) }
    else if a == 9 { Some(SPurpose::Ocsp) }
    else { None }
}

pub open spec fn purposes_tail(s: Octets, acc: Seq<SPurpose>) -> Option<Seq<SPurpose>>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(acc)
    } else {
        match exp_oid(s) {
            None => None,
            Some((o, r)) => match dec_purpose(o) {
                None => None,
                Some(p) => if r.len() < s.len() { purposes_tail(r, acc.push(p)) } else { None },
            },
        }
    }
}

#[verifier::opaque]
pub open spec fn dec_eku(s: Octets) -> Option<Seq<SPurpose>> {
    match only_seq(s) { None => None, Some(c) => purposes_tail(c, Seq::<SPurpose>::empty()) }
}

#[verifier::opaque]
pub open spec fn dec_gen_name(n: u8, c: Octets) -> Option<SGen> {
    if n == 1 { match dec_text(c) { Some(t) => Some(SGen::Email(t)), None => None } }
    else if n == 2 { match dec_text(c) { Some(t) => Some(SGen::Dns(t)), None => None } }
    else if n == 6 { match dec_text(c) { Some(t) => Some(SGen::Uri(t)), None => None } }
    else if n == 7 { Some(SGen::Ip(c)) }
    else if n == 8 { match oid_arcs(c) { Some(o) => Some(SGen::Rid(o)), None => None } }
    else { None }
}

pub open spec fn gens_tail(s: Octets, acc: Seq<SGen>) -> Option<Seq<SGen>>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(acc)
    } else {
        match exp_tag(s) {
            None => None,
            Some((n, c, r)) => match dec_gen_name(n, c) {
                None => None,
                Some(g) => if r.len() < s.len() { gens_tail(r, acc.push(g)) } else { None },
            },
        }
    }
}

#[verifier::opaque]
pub open spec fn dec_san(s: Octets) -> Option<Seq<SGen>> {
    match only_seq(s) { None => None, Some(c) => gens_tail(c, Seq::<SGen>::empty()) }
}

#[verifier::opaque]
pub open spec fn dec_modbus(s: Octets) -> Option<Text> {
    match exp_utf8(s) { Some((c, r)) => if r.len() == 0 { Some(c) } else { None }, None => None }
}

// the last arc of 2.5.29.x, or 0
pub open spec fn ext_arc(o: Seq<u32>) -> int {
    if o.len() == 4 && o[0] == 2 && o[1] == 5 && o[2] == 29 { o[3] as int } else { 0 }
}

pub open spec fn is_modbus(o: Seq<u32>) -> bool {
    o.len() == 9 && o[0] == 1 && o[1] == 3 && o[2] == 6 && o[3] == 1 && o[4] == 4 && o[5] == 1 && o[6] == 50316 && o[7] == 802 && o[8] == 1
}

#[verifier::opaque]
pub open spec fn dec_ext_content(o: Seq<u32>, c: Octets) -> Option<SContent> {
    let a = ext_arc(o);
    if a == 14 { match dec_ski(c) { Some(x) => Some(SContent::KeyId(x)), None => None } }
    else if a == 15 { match dec_usage(c) { Some(x) => Some(SContent::Usage(x)), None => None } }
    else if a == 17 { match dec_san(c) { Some(x) => Some(SContent::AltNames(x)), None => None } }
    else if a == 19 { match dec_basic(c) { Some((b, i)) => Some(SContent::Basic(b, i)), None => None } }
    else if a == 37 { match dec_eku(c) { Some(x) => Some(SContent::Purposes(x)), None => None } }
    else if is_modbus(o) { match dec_modbus(c) { Some(x) => Some(SContent::Modbus(x)), None => None } }
    else { Some(SContent::Unknown(c)) }
}

#[verifier::opaque]
pub open spec fn dec_ext(s: Octets) -> Option<SExt> {
    match exp_oid(s) {
        None => None,
        Some((o, r1)) => match opt_bool(r1) {
            None => None,
            Some((b, r2)) => match exp_octets(r2) {
                None => None,
                Some((c, r3)) => if r3.len() != 0 {
                    None
                } else {
                    match dec_ext_content(o, c) {
                        None => None,
                        Some(x) => Some(SExt { oid: o, critical: match b { Some(v) => v, None => false }, content: x }),
                    }
                },
            },
        },
    }
}

pub open spec fn exts_tail(s: Octets, acc: Seq<SExt>) -> Option<Seq<SExt>>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(acc)
    } else {
        match exp_seq(s) {
            None => None,
            Some((c, r)) => match dec_ext(c) {
                None => None,
                Some(x) => if r.len() < s.len() { exts_tail(r, acc.push(x)) } else { None },
            },
        }
    }
}

#[verifier::opaque]
pub open spec fn dec_exts(s: Octets) -> Option<Seq<SExt>> {
    match only_seq(s) { None => None, Some(c) => exts_tail(c, Seq::<SExt>::empty()) }
}

// ---- C20: what is displayed ------------------------------------------------------------------

pub open spec fn digit(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' }
    else if n == 10 { 'A' } else if n == 11 { 'B' } else if n == 12 { 'C' } else if n == 13 { 'D' } else if n == 14 { 'E' } else { 'F' }
}

pub open spec fn nat_text(n: int) -> Seq<char>
    decreases n,
{
    if n < 10 { Seq::<char>::empty().push(digit(n)) } else { nat_text(n / 10).push(digit(n % 10)) }
}

pub open spec fn dec_text10(n: int) -> Seq<char> {
    if n < 0 { Seq::<char>::empty().push('-').add(nat_text(-n)) } else { nat_text(n) }
}

pub open spec fn hex2(b: u8) -> Seq<char> {
    Seq::<char>::empty().push(digit((b as int) / 16)).push(digit((b as int) % 16))
}

// the first n octets, separated by colons
pub open spec fn hex_text(b: Octets, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::<char>::empty() }
    else if n == 1 { hex2(oct(b, 0)) }
    else { hex_text(b, n - 1).push(':').add(hex2(oct(b, n - 1))) }
}

pub open spec fn int_text(b: Octets) -> Seq<char> {
    match twos(b) {
        Some(v) => dec_text10(v),
        None => if b.len() == 0 { Seq::<char>::empty().push('[').push(']') } else { hex_text(b, b.len() as int) },
    }
}

// the first n arcs, separated by dots
pub open spec fn arc_text(o: Seq<u32>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::<char>::empty() }
    else if n == 1 { dec_text10(o[0] as int) }
    else { arc_text(o, n - 1).push('.').add(dec_text10(o[n - 1] as int)) }
}

pub open spec fn is_rsa(o: Seq<u32>) -> bool {
    o.len() == 7 && o[0] == 1 && o[1] == 2 && o[2] == 840 && o[3] == 113549
}

#[verifier::opaque]
pub open spec fn oid_name(o: Seq<u32>) -> Option<Seq<char>> {
    let a = attr_arc(o);
    if is_rsa(o) && o[4] == 1 && o[5] == 1 && o[6] == 1 { Some("RSA Encryption"@) }
    else if is_rsa(o) && o[4] == 1 && o[5] == 1 && o[6] == 5 { Some("SHA1 with RSA Signature"@) }
    else if is_rsa(o) && o[4] == 1 && o[5] == 9 && o[6] == 1 { Some("Email Address"@) }
    else if o.len() == 4 && o[0] == 1 && o[1] == 3 && o[2] == 101 && o[3] == 112 { Some("Ed25519 Signature"@) }
    else if a == 3 { Some("Common Name"@) }
    else if a == 6 { Some("Country Name"@) }
    else if a == 7 { Some("Locality Name"@) }
    else if a == 8 { Some("State or Province Name"@) }
    else if a == 10 { Some("Organization Name"@) }
    else if a == 11 { Some("Organizational Unit Name"@) }
    else { None }
}

pub open spec fn oid_text(o: Seq<u32>) -> Seq<char> {
    match oid_name(o) {
        Some(t) => t,
        None => arc_text(o, o.len() as int),
    }
}
