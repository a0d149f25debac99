// Properties that are consequences of the contracts: theorems about the specification
// functions which the contracts establish of the code.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;

// must be rejected on every run: it would be accepted if the assumptions were inconsistent
proof fn v_canary(s: &[u8])
    ensures false,
{
    crate::vpre::axiom_slice_len(s);
}

// ---- numbers of fixed width -------------------------------------------------------------

proof fn be_bound(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= be(s, k), k == 1 ==> be(s, k) < 256, k == 2 ==> be(s, k) < 65536, k == 3 ==> be(s, k) < 16777216, k == 4 ==> be(s, k) < 4294967296,
    decreases k,
{
    reveal_with_fuel(be, 6);
    if k > 0 { be_bound(s, k - 1); }
}

proof fn be_inj(s: Seq<u8>, t: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), be(s, k) == be(t, k),
    ensures s.subrange(0, k) == t.subrange(0, k),
    decreases k,
{
    if k > 0 {
        be_inj_step(s, t, k);
        be_inj(s, t, k - 1);
        assert(s.subrange(0, k) =~= s.subrange(0, k - 1).push(s[k - 1]));
        assert(t.subrange(0, k) =~= t.subrange(0, k - 1).push(t[k - 1]));
    }
    assert(s.subrange(0, k) =~= t.subrange(0, k));
}

proof fn be_inj_step(s: Seq<u8>, t: Seq<u8>, k: int)
    requires 0 < k <= s.len(), k <= t.len(), be(s, k) == be(t, k),
    ensures be(s, k - 1) == be(t, k - 1), s[k - 1] == t[k - 1],
{
    let a = be(s, k - 1);
    let b = be(t, k - 1);
    let x = s[k - 1] as int;
    let y = t[k - 1] as int;
    assert(a * 256 + x == b * 256 + y);
    assert(a == b && x == y) by(nonlinear_arith) requires a * 256 + x == b * 256 + y, 0 <= x < 256, 0 <= y < 256;
}

// ---- C02: lengths -------------------------------------------------------------------------

// the octets in front of what follows a decoded part
pub open spec fn consumed(s: Seq<u8>, r: Seq<u8>) -> Seq<u8> {
    s.subrange(0, s.len() - r.len())
}

// a length is decoded from one encoding only
pub proof fn c19_length(s: Seq<u8>, t: Seq<u8>)
    requires
        dec_len(s) is Some, dec_len(t) is Some,
        (dec_len(s)->0).0 == (dec_len(t)->0).0,
    ensures
        consumed(s, (dec_len(s)->0).1) == consumed(t, (dec_len(t)->0).1),
        (dec_len(s)->0).1.len() < s.len(),
        (dec_len(t)->0).1.len() < t.len(),
        (dec_len(s)->0).1 == s.subrange(s.len() - (dec_len(s)->0).1.len(), s.len() as int),
{
    reveal(dec_len);
    let (v, r) = dec_len(s)->0;
    let (w, q) = dec_len(t)->0;
    let s1 = s.subrange(1, s.len() as int);
    let t1 = t.subrange(1, t.len() as int);
    if s[0] >= 128 {
        be_bound(s1, s[0] as int - 128);
    }
    if t[0] >= 128 {
        be_bound(t1, t[0] as int - 128);
    }
    assert(s[0] == t[0]);
    if s[0] >= 128 {
        let n = s[0] as int - 128;
        be_inj(s1, t1, n);
        assert forall|i: int| 0 <= i < 1 + n implies s[i] == t[i] by {
            if i > 0 {
                assert(s1.subrange(0, n)[i - 1] == s[i]);
                assert(t1.subrange(0, n)[i - 1] == t[i]);
            }
        }
    }
    assert(consumed(s, r) =~= consumed(t, q));
}

// the length octets of n
pub open spec fn enc_len(n: int) -> Seq<u8> {
    if n < 128 { seq![n as u8] }
    else if n < 256 { seq![0x81u8, n as u8] }
    else if n < 65536 { seq![0x82u8, (n / 256) as u8, (n % 256) as u8] }
    else if n < 16777216 { seq![0x83u8, (n / 65536) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }
    else { seq![0x84u8, (n / 16777216) as u8, (n / 65536 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }
}

// every length up to 4294967295 has an encoding that is accepted, whatever follows
#[verifier::rlimit(60)]
pub proof fn c02_every_length(n: int, rest: Seq<u8>)
    requires 0 <= n <= 4294967295,
    ensures dec_len(enc_len(n).add(rest)) == Some((n, rest)),
{
    reveal(dec_len);
    reveal_with_fuel(be, 6);
    let s = enc_len(n).add(rest);
    let t = s.subrange(1, s.len() as int);
    let k = enc_len(n).len() as int;
    assert(s.subrange(k, s.len() as int) =~= rest);
    assert(s[0] == enc_len(n)[0]);
    if n >= 128 {
        assert(t[0] == enc_len(n)[1]);
        if n >= 256 { assert(t[1] == enc_len(n)[2]); }
        if n >= 65536 { assert(t[2] == enc_len(n)[3]); }
        if n >= 16777216 { assert(t[3] == enc_len(n)[4]); }
        let m = k - 1;
        assert(be(t, m) == n) by {
            assert(be(t, 0) == 0);
            assert(be(t, 1) == t[0] as int);
            assert(m >= 2 ==> be(t, 2) == t[0] as int * 256 + t[1] as int);
            assert(m >= 3 ==> be(t, 3) == (t[0] as int * 256 + t[1] as int) * 256 + t[2] as int);
            assert(m >= 4 ==> be(t, 4) == ((t[0] as int * 256 + t[1] as int) * 256 + t[2] as int) * 256 + t[3] as int);
        }
    }
}

// ---- C19: contents ------------------------------------------------------------------------

proof fn c19_bits(c: Seq<u8>, d: Seq<u8>)
    requires dec_bits(c) is Some, dec_bits(c) == dec_bits(d),
    ensures c == d,
{
    reveal(dec_bits);
    assert(c.subrange(1, c.len() as int).len() == d.subrange(1, d.len() as int).len());
    assert(c.len() == d.len());
    assert forall|i: int| 0 <= i < c.len() implies c[i] == d[i] by {
        if i > 0 {
            assert(c.subrange(1, c.len() as int)[i - 1] == c[i]);
            assert(d.subrange(1, d.len() as int)[i - 1] == d[i]);
        }
    }
    assert(c =~= d);
}

pub proof fn c19_text(c: Seq<u8>, d: Seq<u8>)
    requires dec_text(c) is Some, dec_text(c) == dec_text(d),
    ensures c == d,
{
    reveal(dec_text);
    decode_utf8_encode_utf8(c);
    decode_utf8_encode_utf8(d);
}

// the number of octets of a subidentifier follows from its value
pub open spec fn sub_len(v: int) -> int {
    if v < 128 { 1 } else if v < 16384 { 2 } else if v < 2097152 { 3 } else { 4 }
}

// a subidentifier, written out
proof fn sub_shape(s: Seq<u8>)
    requires sub_go(s, 0, 0) is Some,
    ensures ({
        let (v, r) = sub_go(s, 0, 0)->0;
        let n = s.len() - r.len();
        &&& n == sub_len(v)
        &&& 1 <= n <= 4
        &&& r == s.subrange(n as int, s.len() as int)
        &&& 0 <= v < 268435456
        &&& n == 1 ==> v == s[0] && s[0] < 128
        &&& n == 2 ==> v == (s[0] - 128) * 128 + s[1] && s[0] >= 129 && s[1] < 128
        &&& n == 3 ==> v == ((s[0] - 128) * 128 + (s[1] - 128)) * 128 + s[2] && s[0] >= 129 && s[1] >= 128 && s[2] < 128
        &&& n == 4 ==> v == (((s[0] - 128) * 128 + (s[1] - 128)) * 128 + (s[2] - 128)) * 128 + s[3] && s[0] >= 129 && s[1] >= 128 && s[2] >= 128 && s[3] < 128
    }),
{
    reveal_with_fuel(sub_go, 6);
    let r1 = s.subrange(1, s.len() as int);
    if s[0] >= 128 {
        assert(r1[0] == s[1]);
        let r2 = r1.subrange(1, r1.len() as int);
        assert(r2 =~= s.subrange(2, s.len() as int));
        if s[1] >= 128 {
            assert(r2[0] == s[2]);
            let r3 = r2.subrange(1, r2.len() as int);
            assert(r3 =~= s.subrange(3, s.len() as int));
            if s[2] >= 128 {
                assert(r3[0] == s[3]);
                let r4 = r3.subrange(1, r3.len() as int);
                assert(r4 =~= s.subrange(4, s.len() as int));
            }
        }
    }
}

proof fn sub_inj2(s: Seq<u8>, t: Seq<u8>)
    requires dec_sub(s) is Some, dec_sub(t) is Some, (dec_sub(s)->0).0 == (dec_sub(t)->0).0,
    ensures
        s.len() > (dec_sub(s)->0).1.len(),
        consumed(s, (dec_sub(s)->0).1) == consumed(t, (dec_sub(t)->0).1),
        s == consumed(s, (dec_sub(s)->0).1).add((dec_sub(s)->0).1),
        t == consumed(t, (dec_sub(t)->0).1).add((dec_sub(t)->0).1),
{
    reveal(dec_sub);
    sub_shape(s);
    sub_shape(t);
    let (v, r) = sub_go(s, 0, 0)->0;
    let (w, q) = sub_go(t, 0, 0)->0;
    let n = sub_len(v);
    assert(s[0] == t[0]);
    if n >= 2 { assert(s[1] == t[1]); }
    if n >= 3 { assert(s[2] == t[2]); }
    if n >= 4 { assert(s[3] == t[3]); }
    assert(consumed(s, r) =~= consumed(t, q));
    assert(s =~= consumed(s, r).add(r));
    assert(t =~= consumed(t, q).add(q));
}

proof fn arcs_len(s: Seq<u8>, acc: Seq<u32>)
    requires arcs_tail(s, acc) is Some,
    ensures
        arcs_tail(s, acc)->0.len() >= acc.len(),
        arcs_tail(s, acc)->0.subrange(0, acc.len() as int) == acc,
        s.len() > 0 ==> arcs_tail(s, acc)->0.len() > acc.len(),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(acc.subrange(0, acc.len() as int) =~= acc);
    } else {
        let (v, r) = dec_sub(s)->0;
        let acc2 = acc.push(v as u32);
        arcs_len(r, acc2);
        let o = arcs_tail(s, acc)->0;
        assert(o.subrange(0, acc2.len() as int) == acc2);
        assert(o.subrange(0, acc.len() as int) =~= o.subrange(0, acc2.len() as int).subrange(0, acc.len() as int));
        assert(acc2.subrange(0, acc.len() as int) =~= acc);
    }
}

proof fn arcs_inj(s: Seq<u8>, t: Seq<u8>, acc: Seq<u32>)
    requires arcs_tail(s, acc) is Some, arcs_tail(s, acc) == arcs_tail(t, acc),
    ensures s == t,
    decreases s.len(),
{
    arcs_len(s, acc);
    arcs_len(t, acc);
    if s.len() == 0 {
        assert(t.len() == 0);
        assert(s =~= t);
    } else {
        assert(t.len() > 0);
        let (v, r) = dec_sub(s)->0;
        let (w, q) = dec_sub(t)->0;
        reveal(dec_sub);
        sub_shape(s);
        sub_shape(t);
        let o = arcs_tail(s, acc)->0;
        arcs_len(r, acc.push(v as u32));
        arcs_len(q, acc.push(w as u32));
        assert(o.subrange(0, acc.len() as int + 1)[acc.len() as int] == v as u32);
        assert(o.subrange(0, acc.len() as int + 1)[acc.len() as int] == w as u32);
        assert(v == w);
        arcs_inj(r, q, acc.push(v as u32));
        sub_inj2(s, t);
    }
}

pub proof fn c19_oid(c: Seq<u8>, d: Seq<u8>)
    requires oid_arcs(c) is Some, oid_arcs(c) == oid_arcs(d),
    ensures c == d,
{
    reveal(oid_arcs);
    reveal(dec_sub);
    let (v, r) = dec_sub(c)->0;
    let (w, q) = dec_sub(d)->0;
    sub_shape(c);
    sub_shape(d);
    let a: int = if v < 40 { 0 } else if v < 80 { 1 } else { 2 };
    let b: int = if w < 40 { 0 } else if w < 80 { 1 } else { 2 };
    let x = Seq::<u32>::empty().push(a as u32).push((v - 40 * a) as u32);
    let y = Seq::<u32>::empty().push(b as u32).push((w - 40 * b) as u32);
    arcs_len(r, x);
    arcs_len(q, y);
    let o = oid_arcs(c)->0;
    assert(o.subrange(0, 2)[0] == a as u32 && o.subrange(0, 2)[1] == (v - 40 * a) as u32);
    assert(o.subrange(0, 2)[0] == b as u32 && o.subrange(0, 2)[1] == (w - 40 * b) as u32);
    assert(x == y);
    arcs_inj(r, q, x);
    sub_inj2(c, d);
}

// ---- C07, C19: instants ---------------------------------------------------------------------

proof fn months_mono(y: int, a: int, b: int)
    requires 1 <= a < b <= 13,
    ensures days_before_month(y, a) + month_days(y, a) <= days_before_month(y, b),
    decreases b,
{
    if a < b - 1 { months_mono(y, a, b - 1); }
}

proof fn months_total(y: int)
    ensures days_before_month(y, 13) == year_days(y),
{
    reveal_with_fuel(days_before_month, 14);
}

proof fn years_mono(a: int, b: int)
    requires 1970 <= a < b,
    ensures days_before_year(a) + year_days(a) <= days_before_year(b),
    decreases b,
{
    if a < b - 1 { years_mono(a, b - 1); }
}

pub open spec fn date_ok(y: int, mo: int, d: int, h: int, mi: int, s: int) -> bool {
    1970 <= y && 1 <= mo <= 12 && 1 <= d <= month_days(y, mo) && 0 <= h <= 23 && 0 <= mi <= 59 && 0 <= s <= 59
}

// the day number of a date
pub open spec fn day_no(y: int, mo: int, d: int) -> int {
    days_before_year(y) + days_before_month(y, mo) + (d - 1)
}

proof fn day_in_year(y: int, mo: int, d: int)
    requires 1 <= mo <= 12, 1 <= d <= month_days(y, mo),
    ensures days_before_year(y) <= day_no(y, mo, d) < days_before_year(y) + year_days(y),
{
    months_total(y);
    months_mono(y, mo, 13);
    months_low(y, mo);
}

proof fn months_low(y: int, m: int)
    requires 1 <= m,
    ensures days_before_month(y, m) >= 0,
    decreases m,
{
    if m > 1 { months_low(y, m - 1); }
}

proof fn day_order(y: int, mo: int, d: int, y2: int, mo2: int, d2: int)
    requires
        1970 <= y, 1 <= mo <= 12, 1 <= d <= month_days(y, mo),
        1970 <= y2, 1 <= mo2 <= 12, 1 <= d2 <= month_days(y2, mo2),
    ensures
        y < y2 || (y == y2 && mo < mo2) || (y == y2 && mo == mo2 && d < d2) ==> day_no(y, mo, d) < day_no(y2, mo2, d2),
{
    day_in_year(y, mo, d);
    day_in_year(y2, mo2, d2);
    if y < y2 { years_mono(y, y2); }
    else if y == y2 && mo < mo2 { months_mono(y, mo, mo2); }
}

// later on the calendar or the clock is later in time
pub proof fn c07_order(y: int, mo: int, d: int, h: int, mi: int, s: int, y2: int, mo2: int, d2: int, h2: int, mi2: int, s2: int)
    requires date_ok(y, mo, d, h, mi, s), date_ok(y2, mo2, d2, h2, mi2, s2),
    ensures
        y < y2 || (y == y2 && (mo < mo2 || (mo == mo2 && (d < d2 || (d == d2 && (h < h2 || (h == h2 && (mi < mi2 || (mi == mi2 && s < s2)))))))))
            ==> instant(y, mo, d, h, mi, s) < instant(y2, mo2, d2, h2, mi2, s2),
{
    day_order(y, mo, d, y2, mo2, d2);
    let a = day_no(y, mo, d);
    let b = day_no(y2, mo2, d2);
    assert(a < b ==> a * 86400 + h * 3600 + mi * 60 + s < b * 86400 + h2 * 3600 + mi2 * 60 + s2) by(nonlinear_arith)
        requires 0 <= h <= 23, 0 <= mi <= 59, 0 <= s <= 59, 0 <= h2, 0 <= mi2, 0 <= s2;
}

// the same instant comes from the same date and time of day only
proof fn instant_inj(y: int, mo: int, d: int, h: int, mi: int, s: int, y2: int, mo2: int, d2: int, h2: int, mi2: int, s2: int)
    requires date_ok(y, mo, d, h, mi, s), date_ok(y2, mo2, d2, h2, mi2, s2), instant(y, mo, d, h, mi, s) == instant(y2, mo2, d2, h2, mi2, s2),
    ensures y == y2, mo == mo2, d == d2, h == h2, mi == mi2, s == s2,
{
    c07_order(y, mo, d, h, mi, s, y2, mo2, d2, h2, mi2, s2);
    c07_order(y2, mo2, d2, h2, mi2, s2, y, mo, d, h, mi, s);
}

proof fn two_inj(c: Seq<u8>, d: Seq<u8>, i: int)
    requires two(c, i) >= 0, two(c, i) == two(d, i),
    ensures c[i] == d[i], c[i + 1] == d[i + 1],
{}

#[verifier::rlimit(60)]
proof fn date_inj(c: Seq<u8>, d: Seq<u8>, i: int, y: int, z: int)
    requires dec_date(c, i, y) is Some, dec_date(c, i, y) == dec_date(d, i, z),
    ensures
        y == z,
        forall|j: int| i <= j < i + 11 ==> c[j] == d[j],
{
    instant_inj(y, two(c, i), two(c, i + 2), two(c, i + 4), two(c, i + 6), two(c, i + 8),
        z, two(d, i), two(d, i + 2), two(d, i + 4), two(d, i + 6), two(d, i + 8));
    two_inj(c, d, i);
    two_inj(c, d, i + 2);
    two_inj(c, d, i + 4);
    two_inj(c, d, i + 6);
    two_inj(c, d, i + 8);
    assert forall|j: int| i <= j < i + 11 implies c[j] == d[j] by {
        assert(j == i || j == i + 1 || j == i + 2 || j == i + 3 || j == i + 4 || j == i + 5 || j == i + 6 || j == i + 7 || j == i + 8 || j == i + 9 || j == i + 10);
    }
}

#[verifier::rlimit(60)]
pub proof fn c19_utc(c: Seq<u8>, d: Seq<u8>)
    requires dec_utc(c) is Some, dec_utc(c) == dec_utc(d),
    ensures c == d,
{
    reveal(dec_utc);
    let a = two(c, 0);
    let b = two(d, 0);
    date_inj(c, d, 2, if a >= 50 { 1900 + a } else { 2000 + a }, if b >= 50 { 1900 + b } else { 2000 + b });
    assert(a <= 99 && b <= 99);
    assert(a == b);
    two_inj(c, d, 0);
    assert(c =~= d);
}

proof fn centuries(p: int, q: int, r: int, t: int)
    requires 0 <= q <= 99, 0 <= t <= 99, p * 100 + q == r * 100 + t,
    ensures p == r, q == t,
{}

#[verifier::rlimit(60)]
pub proof fn c19_gen(c: Seq<u8>, d: Seq<u8>)
    requires dec_gen(c) is Some, dec_gen(c) == dec_gen(d),
    ensures c == d,
{
    reveal(dec_gen);
    date_inj(c, d, 4, two(c, 0) * 100 + two(c, 2), two(d, 0) * 100 + two(d, 2));
    assert(two(c, 2) <= 99 && two(d, 2) <= 99);
    centuries(two(c, 0), two(c, 2), two(d, 0), two(d, 2));
    two_inj(c, d, 0);
    two_inj(c, d, 2);
    assert(c =~= d);
}

// ---- C19: elements --------------------------------------------------------------------------

pub proof fn c19_content(k: Kind, c: Seq<u8>, d: Seq<u8>)
    requires dec_content(k, c) is Some, dec_content(k, c) == dec_content(k, d),
    ensures c == d,
{
    match k {
        Kind::Bool => { reveal(dec_bool); assert(c[0] == d[0]); assert(c =~= d); },
        Kind::Null => { assert(c =~= d); },
        Kind::Bits => { c19_bits(c, d); },
        Kind::Oid => { c19_oid(c, d); },
        Kind::Utf8 | Kind::Printable | Kind::Ia5 => { c19_text(c, d); },
        Kind::Utc => { c19_utc(c, d); },
        Kind::Gen => { c19_gen(c, d); },
        _ => {},
    }
}

// two elements with the same identifier octet and the same value are encoded alike
pub proof fn c19_element(s: Seq<u8>, t: Seq<u8>)
    requires
        dec_tlv(s) is Some, dec_tlv(t) is Some,
        s[0] == t[0],
        (dec_tlv(s)->0).0 == (dec_tlv(t)->0).0,
    ensures
        consumed(s, (dec_tlv(s)->0).1) == consumed(t, (dec_tlv(t)->0).1),
{
    reveal(dec_tlv);
    reveal(dec_hdr);
    let (id, c, r) = dec_hdr(s)->0;
    let (jd, d, q) = dec_hdr(t)->0;
    c19_content(kind_of(id)->0, c, d);
    assert(c == d);
    let s1 = s.subrange(1, s.len() as int);
    let t1 = t.subrange(1, t.len() as int);
    let (n, sr) = dec_len(s1)->0;
    let (m, tr) = dec_len(t1)->0;
    assert(n == c.len() && m == d.len()) by {
        reveal(dec_len);
        reveal_with_fuel(be, 6);
    }
    c19_length(s1, t1);
    c19_length(t1, s1);
    let h = s1.len() - sr.len();
    assert(consumed(s1, sr).len() == consumed(t1, tr).len());
    assert(h == t1.len() - tr.len());
    assert(s.len() - r.len() == 1 + h + n);
    assert(t.len() - q.len() == 1 + h + n);
    assert forall|i: int| 0 <= i < 1 + h + n implies s[i] == t[i] by {
        if i == 0 {
        } else if i < 1 + h {
            assert(consumed(s1, sr)[i - 1] == s[i]);
            assert(consumed(t1, tr)[i - 1] == t[i]);
        } else {
            assert(c[i - 1 - h] == s[i]);
            assert(d[i - 1 - h] == t[i]);
        }
    }
    assert(consumed(s, r) =~= consumed(t, q));
}

// ---- C04: the walk --------------------------------------------------------------------------

// constructed elements open after these notifications; below zero once one is closed that is not open
pub open spec fn open_after(t: Seq<Ev>) -> int
    decreases t.len(),
{
    if t.len() == 0 { 0 } else {
        open_after(t.drop_last()) + match t.last() { Ev::Begin => 1int, Ev::End => -1int, _ => 0int }
    }
}
pub open spec fn nested(t: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i <= t.len() ==> #[trigger] open_after(t.subrange(0, i)) >= 0
}
pub open spec fn errors(t: Seq<Ev>) -> int
    decreases t.len(),
{
    if t.len() == 0 { 0 } else { errors(t.drop_last()) + if t.last() is Error { 1int } else { 0int } }
}

proof fn count_add(a: Seq<Ev>, b: Seq<Ev>)
    ensures
        open_after(a.add(b)) == open_after(a) + open_after(b),
        errors(a.add(b)) == errors(a) + errors(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a.add(b) =~= a);
    } else {
        assert(a.add(b).drop_last() =~= a.add(b.drop_last()));
        count_add(a, b.drop_last());
    }
}

proof fn nested_add(a: Seq<Ev>, b: Seq<Ev>)
    requires nested(a), forall|i: int| 0 <= i <= b.len() ==> open_after(a) + #[trigger] open_after(b.subrange(0, i)) >= 0,
    ensures nested(a.add(b)),
{
    let t = a.add(b);
    assert forall|i: int| 0 <= i <= t.len() implies #[trigger] open_after(t.subrange(0, i)) >= 0 by {
        if i <= a.len() {
            assert(t.subrange(0, i) =~= a.subrange(0, i));
        } else {
            let j = i - a.len();
            assert(t.subrange(0, i) =~= a.add(b.subrange(0, j)));
            count_add(a, b.subrange(0, j));
        }
    }
}

proof fn nested_one(e: Ev)
    requires !(e is End),
    ensures nested(seq![e]), open_after(seq![e]) == if e is Begin { 1int } else { 0int }, errors(seq![e]) == if e is Error { 1int } else { 0int },
{
    let t = seq![e];
    reveal_with_fuel(open_after, 3);
    reveal_with_fuel(errors, 3);
    assert(t.drop_last() =~= Seq::<Ev>::empty());
    assert forall|i: int| 0 <= i <= t.len() implies #[trigger] open_after(t.subrange(0, i)) >= 0 by {
        if i == 0 { assert(t.subrange(0, i) =~= Seq::<Ev>::empty()); } else { assert(t.subrange(0, i) =~= t); }
    }
}

// a walk never closes what is not open; on success all is closed and there is no error; on
// failure there is exactly one error, at the end
pub proof fn c04_shape(s: Seq<u8>)
    ensures
        nested(walk(s).0),
        walk(s).1 ==> open_after(walk(s).0) == 0 && errors(walk(s).0) == 0,
        !walk(s).1 ==> errors(walk(s).0) == 1 && walk(s).0.len() > 0 && walk(s).0.last() is Error,
    decreases s.len(),
{
    let w0 = walk(s);
    if s.len() == 0 {
        assert(nested(Seq::<Ev>::empty())) by {
            assert(Seq::<Ev>::empty().subrange(0, 0) =~= Seq::<Ev>::empty());
        }
    } else {
        match dec_tlv(s) {
            None => {
                nested_one(Ev::Error);
                assert(w0.0 =~= seq![Ev::Error]);
            },
            Some((e, r)) => {
                reveal(dec_tlv);
                reveal(dec_hdr);
                reveal(dec_len);
                assert(r.len() < s.len());
                let here = seq![Ev::Item(e)];
                nested_one(Ev::Item(e));
                match children(e) {
                    None => {
                        c04_shape(r);
                        count_add(here, walk(r).0);
                        nested_add(here, walk(r).0);
                        assert(w0.0 =~= here.add(walk(r).0));
                    },
                    Some(c) => {
                        assert(c.len() < s.len());
                        c04_shape(c);
                        nested_one(Ev::Begin);
                        let b = seq![Ev::Begin];
                        let i = walk(c).0;
                        let x = here.add(b);
                        count_add(here, b);
                        nested_add(here, b);
                        count_add(x, i);
                        nested_add(x, i);
                        let y = x.add(i);
                        if walk(c).1 {
                            c04_shape(r);
                            let z = y.push(Ev::End);
                            let e1 = seq![Ev::End];
                            assert(open_after(e1) == -1 && errors(e1) == 0) by {
                                reveal_with_fuel(open_after, 3);
                                reveal_with_fuel(errors, 3);
                                assert(e1.drop_last() =~= Seq::<Ev>::empty());
                            }
                            count_add(y, e1);
                            assert forall|j: int| 0 <= j <= e1.len() implies open_after(y) + #[trigger] open_after(e1.subrange(0, j)) >= 0 by {
                                if j == 0 { assert(e1.subrange(0, j) =~= Seq::<Ev>::empty()); } else { assert(e1.subrange(0, j) =~= e1); }
                            }
                            nested_add(y, e1);
                            let z = y.add(e1);
                            count_add(z, walk(r).0);
                            nested_add(z, walk(r).0);
                            assert(w0.0 =~= z.add(walk(r).0));
                        } else {
                            assert(w0.0 =~= y);
                        }
                    },
                }
            },
        }
    }
}

// ---- C11 --------------------------------------------------------------------------------------

pub proof fn c11_bounds(a: int, b: int, t: int)
    ensures within(a, b, t) == (a <= t <= b),
{}
