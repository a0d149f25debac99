use vstd::prelude::*;
use crate::spec::*;
use vstd::std_specs::cmp::PartialEqSpec;

// ---- sequences -----------------------------------------------------------------------

pub broadcast proof fn sub_sub<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}

pub broadcast proof fn sub_all<A>(s: Seq<A>, b: int)
    requires b == s.len(),
    ensures #[trigger] s.subrange(0, b) == s,
{
    assert(s.subrange(0, b) =~= s);
}

// ---- variable shifts of an octet ---------------------------------------------------------

pub broadcast proof fn shl_top(b: u8, k: u8)
    requires k < 8,
    ensures (#[trigger] (b << k) & 0x80) != 0 <==> ((b as int) / pow2(7 - k as int)) % 2 == 1,
{
    assert(k == 0 ==> (((b << k) & 0x80) != 0 <==> (b / 128) % 2 == 1)) by(bit_vector);
    assert(k == 1 ==> (((b << k) & 0x80) != 0 <==> (b / 64) % 2 == 1)) by(bit_vector);
    assert(k == 2 ==> (((b << k) & 0x80) != 0 <==> (b / 32) % 2 == 1)) by(bit_vector);
    assert(k == 3 ==> (((b << k) & 0x80) != 0 <==> (b / 16) % 2 == 1)) by(bit_vector);
    assert(k == 4 ==> (((b << k) & 0x80) != 0 <==> (b / 8) % 2 == 1)) by(bit_vector);
    assert(k == 5 ==> (((b << k) & 0x80) != 0 <==> (b / 4) % 2 == 1)) by(bit_vector);
    assert(k == 6 ==> (((b << k) & 0x80) != 0 <==> (b / 2) % 2 == 1)) by(bit_vector);
    assert(k == 7 ==> (((b << k) & 0x80) != 0 <==> (b / 1) % 2 == 1)) by(bit_vector);
}

pub broadcast proof fn shr_any(b: u8, k: u8)
    requires k < 8,
    ensures #[trigger] (b >> k) == (b as int) / pow2(k as int),
{
    assert(k == 0 ==> b >> k == b / 1) by(bit_vector);
    assert(k == 1 ==> b >> k == b / 2) by(bit_vector);
    assert(k == 2 ==> b >> k == b / 4) by(bit_vector);
    assert(k == 3 ==> b >> k == b / 8) by(bit_vector);
    assert(k == 4 ==> b >> k == b / 16) by(bit_vector);
    assert(k == 5 ==> b >> k == b / 32) by(bit_vector);
    assert(k == 6 ==> b >> k == b / 64) by(bit_vector);
    assert(k == 7 ==> b >> k == b / 128) by(bit_vector);
}

pub broadcast proof fn and_mask(b: u8, k: u8)
    requires k < 8,
    ensures (#[trigger] (b & (0x80u8 >> k))) != 0 <==> ((b as int) / pow2(7 - k as int)) % 2 == 1,
{
    assert(k == 0 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 128) % 2 == 1)) by(bit_vector);
    assert(k == 1 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 64) % 2 == 1)) by(bit_vector);
    assert(k == 2 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 32) % 2 == 1)) by(bit_vector);
    assert(k == 3 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 16) % 2 == 1)) by(bit_vector);
    assert(k == 4 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 8) % 2 == 1)) by(bit_vector);
    assert(k == 5 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 4) % 2 == 1)) by(bit_vector);
    assert(k == 6 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 2) % 2 == 1)) by(bit_vector);
    assert(k == 7 ==> ((b & (0x80u8 >> k)) != 0 <==> (b / 1) % 2 == 1)) by(bit_vector);
}

// ---- what decoding leaves over is shorter ------------------------------------------------

pub broadcast proof fn be_nonneg(s: Octets, k: int)
    ensures #[trigger] be(s, k) >= 0,
    decreases k,
{
    if k > 0 { be_nonneg(s, k - 1); }
}

pub broadcast proof fn len_short(s: Octets)
    ensures #[trigger] dec_len(s) is Some ==> (dec_len(s)->0).0 >= 0 && (dec_len(s)->0).1.len() < s.len(),
{
    reveal(dec_len);
}

pub broadcast proof fn hdr_short(s: Octets)
    ensures #[trigger] dec_hdr(s) is Some ==> (dec_hdr(s)->0).1.len() + (dec_hdr(s)->0).2.len() < s.len(),
{
    reveal(dec_hdr);
    if s.len() > 0 { len_short(s.subrange(1, s.len() as int)); }
}

pub broadcast proof fn tlv_short(s: Octets)
    ensures
        #[trigger] dec_tlv(s) is Some ==> (dec_tlv(s)->0).1.len() < s.len(),
        dec_tlv(s) is Some && children((dec_tlv(s)->0).0) is Some ==>
            children((dec_tlv(s)->0).0)->0.len() + (dec_tlv(s)->0).1.len() < s.len(),
{
    reveal(dec_tlv);
    hdr_short(s);
}

pub broadcast proof fn sub_short(s: Octets, acc: int, count: int)
    ensures #[trigger] sub_go(s, acc, count) is Some ==> (sub_go(s, acc, count)->0).1.len() < s.len(),
    decreases 4 - count,
{
    if count < 4 && s.len() > 0 && !(count == 0 && oct(s, 0) == 0x80) && oct(s, 0) >= 128 {
        sub_short(s.subrange(1, s.len() as int), acc * 128 + (oct(s, 0) as int) % 128, count + 1);
    }
}

pub broadcast proof fn sub_range(s: Octets)
    ensures #[trigger] dec_sub(s) is Some ==> 0 <= (dec_sub(s)->0).0 < 0x1000_0000 && (dec_sub(s)->0).1.len() < s.len(),
{
    reveal(dec_sub);
    reveal_with_fuel(sub_go, 6);
}

// ---- the calendar ---------------------------------------------------------------------------

pub proof fn days_closed(y: int)
    requires y >= 1970,
    ensures days_before_year(y) == (y - 1) * 365 + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 719162,
    decreases y,
{
    if y > 1970 {
        days_closed(y - 1);
    }
}

// ---- the walk with an explicit stack ----------------------------------------------------------

pub open spec fn total(s: Seq<Octets>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { s.last().len() + total(s.drop_last()) }
}

// what remains to be notified, in the current element and then in those on the stack
pub open spec fn finish(cur: Octets, stack: Seq<Octets>) -> (Seq<Ev>, bool)
    decreases stack.len(),
{
    let w = walk(cur);
    if !w.1 {
        w
    } else if stack.len() == 0 {
        w
    } else {
        let f = finish(stack.last(), stack.drop_last());
        (w.0.push(Ev::End).add(f.0), f.1)
    }
}

pub proof fn finish_step(cur: Octets, stack: Seq<Octets>, t: Seq<Ev>)
    ensures
        total(stack) >= 0,
        cur.len() == 0 && stack.len() == 0 ==> finish(cur, stack).1 && t.add(finish(cur, stack).0) == t,
        cur.len() == 0 && stack.len() > 0 ==> ({
            let f = finish(stack.last(), stack.drop_last());
            t.add(finish(cur, stack).0) == t.push(Ev::End).add(f.0) && finish(cur, stack).1 == f.1
                && total(stack) == stack.last().len() + total(stack.drop_last())
        }),
        cur.len() > 0 && dec_tlv(cur) is None ==>
            t.add(finish(cur, stack).0) == t.push(Ev::Error) && !finish(cur, stack).1,
        cur.len() > 0 && dec_tlv(cur) is Some ==> ({
            let (e, r) = dec_tlv(cur)->0;
            match children(e) {
                None => {
                    let f = finish(r, stack);
                    t.add(finish(cur, stack).0) == t.push(Ev::Item(e)).add(f.0) && finish(cur, stack).1 == f.1
                },
                Some(c) => {
                    let f = finish(c, stack.push(r));
                    t.add(finish(cur, stack).0) == t.push(Ev::Item(e)).push(Ev::Begin).add(f.0) && finish(cur, stack).1 == f.1
                        && total(stack.push(r)) == r.len() + total(stack)
                },
            }
        }),
    decreases stack.len(),
{
    total_nonneg(stack);
    if cur.len() == 0 && stack.len() == 0 {
        assert(t.add(finish(cur, stack).0) =~= t);
    } else if cur.len() == 0 {
        let f = finish(stack.last(), stack.drop_last());
        assert(walk(cur).0 =~= Seq::<Ev>::empty());
        assert(t.add(finish(cur, stack).0) =~= t.push(Ev::End).add(f.0));
    } else if dec_tlv(cur) is None {
        assert(t.add(finish(cur, stack).0) =~= t.push(Ev::Error));
    } else {
        let (e, r) = dec_tlv(cur)->0;
        tlv_short(cur);
        match children(e) {
            None => {
                let f = finish(r, stack);
                assert(t.add(finish(cur, stack).0) =~= t.push(Ev::Item(e)).add(f.0));
            },
            Some(c) => {
                assert(stack.push(r).drop_last() =~= stack);
                let f = finish(c, stack.push(r));
                if walk(c).1 {
                    let g = finish(r, stack);
                    assert(f == (walk(c).0.push(Ev::End).add(g.0), g.1));
                }
                assert(t.add(finish(cur, stack).0) =~= t.push(Ev::Item(e)).push(Ev::Begin).add(f.0));
            },
        }
    }
}

pub proof fn total_nonneg(stack: Seq<Octets>)
    ensures total(stack) >= 0,
    decreases stack.len(),
{
    if stack.len() > 0 { total_nonneg(stack.drop_last()); }
}

// ---- comparison of arcs with arcs and with constants -------------------------------------

pub broadcast proof fn eq_arcs(a: &[u32], b: &[u32])
    ensures #[trigger] <[u32] as PartialEqSpec<[u32]>>::eq_spec(a, b) <==> a@ =~= b@,
{}
pub broadcast proof fn eq_arcs_array<const N: usize>(a: &[u32], b: [u32; N])
    ensures #[trigger] <&[u32] as PartialEqSpec<[u32; N]>>::eq_spec(&a, &b) <==> a@ =~= b@,
{}
pub broadcast proof fn eq_arcs_array_ref<const N: usize>(a: &[u32], b: &[u32; N])
    ensures #[trigger] <&[u32] as PartialEqSpec<&[u32; N]>>::eq_spec(&a, &b) <==> a@ =~= b@,
{}
pub broadcast proof fn eq_arcs_array_place<const N: usize>(a: &[u32], b: &[u32; N])
    ensures #[trigger] <[u32] as PartialEqSpec<[u32; N]>>::eq_spec(a, b) <==> a@ =~= b@,
{}

pub broadcast group group_all {
    sub_sub, sub_all, be_nonneg, len_short, hdr_short, tlv_short, sub_range,
    eq_arcs, eq_arcs_array, eq_arcs_array_ref, eq_arcs_array_place,
}

// ---- display -------------------------------------------------------------------------------

// the text in front of octet k: the octets before it, each followed by a colon
pub open spec fn hex_lead(b: Octets, k: int) -> Seq<char> {
    if k <= 0 { Seq::<char>::empty() } else { crate::spec::hex_text(b, k).push(':') }
}
pub open spec fn arc_lead(o: Seq<u32>, k: int) -> Seq<char> {
    if k <= 0 { Seq::<char>::empty() } else { crate::spec::arc_text(o, k).push('.') }
}
pub proof fn lem_lit1()
    ensures ":"@ == Seq::<char>::empty().push(':'), "."@ == Seq::<char>::empty().push('.'), ""@ == Seq::<char>::empty(),
{
    reveal_strlit(":"); reveal_strlit("."); reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    assert(":"@ =~= Seq::<char>::empty().push(':'));
    assert("."@ =~= Seq::<char>::empty().push('.'));
}
pub proof fn lem_lit2()
    ensures "[]"@ == Seq::<char>::empty().push('[').push(']'),
{
    reveal_strlit("[]");
    assert("[]"@ =~= Seq::<char>::empty().push('[').push(']'));
}
pub broadcast proof fn lem_hex_step(b: Octets, k: int)
    requires 0 <= k,
    ensures
        #[trigger] hex_lead(b, k).add(crate::spec::hex2(oct(b, k))) == crate::spec::hex_text(b, k + 1),
{
    assert(hex_lead(b, k).add(crate::spec::hex2(oct(b, k))) =~= crate::spec::hex_text(b, k + 1));
}
pub proof fn lem_hex_more(b: Octets, k: int)
    ensures k >= 0 ==> hex_lead(b, k).add(crate::spec::hex2(oct(b, k))) == crate::spec::hex_text(b, k + 1),
{ if k >= 0 { lem_hex_step(b, k); } }
pub proof fn lem_arc_more(o: Seq<u32>, k: int)
    ensures k >= 0 ==> arc_lead(o, k).add(crate::spec::dec_text10(o[k] as int)) == crate::spec::arc_text(o, k + 1),
{ if k >= 0 { lem_arc_step(o, k); } }
pub broadcast proof fn lem_arc_step(o: Seq<u32>, k: int)
    requires 0 <= k,
    ensures
        #[trigger] arc_lead(o, k).add(crate::spec::dec_text10(o[k] as int)) == crate::spec::arc_text(o, k + 1),
{
    assert(arc_lead(o, k).add(crate::spec::dec_text10(o[k] as int)) =~= crate::spec::arc_text(o, k + 1));
}
