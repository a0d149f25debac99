// C21, what the specification says about positions: every octet string and text in what is
// decoded from d is a contiguous part of d.  Together with the contracts (each decoder returns
// what the specification says, octet for octet) this makes it a part of the input.
use vstd::prelude::*;
use crate::spec::*;

#[verifier::opaque]
pub open spec fn part(x: Octets, d: Octets) -> bool {
    exists|a: int| at(x, d, a)
}

pub open spec fn at(x: Octets, d: Octets, a: int) -> bool {
    0 <= a && a + x.len() <= d.len() && x == #[trigger] d.subrange(a, a + x.len())
}

pub open spec fn opart(x: Option<Octets>, d: Octets) -> bool {
    x is Some ==> part(x->0, d)
}

proof fn v_sub(d: Octets, a: int, b: int)
    requires 0 <= a <= b <= d.len(),
    ensures part(d.subrange(a, b), d),
{
    reveal(part);
    let x = d.subrange(a, b);
    assert(x.len() == b - a);
    assert(at(x, d, a));
}

proof fn v_self(d: Octets)
    ensures part(d, d),
{
    assert(d =~= d.subrange(0, d.len() as int));
    v_sub(d, 0, d.len() as int);
}

proof fn v_trans(x: Octets, y: Octets, d: Octets)
    requires part(x, y), part(y, d),
    ensures part(x, d),
{
    reveal(part);
    let a = choose|a: int| at(x, y, a);
    let b = choose|b: int| at(y, d, b);
    assert(x =~= d.subrange(a + b, a + b + x.len()));
    assert(at(x, d, a + b));
}

proof fn v_trans_any(y: Octets, d: Octets)
    requires part(y, d),
    ensures forall|x: Octets| #[trigger] part(x, y) ==> part(x, d),
{
    assert forall|x: Octets| #[trigger] part(x, y) implies part(x, d) by { v_trans(x, y, d) }
}

proof fn v_len_in(s: Octets)
    ensures dec_len(s) is Some ==> part((dec_len(s)->0).1, s),
{
    reveal(dec_len);
    if s.len() > 0 {
        v_sub(s, 1, s.len() as int);
        let n = (oct(s, 0) as int) - 128;
        if 1 <= n && 1 + n <= s.len() { v_sub(s, 1 + n, s.len() as int); }
    }
}

proof fn v_hdr_in(s: Octets)
    ensures dec_hdr(s) is Some ==> part((dec_hdr(s)->0).1, s) && part((dec_hdr(s)->0).2, s),
{
    reveal(dec_hdr);
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        v_sub(s, 1, s.len() as int);
        v_len_in(t);
        if let Some((n, r)) = dec_len(t) {
            lemma_len_nonneg(t);
            v_trans(r, t, s);
            v_trans_any(r, s);
            if n <= r.len() {
                v_sub(r, 0, n);
                v_sub(r, n, r.len() as int);
            }
        }
    }
}

proof fn lemma_be_nonneg(s: Octets, k: int)
    ensures be(s, k) >= 0,
    decreases k,
{
    if k > 0 { lemma_be_nonneg(s, k - 1); }
}

proof fn lemma_len_nonneg(s: Octets)
    ensures dec_len(s) is Some ==> (dec_len(s)->0).0 >= 0,
{
    reveal(dec_len);
    if s.len() > 0 {
        lemma_be_nonneg(s.subrange(1, s.len() as int), (oct(s, 0) as int) - 128);
    }
}

proof fn v_bits_in(c: Octets)
    ensures dec_bits(c) is Some ==> part((dec_bits(c)->0).1, c),
{
    reveal(dec_bits);
    if c.len() > 0 { v_sub(c, 1, c.len() as int); }
}

// ---- elements ------------------------------------------------------------------------------

pub open spec fn elem_in(e: Elem, d: Octets) -> bool {
    match e {
        Elem::Int(c) => part(c, d),
        Elem::Bits(_, c) => part(c, d),
        Elem::Octets(c) => part(c, d),
        Elem::Utf8(c) => part(c, d),
        Elem::Printable(c) => part(c, d),
        Elem::Ia5(c) => part(c, d),
        Elem::Sequence(c) => part(c, d),
        Elem::SetOf(c) => part(c, d),
        Elem::Tag(_, c) => part(c, d),
        Elem::Bool(_) => true,
        Elem::Null => true,
        Elem::Oid(_) => true,
        Elem::Time(_) => true,
    }
}

proof fn v_tlv_in(s: Octets)
    ensures dec_tlv(s) is Some ==> elem_in((dec_tlv(s)->0).0, s) && part((dec_tlv(s)->0).1, s),
{
    reveal(dec_tlv);
    reveal(dec_text);
    v_hdr_in(s);
    if let Some((id, c, r)) = dec_hdr(s) {
        v_bits_in(c);
        v_trans_any(c, s);
    }
}

// every element the walk reports
proof fn v_walk_in(s: Octets)
    ensures forall|i: int| #![trigger walk(s).0[i]] 0 <= i < walk(s).0.len() && walk(s).0[i] is Item ==> elem_in(walk(s).0[i]->Item_0, s),
    decreases s.len(),
{
    v_tlv_in(s);
    if s.len() > 0 {
        if let Some((e, r)) = dec_tlv(s) {
            if r.len() < s.len() {
                v_walk_in(r);
                v_trans_any(r, s);
                if let Some(c) = children(e) {
                    if c.len() < s.len() {
                        v_walk_in(c);
                        v_trans_any(c, s);
                        let here = Seq::<Ev>::empty().push(Ev::Item(e));
                        let i = walk(c);
                        let w = walk(r);
                        let all = walk(s).0;
                        let head = here.push(Ev::Begin).add(i.0);
                        assert forall|k: int| #![trigger all[k]] 0 <= k < all.len() && all[k] is Item implies elem_in(all[k]->Item_0, s) by {
                            if k >= 2 && k < 2 + i.0.len() {
                                assert(all[k] == i.0[k - 2]);
                                assert(elem_in(i.0[k - 2]->Item_0, c));
                            } else if k >= 3 + i.0.len() {
                                assert(all[k] == w.0[k - 3 - i.0.len()]);
                                assert(elem_in(w.0[k - 3 - i.0.len()]->Item_0, r));
                            }
                        }
                    }
                } else {
                    let w = walk(r);
                    let all = walk(s).0;
                    assert forall|k: int| #![trigger all[k]] 0 <= k < all.len() && all[k] is Item implies elem_in(all[k]->Item_0, s) by {
                        if k >= 1 {
                            assert(all[k] == w.0[k - 1]);
                            assert(elem_in(w.0[k - 1]->Item_0, r));
                        }
                    }
                }
            }
        }
    }
}

proof fn v_opt_tag_in(s: Octets, n: u8)
    ensures opt_tag(s, n) is Some ==> opart((opt_tag(s, n)->0).0, s) && part((opt_tag(s, n)->0).1, s),
{
    v_self(s);
    v_tlv_in(s);
    if let Some((t, c, r)) = exp_tag(s) {
        assert(part(c, s) && part(r, s));
    }
}

// ---- certificates -----------------------------------------------------------------------------

pub open spec fn alg_in(a: SAlg, d: Octets) -> bool {
    a.params is Some ==> elem_in(a.params->0, d)
}

pub open spec fn uid_in(u: Option<(u8, Octets)>, d: Octets) -> bool {
    u is Some ==> part((u->0).1, d)
}

pub open spec fn tbs_in(t: STbs, d: Octets) -> bool {
    &&& part(t.serial, d)
    &&& alg_in(t.signature, d)
    &&& part(t.issuer, d)
    &&& part(t.subject, d)
    &&& alg_in(t.key_alg, d)
    &&& part(t.key, d)
    &&& uid_in(t.issuer_uid, d)
    &&& uid_in(t.subject_uid, d)
    &&& opart(t.extensions, d)
}

pub open spec fn cert_in(c: SCert, d: Octets) -> bool {
    part(c.raw, d) && tbs_in(c.tbs, d) && alg_in(c.alg, d) && part(c.sig, d)
}

proof fn v_alg_in(s: Octets)
    ensures dec_alg(s) is Some ==> alg_in(dec_alg(s)->0, s),
{
    reveal(dec_alg);
    v_tlv_in(s);
    if let Some((o, r)) = exp_oid(s) {
        v_tlv_in(r);
        v_trans_any(r, s);
    }
}

proof fn v_exp_alg_in(s: Octets)
    ensures exp_alg(s) is Some ==> alg_in((exp_alg(s)->0).0, s) && part((exp_alg(s)->0).1, s),
{
    v_tlv_in(s);
    if let Some((c, r)) = exp_seq(s) {
        v_alg_in(c);
        v_trans_any(c, s);
    }
}

proof fn v_version_in(s: Octets)
    ensures dec_version(s) is Some ==> part((dec_version(s)->0).1, s),
{
    reveal(dec_version);
    v_opt_tag_in(s, 0);
}

proof fn v_key_in(s: Octets)
    ensures dec_key(s) is Some ==> alg_in((dec_key(s)->0).0, s) && part((dec_key(s)->0).2, s),
{
    reveal(dec_key);
    v_exp_alg_in(s);
    if let Some((a, r)) = exp_alg(s) {
        v_tlv_in(r);
        v_trans_any(r, s);
    }
}

proof fn v_uid_in(s: Octets, n: u8)
    ensures dec_uid(s, n) is Some ==> uid_in((dec_uid(s, n)->0).0, s) && part((dec_uid(s, n)->0).1, s),
{
    reveal(dec_uid);
    v_opt_tag_in(s, n);
    if let Some((Some(c), r)) = opt_tag(s, n) {
        v_bits_in(c);
        v_trans_any(c, s);
    }
}

proof fn v_tbs_end_in(s: Octets, d: Octets, t: STbs)
    requires part(s, d), tbs_in(t, d),
    ensures dec_tbs_end(s, t) is Some ==> tbs_in(dec_tbs_end(s, t)->0, d),
{
    v_uid_in(s, 1);
    v_trans_any(s, d);
    if let Some((iu, r1)) = dec_uid(s, 1) {
        v_uid_in(r1, 2);
        v_trans_any(r1, d);
        if let Some((su, r2)) = dec_uid(r1, 2) {
            v_opt_tag_in(r2, 3);
            v_trans_any(r2, d);
        }
    }
}

proof fn v_tbs_in(s: Octets)
    ensures dec_tbs(s) is Some ==> tbs_in(dec_tbs(s)->0, s),
{
    reveal(dec_tbs);
    v_version_in(s);
    if let Some((version, r1)) = dec_version(s) {
        v_tlv_in(r1); v_trans_any(r1, s);
        if let Some((serial, r2)) = exp_int(r1) {
            v_exp_alg_in(r2); v_trans_any(r2, s);
            if let Some((signature, r3)) = exp_alg(r2) {
                v_tlv_in(r3); v_trans_any(r3, s);
                if let Some((issuer, r4)) = exp_seq(r3) {
                    v_tlv_in(r4); v_trans_any(r4, s);
                    if let Some((vc, r5)) = exp_seq(r4) {
                        v_tlv_in(r5); v_trans_any(r5, s);
                        if let Some((not_before, not_after)) = dec_validity(vc) {
                            if let Some((subject, r6)) = exp_seq(r5) {
                                v_tlv_in(r6); v_trans_any(r6, s);
                                if let Some((kc, r7)) = exp_seq(r6) {
                                    v_key_in(kc); v_trans_any(kc, s);
                                    if let Some((key_alg, key_unused, key)) = dec_key(kc) {
                                        v_tbs_end_in(r7, s, STbs {
                                            version: version, serial: serial, signature: signature, issuer: issuer,
                                            not_before: not_before, not_after: not_after, subject: subject,
                                            key_alg: key_alg, key_unused: key_unused, key: key,
                                            issuer_uid: None, subject_uid: None, extensions: None,
                                        });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

proof fn v_cert_in(s: Octets)
    ensures dec_cert(s) is Some ==> cert_in(dec_cert(s)->0, s),
{
    reveal(dec_cert);
    v_tlv_in(s);
    if let Some(c) = only_seq(s) {
        v_tlv_in(c); v_trans_any(c, s);
        if let Some((raw, r1)) = exp_seq(c) {
            v_tbs_in(raw); v_trans_any(raw, s);
            v_exp_alg_in(r1); v_trans_any(r1, s);
            if let Some((alg, r2)) = exp_alg(r1) {
                v_tlv_in(r2); v_trans_any(r2, s);
            }
        }
    }
}

// ---- names ----------------------------------------------------------------------------------

pub open spec fn name_in(n: SName, d: Octets) -> bool {
    opart(n.country, d) && opart(n.state, d) && opart(n.locality, d) && opart(n.org, d) && opart(n.unit, d) && opart(n.common, d)
}

proof fn v_attr_in(s: Octets, d: Octets, n: SName)
    requires part(s, d), name_in(n, d),
    ensures dec_attr(s, n) is Some ==> name_in(dec_attr(s, n)->0, d),
{
    reveal(dec_attr);
    v_tlv_in(s);
    v_trans_any(s, d);
    if let Some((o, r)) = exp_oid(s) {
        v_tlv_in(r);
        v_trans_any(r, d);
    }
}

proof fn v_rdn_in(s: Octets, d: Octets, n: SName)
    requires part(s, d), name_in(n, d),
    ensures rdn_tail(s, n) is Some ==> name_in(rdn_tail(s, n)->0, d),
    decreases s.len(),
{
    v_tlv_in(s);
    v_trans_any(s, d);
    if s.len() > 0 {
        if let Some((c, r)) = exp_seq(s) {
            v_attr_in(c, d, n);
            if let Some(n2) = dec_attr(c, n) {
                if r.len() < s.len() { v_rdn_in(r, d, n2); }
            }
        }
    }
}

proof fn v_names_in(s: Octets, d: Octets, n: SName)
    requires part(s, d), name_in(n, d),
    ensures name_tail(s, n) is Some ==> name_in(name_tail(s, n)->0, d),
    decreases s.len(),
{
    v_tlv_in(s);
    v_trans_any(s, d);
    if s.len() > 0 {
        if let Some((c, r)) = exp_set(s) {
            v_rdn_in(c, d, n);
            if let Some(n2) = rdn_tail(c, n) {
                if r.len() < s.len() { v_names_in(r, d, n2); }
            }
        }
    }
}

proof fn v_name_in(s: Octets)
    ensures dec_name(s) is Some ==> name_in(dec_name(s)->0, s),
{
    reveal(dec_name);
    v_self(s);
    v_names_in(s, s, no_name());
}

// ---- extensions -------------------------------------------------------------------------------

pub open spec fn gen_in(g: SGen, d: Octets) -> bool {
    match g {
        SGen::Email(t) => part(t, d),
        SGen::Dns(t) => part(t, d),
        SGen::Uri(t) => part(t, d),
        SGen::Ip(c) => part(c, d),
        SGen::Rid(_) => true,
        SGen::Other => true,
    }
}

pub open spec fn gens_in(v: Seq<SGen>, d: Octets) -> bool {
    forall|i: int| 0 <= i < v.len() ==> gen_in(#[trigger] v[i], d)
}

pub open spec fn content_in(c: SContent, d: Octets) -> bool {
    match c {
        SContent::KeyId(x) => part(x, d),
        SContent::AltNames(v) => gens_in(v, d),
        SContent::Modbus(t) => part(t, d),
        SContent::Unknown(x) => part(x, d),
        SContent::Usage(_) => true,
        SContent::Basic(_, _) => true,
        SContent::Purposes(_) => true,
    }
}

pub open spec fn exts_in(v: Seq<SExt>, d: Octets) -> bool {
    forall|i: int| 0 <= i < v.len() ==> content_in((#[trigger] v[i]).content, d)
}

proof fn v_gens_in(s: Octets, d: Octets, acc: Seq<SGen>)
    requires part(s, d), gens_in(acc, d),
    ensures gens_tail(s, acc) is Some ==> gens_in(gens_tail(s, acc)->0, d),
    decreases s.len(),
{
    v_tlv_in(s);
    v_trans_any(s, d);
    reveal(dec_text);
    reveal(dec_gen_name);
    if s.len() > 0 {
        if let Some((n, c, r)) = exp_tag(s) {
            if let Some(g) = dec_gen_name(n, c) {
                assert(gen_in(g, d));
                assert(gens_in(acc.push(g), d));
                if r.len() < s.len() { v_gens_in(r, d, acc.push(g)); }
            }
        }
    }
}

proof fn v_content_in(o: Seq<u32>, c: Octets)
    ensures dec_ext_content(o, c) is Some ==> content_in(dec_ext_content(o, c)->0, c),
{
    reveal(dec_ext_content);
    reveal(dec_ski);
    reveal(dec_san);
    reveal(dec_modbus);
    v_self(c);
    v_tlv_in(c);
    if let Some(k) = only_seq(c) {
        v_gens_in(k, c, Seq::empty());
    }
}

proof fn v_ext_in(s: Octets)
    ensures dec_ext(s) is Some ==> content_in(dec_ext(s)->0.content, s),
{
    reveal(dec_ext);
    v_tlv_in(s);
    if let Some((o, r1)) = exp_oid(s) {
        v_self(r1);
        v_tlv_in(r1);
        v_trans_any(r1, s);
        if let Some((b, r2)) = opt_bool(r1) {
            v_tlv_in(r2);
            v_trans_any(r2, s);
            if let Some((c, r3)) = exp_octets(r2) {
                v_content_in(o, c);
                v_trans_any(c, s);
            }
        }
    }
}

proof fn v_exts_tail_in(s: Octets, d: Octets, acc: Seq<SExt>)
    requires part(s, d), exts_in(acc, d),
    ensures exts_tail(s, acc) is Some ==> exts_in(exts_tail(s, acc)->0, d),
    decreases s.len(),
{
    v_tlv_in(s);
    v_trans_any(s, d);
    if s.len() > 0 {
        if let Some((c, r)) = exp_seq(s) {
            v_ext_in(c);
            v_trans_any(c, d);
            if let Some(e) = dec_ext(c) {
                assert(content_in(e.content, d));
                if r.len() < s.len() { v_exts_tail_in(r, d, acc.push(e)); }
            }
        }
    }
}

proof fn v_exts_in(s: Octets)
    ensures dec_exts(s) is Some ==> exts_in(dec_exts(s)->0, s),
{
    reveal(dec_exts);
    v_tlv_in(s);
    if let Some(c) = only_seq(s) {
        v_exts_tail_in(c, s, Seq::empty());
    }
}

// must be rejected on every run: it would be accepted if the assumptions were inconsistent
proof fn v_canary(s: &[Octet])
    ensures false,
{
    crate::vpre::axiom_slice_len(s);
}
