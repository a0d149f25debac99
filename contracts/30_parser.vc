## mod der::parser
# items
use crate::der::types::{v_kind_id, v_id_kind, v_elem_id};

## der::parser::read_type
# props C01 C03
requires $1.wf(),
ensures
    ret is Some <==> spec::kind_of($1.octet() as u8) is Some,
    ret is Some ==> spec::kind_of($1.octet() as u8)->0 == v_id_kind((ret->0).0, (ret->0).1),
# pre
proof { reveal(spec::kind_of); }

## der::parser::parse_length
# props C01 C02 C19
ensures
    ret is Ok <==> spec::dec_len(old($1)@) is Some,
    ret is Ok ==> ret->Ok_0 == (spec::dec_len(old($1)@)->0).0 && final($1)@ == (spec::dec_len(old($1)@)->0).1,
# unroll 4
# pre
proof { reveal(spec::dec_len); }
proof { reveal_with_fuel(spec::be, 6); }

## der::parser::parse_one_type
# props C01 C02 C03
ensures
    ret is Ok <==> spec::dec_tlv(old($1)@) is Some,
    ret is Ok ==> ret->Ok_0.elem() == (spec::dec_tlv(old($1)@)->0).0 && final($1)@ == (spec::dec_tlv(old($1)@)->0).1,
    ret is Ok ==> ret->Ok_0.wf(),
# pre
proof { reveal(spec::dec_tlv); reveal(spec::dec_hdr); }

## der::parser::parse_content
# props C01 C03 C05 C19
ensures
    ret is Ok <==> spec::dec_content(v_id_kind(*$1, $2), $3@) is Some,
    ret is Ok ==> ret->Ok_0.elem() == spec::dec_content(v_id_kind(*$1, $2), $3@)->0,
    ret is Ok ==> ret->Ok_0.wf(),
# pre
proof { reveal(spec::dec_text); }

## der::parser::parse_boolean
# props C01 C05 C19
ensures
    ret is Ok <==> spec::dec_content(spec::Kind::Bool, $1@) is Some,
    ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.elem() == spec::dec_content(spec::Kind::Bool, $1@)->0,
# pre
proof { reveal(spec::dec_bool); }

## der::parser::parse_integer
# props C01 C05 C19
ensures
    ret is Ok <==> spec::dec_content(spec::Kind::Int, $1@) is Some,
    ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.elem() == spec::dec_content(spec::Kind::Int, $1@)->0,

## der::parser::parse_null
# props C01 C05 C19
ensures
    ret is Ok <==> spec::dec_content(spec::Kind::Null, $1@) is Some,
    ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.elem() == spec::dec_content(spec::Kind::Null, $1@)->0,

## der::parser::parse_bit_string
# props C01 C09 C19
ensures
    ret is Ok <==> spec::dec_content(spec::Kind::Bits, $1@) is Some,
    ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.elem() == spec::dec_content(spec::Kind::Bits, $1@)->0,
# pre
proof { reveal(spec::dec_bits); }
proof { crate::vpre::axiom_slice_len($1); }

## der::parser::parse_object_identifier
# props C01 C08 C19
ensures
    ret is Ok <==> spec::dec_content(spec::Kind::Oid, $1@) is Some,
    ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.elem() == spec::dec_content(spec::Kind::Oid, $1@)->0,
# loop 0
invariant spec::oid_arcs($1@) == spec::arcs_tail($Reader@, $Vec@),
ensures $Reader@.len() == 0,
decreases $Reader@.len(),
# loop 0 before
proof { if $Vec@.len() == 2 { assert($Vec@ =~= Seq::<u32>::empty().push($Vec@[0]).push($Vec@[1])); } }
# pre
proof { reveal(spec::oid_arcs); }

## der::parser::parse_object_identifier__parse_one
# props C01 C08 C19
ensures
    ret is Ok <==> spec::dec_sub(old($1)@) is Some,
    ret is Ok ==> ret->Ok_0 == (spec::dec_sub(old($1)@)->0).0 && final($1)@ == (spec::dec_sub(old($1)@)->0).1,
# unroll 5
# pre
proof { reveal(spec::dec_sub); }
proof { reveal_with_fuel(spec::sub_go, 6); }

## der::parser::parse_utc_time
# props C01 C07 C19
ensures
    ret is Ok <==> spec::dec_content(spec::Kind::Utc, $1@) is Some,
    ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.elem() == spec::dec_content(spec::Kind::Utc, $1@)->0,
# pre
proof { reveal(spec::dec_utc); }

## der::parser::parse_generalized_time
# props C01 C07 C19
ensures
    ret is Ok <==> spec::dec_content(spec::Kind::Gen, $1@) is Some,
    ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.elem() == spec::dec_content(spec::Kind::Gen, $1@)->0,
# pre
proof { reveal(spec::dec_gen); }

## der::parser::read_two_digits
# props C01 C07 C19
ensures
    ret is Ok <==> old($1)@.len() >= 2 && spec::two(old($1)@, 0) >= 0 && $2 <= spec::two(old($1)@, 0) <= $3,
    ret is Ok ==> ret->Ok_0 == spec::two(old($1)@, 0) && final($1)@ == old($1)@.subrange(2, old($1)@.len() as int),
# unroll 2

## type der::parser::Parser
# items
impl<'a> Parser<'a> {
    pub open spec fn view(&self) -> spec::Octets { self.reader@ }
}

## der::parser::Parser::new
# props C01 C02
ensures ret@ == $1@,

## der::parser::Parser::unwrap_outer_sequence
# props C01 C13 C15 C16 C17
ensures
    ret is Ok <==> spec::only_seq($1@) is Some,
    ret is Ok ==> ret->Ok_0@ == spec::only_seq($1@)->0,

## der::parser::Parser::next
# props C01 C02 C04
ensures
    ret is None <==> old(self)@.len() == 0,
    ret is None ==> final(self)@.len() == 0,
    ret is Some && ret->0 is Ok ==> spec::dec_tlv(old(self)@) is Some
        && (ret->0)->Ok_0.elem() == (spec::dec_tlv(old(self)@)->0).0
        && final(self)@ == (spec::dec_tlv(old(self)@)->0).1
        && (ret->0)->Ok_0.wf(),
    ret is Some && ret->0 is Err ==> spec::dec_tlv(old(self)@) is None && final(self)@.len() == 0,

## der::parser::Parser::expect
# props C01 C02 C10 C12 C13
ensures
    ret is Ok <==> spec::dec_tlv(old(self)@) is Some && v_elem_id((spec::dec_tlv(old(self)@)->0).0) == T::sid(),
    ret is Ok ==> T::vw(ret->Ok_0) == (spec::dec_tlv(old(self)@)->0).0 && T::ok(ret->Ok_0)
        && final(self)@ == (spec::dec_tlv(old(self)@)->0).1,

## der::parser::Parser::expect_or_end
# props C01 C12 C13 C16 C17
ensures
    ret is Ok <==> old(self)@.len() == 0 || spec::dec_tlv(old(self)@) is Some && v_elem_id((spec::dec_tlv(old(self)@)->0).0) == T::sid(),
    ret is Ok ==> (ret->Ok_0 is None <==> old(self)@.len() == 0),
    ret is Ok && ret->Ok_0 is None ==> final(self)@ == old(self)@,
    ret is Ok && ret->Ok_0 is Some ==> T::vw((ret->Ok_0)->0) == (spec::dec_tlv(old(self)@)->0).0 && T::ok((ret->Ok_0)->0)
        && final(self)@ == (spec::dec_tlv(old(self)@)->0).1,

## der::parser::Parser::expect_any
# props C01 C02 C10 C12 C13
ensures
    ret is Ok <==> spec::dec_tlv(old(self)@) is Some,
    ret is Ok ==> ret->Ok_0.elem() == (spec::dec_tlv(old(self)@)->0).0 && ret->Ok_0.wf()
        && final(self)@ == (spec::dec_tlv(old(self)@)->0).1,

## der::parser::Parser::expect_any_or_end
# props C01 C10
ensures
    ret is Ok <==> old(self)@.len() == 0 || spec::dec_tlv(old(self)@) is Some,
    ret is Ok ==> (ret->Ok_0 is None <==> old(self)@.len() == 0),
    ret is Ok && ret->Ok_0 is None ==> final(self)@ == old(self)@,
    ret is Ok && ret->Ok_0 is Some ==> (ret->Ok_0)->0.elem() == (spec::dec_tlv(old(self)@)->0).0 && (ret->Ok_0)->0.wf()
        && final(self)@ == (spec::dec_tlv(old(self)@)->0).1,

## der::parser::Parser::expect_end
# props C01 C10 C12 C13 C14 C15 C16 C17
ensures
    ret is Ok <==> old(self)@.len() == 0,

## der::parser::Parser::get_optional
# props C01 C13 C15
ensures
    ret is Ok <==> old(self)@.len() == 0 || spec::kind_of(spec::oct(old(self)@, 0)) is Some
        && (v_kind_id(spec::kind_of(spec::oct(old(self)@, 0))->0) == T::sid() ==>
            spec::dec_tlv(old(self)@) is Some && v_elem_id((spec::dec_tlv(old(self)@)->0).0) == T::sid()),
    ret is Ok ==> (ret->Ok_0 is Some <==> old(self)@.len() > 0 && v_kind_id(spec::kind_of(spec::oct(old(self)@, 0))->0) == T::sid()),
    ret is Ok && ret->Ok_0 is None ==> final(self)@ == old(self)@,
    ret is Ok && ret->Ok_0 is Some ==> T::vw((ret->Ok_0)->0) == (spec::dec_tlv(old(self)@)->0).0 && T::ok((ret->Ok_0)->0)
        && final(self)@ == (spec::dec_tlv(old(self)@)->0).1,

## der::parser::Parser::get_optional_or_default
# props C01 C13 C15
ensures
    ret is Ok <==> old(self)@.len() == 0 || spec::kind_of(spec::oct(old(self)@, 0)) is Some
        && (v_kind_id(spec::kind_of(spec::oct(old(self)@, 0))->0) == T::sid() ==>
            spec::dec_tlv(old(self)@) is Some && v_elem_id((spec::dec_tlv(old(self)@)->0).0) == T::sid()),
    ret is Ok && !(old(self)@.len() > 0 && v_kind_id(spec::kind_of(spec::oct(old(self)@, 0))->0) == T::sid()) ==>
        ret->Ok_0 == $1 && final(self)@ == old(self)@,
    ret is Ok && old(self)@.len() > 0 && v_kind_id(spec::kind_of(spec::oct(old(self)@, 0))->0) == T::sid() ==>
        T::vw(ret->Ok_0) == (spec::dec_tlv(old(self)@)->0).0 && T::ok(ret->Ok_0)
        && final(self)@ == (spec::dec_tlv(old(self)@)->0).1,

## der::parser::Parser::get_optional_explicit_tag
# props C01 C10
ensures
    ret is Ok <==> spec::opt_tag(old(self)@, $1) is Some,
    ret is Ok ==> (ret->Ok_0 is Some <==> (spec::opt_tag(old(self)@, $1)->0).0 is Some),
    ret is Ok && ret->Ok_0 is Some ==> (ret->Ok_0)->0.contents@ == (spec::opt_tag(old(self)@, $1)->0).0->0,
    ret is Ok ==> final(self)@ == (spec::opt_tag(old(self)@, $1)->0).1,

## der::parser::Parser::get_optional_explicit_tag_value
# props C01 C10
ensures
    ret is Ok <==> spec::opt_tag(old(self)@, $1) is Some && ((spec::opt_tag(old(self)@, $1)->0).0 is Some ==> ({
        let c = (spec::opt_tag(old(self)@, $1)->0).0->0;
        spec::dec_tlv(c) is Some && v_elem_id((spec::dec_tlv(c)->0).0) == T::sid() && (spec::dec_tlv(c)->0).1.len() == 0
    })),
    ret is Ok ==> (ret->Ok_0 is Some <==> (spec::opt_tag(old(self)@, $1)->0).0 is Some),
    ret is Ok && ret->Ok_0 is Some ==> T::ok((ret->Ok_0)->0)
        && T::vw((ret->Ok_0)->0) == (spec::dec_tlv((spec::opt_tag(old(self)@, $1)->0).0->0)->0).0,
    ret is Ok ==> final(self)@ == (spec::opt_tag(old(self)@, $1)->0).1,

## der::parser::Parser::parse_implicit
# props C01 C10 C17
ensures
    ret is Ok <==> spec::dec_content(v_id_kind(T::sid(), 0), old(self)@) is Some,
    ret is Ok ==> T::vw(ret->Ok_0) == spec::dec_content(v_id_kind(T::sid(), 0), old(self)@)->0 && T::ok(ret->Ok_0)
        && final(self)@.len() == 0,
