## trait der::parse_all::ParseHandler
# items
    // the notifications received so far, by a handler that keeps them
    spec fn keeps(&self) -> bool;
    spec fn trace(&self) -> Seq<spec::Ev>;
    // how many constructed elements have begun and not ended
    spec fn depth(&self) -> int;

## der::parse_all::ParseHandler::begin_constructed
requires 0 <= old(self).depth() <= 0x2000_0000_0000_0000,
ensures
    final(self).depth() == old(self).depth() + 1,
    final(self).keeps() == old(self).keeps(),
    old(self).keeps() ==> final(self).trace() == old(self).trace().push(spec::Ev::Begin),

## der::parse_all::ParseHandler::end_constructed
requires 0 < old(self).depth() <= 0x2000_0000_0000_0001,
ensures
    final(self).depth() == old(self).depth() - 1,
    final(self).keeps() == old(self).keeps(),
    old(self).keeps() ==> final(self).trace() == old(self).trace().push(spec::Ev::End),

## der::parse_all::ParseHandler::on_type
requires
    $1.wf(),
    0 <= old(self).depth() <= 0x2000_0000_0000_0000,
ensures
    final(self).depth() == old(self).depth(),
    final(self).keeps() == old(self).keeps(),
    old(self).keeps() ==> final(self).trace() == old(self).trace().push(spec::Ev::Item($1.elem())),

## der::parse_all::ParseHandler::on_error
requires 0 <= old(self).depth() <= 0x2000_0000_0000_0000,
ensures
    final(self).depth() == old(self).depth(),
    final(self).keeps() == old(self).keeps(),
    old(self).keeps() ==> final(self).trace() == old(self).trace().push(spec::Ev::Error),

## mod der::parse_all
# items
pub open spec fn v_stack(v: Seq<crate::der::parser::Parser>) -> Seq<spec::Octets> {
    v.map_values(|p: crate::der::parser::Parser| p@)
}
pub broadcast proof fn v_stack_push(v: Seq<crate::der::parser::Parser>, p: crate::der::parser::Parser)
    ensures #[trigger] v_stack(v.push(p)) == v_stack(v).push(p@), v.push(p).drop_last() == v,
{
    assert(v.push(p).drop_last() =~= v);
    assert(v_stack(v.push(p)) =~= v_stack(v).push(p@));
}
pub broadcast proof fn v_stack_last(v: Seq<crate::der::parser::Parser>)
    requires v.len() > 0,
    ensures #[trigger] v_stack(v.drop_last()) == v_stack(v).drop_last(), v_stack(v).last() == v.last()@,
{ assert(v_stack(v.drop_last()) =~= v_stack(v).drop_last()); }
pub broadcast proof fn v_stack_pop(v: Seq<crate::der::parser::Parser>, k: int)
    requires v.len() > 0, k == v.len() - 1,
    ensures #[trigger] v_stack(v.subrange(0, k)) == v_stack(v).drop_last(), v_stack(v).last() == v[k]@,
{ assert(v_stack(v.subrange(0, k)) =~= v_stack(v).drop_last()); }
pub broadcast proof fn v_stack_top(v: Seq<crate::der::parser::Parser>, k: int, p: crate::der::parser::Parser)
    requires v.len() > 0, k == v.len() - 1,
    ensures
        (#[trigger] v.update(k, p)).drop_last() == v.drop_last(),
        v.update(k, p).last() == p,
        v_stack(v.update(k, p)) == v_stack(v.drop_last()).push(p@),
{
    assert(v.update(k, p).drop_last() =~= v.drop_last());
    assert(v_stack(v.update(k, p)) =~= v_stack(v.drop_last()).push(p@));
}

## der::parse_all::parse_all
# props C01 C04
requires 0 <= old($2).depth() <= 0x1000_0000_0000_0000,
ensures
    ret is Ok <==> spec::walk($1@).1,
    old($2).keeps() ==> final($2).trace() == old($2).trace().add(spec::walk($1@).0),
    ret is Ok ==> final($2).depth() == old($2).depth(),
# pre
proof {
    crate::vpre::axiom_slice_len($1);
    reveal_with_fuel(crate::lemmas::finish, 2);
    reveal_with_fuel(crate::lemmas::total, 2);
}
broadcast use v_stack_push, v_stack_pop, v_stack_top, v_stack_last;
let ghost v_start = $2.trace();
let ghost v_depth = $2.depth();
let ghost v_keeps = $2.keeps();
# loop 0
invariant
    $2.keeps() == v_keeps,
    v_keeps ==> $2.trace().add(crate::lemmas::finish($mut_Parser@, v_stack($Vec@)).0) == v_start.add(spec::walk($1@).0),
    crate::lemmas::finish($mut_Parser@, v_stack($Vec@)).1 == spec::walk($1@).1,
    $2.depth() == v_depth + $Vec@.len(),
    $mut_Parser@.len() + crate::lemmas::total(v_stack($Vec@)) + $Vec@.len() <= $1@.len(),
decreases 2 * ($mut_Parser@.len() + crate::lemmas::total(v_stack($Vec@))) + $Vec@.len(),
# loop 0 body
proof { crate::lemmas::finish_step($mut_Parser@, v_stack($Vec@), $2.trace()); }
# alt 0
// one stack, the current element on top of it
invariant
    $2.keeps() == v_keeps,
    $Vec@.len() == 0 ==> spec::walk($1@).1 && $2.depth() == v_depth && (v_keeps ==> $2.trace() == v_start.add(spec::walk($1@).0)),
    $Vec@.len() > 0 && v_keeps ==> $2.trace().add(crate::lemmas::finish($Vec@.last()@, v_stack($Vec@.drop_last())).0) == v_start.add(spec::walk($1@).0),
    $Vec@.len() > 0 ==> crate::lemmas::finish($Vec@.last()@, v_stack($Vec@.drop_last())).1 == spec::walk($1@).1,
    $Vec@.len() > 0 ==> $2.depth() == v_depth + $Vec@.len() - 1,
    crate::lemmas::total(v_stack($Vec@)) + $Vec@.len() <= $1@.len() + 1,
decreases 2 * crate::lemmas::total(v_stack($Vec@)) + $Vec@.len(),
# alt 0 body
let ghost v_in = $Vec@;
proof {
    if $Vec@.len() > 0 {
        let up = v_stack($Vec@.drop_last());
        crate::lemmas::finish_step($Vec@.last()@, up, $2.trace());
        assert(v_stack($Vec@) =~= up.push($Vec@.last()@));
        assert forall|x: spec::Octets| #[trigger] crate::lemmas::total(up.push(x)) == x.len() + crate::lemmas::total(up) by { assert(up.push(x).drop_last() =~= up); }
    }
}
