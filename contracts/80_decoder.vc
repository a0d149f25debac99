## decoder::main
# props C22
# param
__io: &mut crate::world::Io
# spec
requires
    old(__io).errs() == 0,
    old(__io).shown() == Seq::<crate::world::Shown>::empty(),
ensures
    // the runtime reports an error that `main` returns
    crate::world::v_faithful(crate::world::VEnd::ok(&ret), final(__io).errs() + crate::world::VEnd::reports(&ret), final(__io).shown()),
# pre
proof {
    reveal_strlit("--der"); reveal_strlit("--certs");
    assert(crate::world::v_genuine("--der"@)); assert(crate::world::v_genuine("--certs"@));
    assert("--der"@.len() == 5); assert("--certs"@.len() == 7);
}
