## impl der::types::ASNInteger<VDisplay>
# items
    open spec fn exact(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { spec::int_text(self.bytes@) }

## der::types::ASNInteger<VDisplay>::fmt
# props C20
# pre
proof {
    
    crate::lemmas::lem_lit1(); crate::lemmas::lem_lit2();
}
broadcast use crate::lemmas::lem_hex_step;
# loop 0
invariant
    vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&$it), vstd::std_specs::iter::IteratorSpec::decrease(&$it) is Some,
    v_lead ==> self.bytes@.len() > 0,
    spec::twos(self.bytes@) is None,
    $it.remaining().len() <= self.bytes@.len(),
    v_lead ==> $it.remaining().len() < self.bytes@.len(),
    v_lead ==> forall|i: int| 0 <= i < $it.remaining().len() ==> *#[trigger] $it.remaining()[i] == self.bytes@[self.bytes@.len() - 1 - $it.remaining().len() + i],
    !v_lead ==> forall|i: int| 0 <= i < $it.remaining().len() ==> *#[trigger] $it.remaining()[i] == self.bytes@[self.bytes@.len() - $it.remaining().len() + i],
    $it.remaining().len() <= v_n0,
    $1.accepts() == old($1).accepts(),
    old($1).accepts() && v_lead ==> $1@ =~= old($1)@.add(crate::lemmas::hex_lead(self.bytes@, self.bytes@.len() - 1 - $it.remaining().len())),
    old($1).accepts() && !v_lead ==> $1@ =~= old($1)@.add(spec::hex_text(self.bytes@, self.bytes@.len() - $it.remaining().len())),
ensures
    $it.remaining().len() == 0,
decreases vstd::std_specs::iter::IteratorSpec::decrease(&$it)->0,
# loop 0 before
// the separators behind the elements but the last, or before those but the first
let ghost v_n0 = $it.remaining().len();
let ghost v_lead = $it.remaining().len() == self.bytes@.len() - 1 && (if old($1).accepts() { $1@.len() == old($1)@.len() } else { forall|i: int| 0 <= i < $it.remaining().len() ==> *#[trigger] $it.remaining()[i] == self.bytes@[i] });
# loop 0 body
proof {
    crate::lemmas::lem_hex_more(self.bytes@, self.bytes@.len() - $it.remaining().len());
    crate::lemmas::lem_hex_more(self.bytes@, self.bytes@.len() - $it.remaining().len() - 1);
}

## impl der::types::ASNObjectIdentifier<VDisplay>
# items
    open spec fn exact(&self) -> bool { true }
    open spec fn text(&self) -> Seq<char> { spec::oid_text(self.items@) }

## der::types::ASNObjectIdentifier<VDisplay>::fmt
# props C20
# pre
proof { crate::lemmas::lem_lit1(); reveal(spec::oid_name); }
broadcast use crate::lemmas::lem_arc_step;
# loop 0
invariant
    vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&$it), vstd::std_specs::iter::IteratorSpec::decrease(&$it) is Some,
    v_lead ==> self.items@.len() > 0,
    spec::oid_name(self.items@) is None,
    $it.remaining().len() <= self.items@.len(),
    v_lead ==> $it.remaining().len() < self.items@.len(),
    v_lead ==> forall|i: int| 0 <= i < $it.remaining().len() ==> *#[trigger] $it.remaining()[i] == self.items@[self.items@.len() - 1 - $it.remaining().len() + i],
    !v_lead ==> forall|i: int| 0 <= i < $it.remaining().len() ==> *#[trigger] $it.remaining()[i] == self.items@[self.items@.len() - $it.remaining().len() + i],
    $it.remaining().len() <= v_n0,
    $1.accepts() == old($1).accepts(),
    old($1).accepts() && v_lead ==> $1@ =~= old($1)@.add(crate::lemmas::arc_lead(self.items@, self.items@.len() - 1 - $it.remaining().len())),
    old($1).accepts() && !v_lead ==> $1@ =~= old($1)@.add(spec::arc_text(self.items@, self.items@.len() - $it.remaining().len())),
ensures
    $it.remaining().len() == 0,
decreases vstd::std_specs::iter::IteratorSpec::decrease(&$it)->0,
# loop 0 before
// the separators behind the elements but the last, or before those but the first
let ghost v_n0 = $it.remaining().len();
let ghost v_lead = $it.remaining().len() == self.items@.len() - 1 && (if old($1).accepts() { $1@.len() == old($1)@.len() } else { forall|i: int| 0 <= i < $it.remaining().len() ==> *#[trigger] $it.remaining()[i] == self.items@[i] });
# loop 0 body
proof {
    crate::lemmas::lem_arc_more(self.items@, self.items@.len() - $it.remaining().len());
    crate::lemmas::lem_arc_more(self.items@, self.items@.len() - $it.remaining().len() - 1);
}

## der::oid::get_oid
# props C20
ensures
    (match ret { Some(n) => Some(v_name(n)), None => None }) == spec::oid_name($1@),
# pre
proof { reveal(spec::oid_name); reveal(spec::attr_arc); }

## mod der::oid
# items
pub open spec fn v_name(n: KnownOID) -> Seq<char> {
    match n {
        KnownOID::CommonName => "Common Name"@,
        KnownOID::CountryName => "Country Name"@,
        KnownOID::OrganizationName => "Organization Name"@,
        KnownOID::OrganizationalUnitName => "Organizational Unit Name"@,
        KnownOID::StateOrProvinceName => "State or Province Name"@,
        KnownOID::LocalityName => "Locality Name"@,
        KnownOID::EmailAddress => "Email Address"@,
        KnownOID::Algorithm(AlgorithmID::Ed25519) => "Ed25519 Signature"@,
        KnownOID::Algorithm(AlgorithmID::SHA1WithRSASignature) => "SHA1 with RSA Signature"@,
        KnownOID::Algorithm(AlgorithmID::RSAEncryption) => "RSA Encryption"@,
    }
}

## der::oid::KnownOID::to_str
# props C20
ensures ret@ == v_name(*self),

## der::oid::AlgorithmID::to_str
# props C20
ensures ret@ == v_name(KnownOID::Algorithm(*self)),
