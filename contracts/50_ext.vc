## mod x509::ext
# items
use crate::der::types::{v_kind_id, v_id_kind, v_elem_id};

## type x509::ext::KeyUsage
# items
impl KeyUsage {
    pub open spec fn sp(&self) -> spec::SUsage {
        spec::SUsage {
            digital_signature: self.digital_signature,
            content_commitment: self.content_commitment,
            key_encipherment: self.key_encipherment,
            data_encipherment: self.data_encipherment,
            key_agreement: self.key_agreement,
            key_cert_sign: self.key_cert_sign,
            crl_sign: self.crl_sign,
            encipher_only: self.encipher_only,
            decipher_only: self.decipher_only,
        }
    }
}

## type x509::ext::GeneralName
# items
impl<'a> GeneralName<'a> {
    pub open spec fn sp(&self) -> spec::SGen {
        match self {
            GeneralName::Rfc822Name(s) => spec::SGen::Email(s@),
            GeneralName::DnsName(s) => spec::SGen::Dns(s@),
            GeneralName::UniformResourceIdentifier(s) => spec::SGen::Uri(s@),
            GeneralName::IpAddress(s) => spec::SGen::Ip(s@),
            GeneralName::RegisteredId(o) => spec::SGen::Rid(o.items@),
            _ => spec::SGen::Other,
        }
    }
}
pub open spec fn v_gens(v: Seq<GeneralName>) -> Seq<spec::SGen> {
    v.map_values(|g: GeneralName| g.sp())
}
pub broadcast proof fn v_gens_push(v: Seq<GeneralName>, g: GeneralName)
    ensures #[trigger] v_gens(v.push(g)) == v_gens(v).push(g.sp()),
{ assert(v_gens(v.push(g)) =~= v_gens(v).push(g.sp())); }
pub broadcast proof fn v_gens_none(v: Seq<GeneralName>)
    requires v.len() == 0,
    ensures #[trigger] v_gens(v) == Seq::<spec::SGen>::empty(),
{ assert(v_gens(v) =~= Seq::<spec::SGen>::empty()); }

## type x509::ext::ExtendedKeyUsagePurpose
# items
impl ExtendedKeyUsagePurpose {
    pub open spec fn sp(&self) -> spec::SPurpose {
        match self {
            ExtendedKeyUsagePurpose::ServerAuth => spec::SPurpose::Server,
            ExtendedKeyUsagePurpose::ClientAuth => spec::SPurpose::Client,
            ExtendedKeyUsagePurpose::CodeSigning => spec::SPurpose::Code,
            ExtendedKeyUsagePurpose::EmailProtection => spec::SPurpose::Email,
            ExtendedKeyUsagePurpose::TimeStamping => spec::SPurpose::Stamp,
            ExtendedKeyUsagePurpose::OCSPSigning => spec::SPurpose::Ocsp,
        }
    }
}
pub open spec fn v_purposes(v: Seq<ExtendedKeyUsagePurpose>) -> Seq<spec::SPurpose> {
    v.map_values(|g: ExtendedKeyUsagePurpose| g.sp())
}
pub broadcast proof fn v_purposes_push(v: Seq<ExtendedKeyUsagePurpose>, g: ExtendedKeyUsagePurpose)
    ensures #[trigger] v_purposes(v.push(g)) == v_purposes(v).push(g.sp()),
{ assert(v_purposes(v.push(g)) =~= v_purposes(v).push(g.sp())); }
pub broadcast proof fn v_purposes_none(v: Seq<ExtendedKeyUsagePurpose>)
    requires v.len() == 0,
    ensures #[trigger] v_purposes(v) == Seq::<spec::SPurpose>::empty(),
{ assert(v_purposes(v) =~= Seq::<spec::SPurpose>::empty()); }

## type x509::ext::SpecificExtension
# items
impl<'a> SpecificExtension<'a> {
    pub open spec fn sp(&self) -> spec::SContent {
        match self {
            SpecificExtension::SubjectKeyIdentifier(x) => spec::SContent::KeyId(x.key_identifier@),
            SpecificExtension::KeyUsage(x) => spec::SContent::Usage(x.sp()),
            SpecificExtension::SubjectAlternativeName(x) => spec::SContent::AltNames(v_gens(x.names@)),
            SpecificExtension::BasicConstraints(x) => spec::SContent::Basic(x.ca, v_opt_int(x.path_length_constraint)),
            SpecificExtension::ExtendedKeyUsage(x) => spec::SContent::Purposes(v_purposes(x.ext_key_usages@)),
            SpecificExtension::ModbusRole(x) => spec::SContent::Modbus(x.role@),
            SpecificExtension::Unknown(x) => spec::SContent::Unknown(x@),
        }
    }
}
pub open spec fn v_opt_int(o: Option<i32>) -> Option<int> {
    match o { Some(v) => Some(v as int), None => None }
}

## type x509::ext::Extension
# items
impl<'a> Extension<'a> {
    pub open spec fn sp(&self) -> spec::SExt {
        spec::SExt { oid: self.extn_id.items@, critical: self.critical, content: self.content.sp() }
    }
}
pub open spec fn v_exts(v: Seq<Extension>) -> Seq<spec::SExt> {
    v.map_values(|g: Extension| g.sp())
}
pub broadcast proof fn v_exts_push(v: Seq<Extension>, g: Extension)
    ensures #[trigger] v_exts(v.push(g)) == v_exts(v).push(g.sp()),
{ assert(v_exts(v.push(g)) =~= v_exts(v).push(g.sp())); }
pub broadcast proof fn v_exts_none(v: Seq<Extension>)
    requires v.len() == 0,
    ensures #[trigger] v_exts(v) == Seq::<spec::SExt>::empty(),
{ assert(v_exts(v) =~= Seq::<spec::SExt>::empty()); }

## x509::ext::SpecificExtension<From<SubjectKeyIdentifier>>::from
# props C13
# fromspec
SpecificExtension::SubjectKeyIdentifier(v)

## x509::ext::SpecificExtension<From<KeyUsage>>::from
# props C13
# fromspec
SpecificExtension::KeyUsage(v)

## x509::ext::SpecificExtension<From<SubjectAlternativeName>>::from
# props C13
# fromspec
SpecificExtension::SubjectAlternativeName(v)

## x509::ext::SpecificExtension<From<BasicConstraints>>::from
# props C13
# fromspec
SpecificExtension::BasicConstraints(v)

## x509::ext::SpecificExtension<From<ExtendedKeyUsage>>::from
# props C13
# fromspec
SpecificExtension::ExtendedKeyUsage(v)

## x509::ext::SpecificExtension<From<ModbusRole>>::from
# props C13
# fromspec
SpecificExtension::ModbusRole(v)

## x509::ext::SubjectKeyIdentifier::parse
# props C01 C13
ensures
    ret is Ok <==> spec::dec_ski($1@) is Some,
    ret is Ok ==> ret->Ok_0.key_identifier@ == spec::dec_ski($1@)->0,
# pre
proof { reveal(spec::dec_ski); }

## x509::ext::KeyUsage::parse
# props C01 C14
ensures
    ret is Ok <==> spec::dec_usage($1@) is Some,
    ret is Ok ==> ret->Ok_0.sp() == spec::dec_usage($1@)->0,
# loop 0
invariant
    $it.wf(),
    spec::exp_bits($1@) == Some(($it.bit_string.unused_bits, $it.bit_string.bytes@, Seq::<spec::Octet>::empty())),
    $mut_int == $it.current_bit,
    $KeyUsage.digital_signature == (0 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 0)),
    $KeyUsage.content_commitment == (1 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 1)),
    $KeyUsage.key_encipherment == (2 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 2)),
    $KeyUsage.data_encipherment == (3 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 3)),
    $KeyUsage.key_agreement == (4 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 4)),
    $KeyUsage.key_cert_sign == (5 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 5)),
    $KeyUsage.crl_sign == (6 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 6)),
    $KeyUsage.encipher_only == (7 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 7)),
    $KeyUsage.decipher_only == (8 < $it.current_bit && spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, 8)),
ensures $it.current_bit == $it.bit_string.bits() || $it.current_bit >= 9,
decreases $it.bit_string.bits() - $it.current_bit,
# alt 0
invariant
    $it.wf(),
    spec::exp_bits($1@) == Some(($it.bit_string.unused_bits, $it.bit_string.bytes@, Seq::<spec::Octet>::empty())),
    $Vec@.len() == $it.current_bit,
    forall|v_i: int| 0 <= v_i < $Vec@.len() ==> $Vec@[v_i] == spec::granted($it.bit_string.unused_bits, $it.bit_string.bytes@, v_i),
ensures $it.current_bit == $it.bit_string.bits(),
decreases $it.bit_string.bits() - $it.current_bit,
# pre
proof { reveal(spec::dec_usage); }

## x509::ext::SubjectAlternativeName::parse
# props C01 C17
ensures
    ret is Ok <==> spec::dec_san($1@) is Some,
    ret is Ok ==> v_gens(ret->Ok_0.names@) == spec::dec_san($1@)->0,
# pre
proof { reveal(spec::dec_san); reveal(spec::dec_gen_name); }
broadcast use v_gens_push, v_gens_none;
# loop 0
invariant spec::dec_san($1@) == spec::gens_tail($Parser@, v_gens($Vec@)),
ensures $Parser@.len() == 0,
decreases $Parser@.len(),

## x509::ext::BasicConstraints::parse
# props C01 C15
ensures
    ret is Ok <==> spec::dec_basic($1@) is Some,
    ret is Ok ==> (ret->Ok_0.ca, v_opt_int(ret->Ok_0.path_length_constraint)) == spec::dec_basic($1@)->0,
# pre
proof { reveal(spec::dec_basic); }

## x509::ext::ExtendedKeyUsagePurpose::try_from_id
# props C01 C16
ensures
    ret is Some <==> spec::dec_purpose($1.items@) is Some,
    ret is Some ==> ret->0.sp() == spec::dec_purpose($1.items@)->0,
# pre
proof { reveal(spec::dec_purpose); }

## x509::ext::ExtendedKeyUsage::parse
# props C01 C16
ensures
    ret is Ok <==> spec::dec_eku($1@) is Some,
    ret is Ok ==> v_purposes(ret->Ok_0.ext_key_usages@) == spec::dec_eku($1@)->0,
# pre
proof { reveal(spec::dec_eku); }
broadcast use v_purposes_push, v_purposes_none;
# loop 0
invariant spec::dec_eku($1@) == spec::purposes_tail($Parser@, v_purposes($Vec@)),
ensures $Parser@.len() == 0,
decreases $Parser@.len(),

## x509::ext::ModbusRole::parse
# props C01 C13
ensures
    ret is Ok <==> spec::dec_modbus($1@) is Some,
    ret is Ok ==> ret->Ok_0.role@ == spec::dec_modbus($1@)->0,
# pre
proof { reveal(spec::dec_modbus); }

## x509::ext::Extension::parse
# props C01 C13
ensures
    ret is Ok <==> spec::dec_ext($1@) is Some,
    ret is Ok ==> ret->Ok_0.sp() == spec::dec_ext($1@)->0,
# pre
proof { reveal(spec::dec_ext); reveal(spec::dec_ext_content); }

## x509::ext::Extensions::parse
# props C01 C13
ensures
    ret is Ok <==> spec::dec_exts(self.raw_content@) is Some,
    ret is Ok ==> v_exts(ret->Ok_0@) == spec::dec_exts(self.raw_content@)->0,
# pre
proof { reveal(spec::dec_exts); }
broadcast use v_exts_push, v_exts_none;
# loop 0
invariant spec::dec_exts(self.raw_content@) == spec::exts_tail($Parser@, v_exts($Vec@)),
ensures $Parser@.len() == 0,
decreases $Parser@.len(),
