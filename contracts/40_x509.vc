## mod x509
# items
use crate::der::types::{v_kind_id, v_id_kind, v_elem_id};

pub open spec fn v_opt_text(o: Option<crate::octets::Str>) -> Option<spec::Text> {
    match o { Some(s) => Some(s@), None => None }
}

pub open spec fn v_opt_bits(o: Option<crate::der::types::ASNBitString>) -> Option<(u8, spec::Octets)> {
    match o { Some(s) => Some((s.unused_bits, s.bytes@)), None => None }
}

pub open spec fn v_bits_wf(o: Option<crate::der::types::ASNBitString>) -> bool {
    match o { Some(s) => s.wf(), None => true }
}

## type x509::AlgorithmIdentifier
# items
impl<'a> AlgorithmIdentifier<'a> {
    pub open spec fn sp(&self) -> spec::SAlg {
        spec::SAlg {
            oid: self.algorithm.items@,
            params: match self.parameters { Some(p) => Some(p.elem()), None => None },
        }
    }
}

## type x509::Version
# items
impl Version {
    pub open spec fn sp(&self) -> int {
        match self { Version::V1 => 0, Version::V2 => 1, Version::V3 => 2 }
    }
}

## type x509::TBSCertificate
# items
impl<'a> TBSCertificate<'a> {
    pub open spec fn wf(&self) -> bool {
        self.subject_public_key_info.subject_public_key.wf() && v_bits_wf(self.issuer_unique_id) && v_bits_wf(self.subject_unique_id)
    }
    pub open spec fn sp(&self) -> spec::STbs {
        spec::STbs {
            version: self.version.sp(),
            serial: self.serial_number.bytes@,
            signature: self.signature.sp(),
            issuer: self.issuer.inner@,
            not_before: self.validity.not_before.value as int,
            not_after: self.validity.not_after.value as int,
            subject: self.subject.inner@,
            key_alg: self.subject_public_key_info.algorithm.sp(),
            key_unused: self.subject_public_key_info.subject_public_key.unused_bits,
            key: self.subject_public_key_info.subject_public_key.bytes@,
            issuer_uid: v_opt_bits(self.issuer_unique_id),
            subject_uid: v_opt_bits(self.subject_unique_id),
            extensions: match self.extensions { Some(e) => Some(e.raw_content@), None => None },
        }
    }
}

## type x509::Certificate
# items
impl<'a> Certificate<'a> {
    pub open spec fn wf(&self) -> bool { self.tbs_certificate.value.wf() && self.signature_value.wf() }
    pub open spec fn sp(&self) -> spec::SCert {
        spec::SCert {
            raw: self.tbs_certificate.bytes@,
            tbs: self.tbs_certificate.value.sp(),
            alg: self.signature_algorithm.sp(),
            sig_unused: self.signature_value.unused_bits,
            sig: self.signature_value.bytes@,
        }
    }
}

## type x509::RelativeDistinguishedName
# items
impl<'a> RelativeDistinguishedName<'a> {
    pub open spec fn sp(&self) -> spec::SName {
        spec::SName {
            country: v_opt_text(self.country_name),
            state: v_opt_text(self.state_or_province_unit_name),
            locality: v_opt_text(self.locality_name),
            org: v_opt_text(self.organization),
            unit: v_opt_text(self.organizational_unit_name),
            common: v_opt_text(self.common_name),
        }
    }
}

## x509::Certificate::parse
# props C01 C10
ensures
    ret is Ok <==> spec::dec_cert($1@) is Some,
    ret is Ok ==> ret->Ok_0.sp() == spec::dec_cert($1@)->0,
    ret is Ok ==> ret->Ok_0.wf(),
# pre
proof { reveal(spec::dec_cert); }

## x509::AlgorithmIdentifier::parse
# props C01 C10
ensures
    ret is Ok <==> spec::dec_alg($1@) is Some,
    ret is Ok ==> ret->Ok_0.sp() == spec::dec_alg($1@)->0,
# pre
proof { reveal(spec::dec_alg); }

## x509::SubjectPublicKeyInfo::parse
# props C01 C10
ensures
    ret is Ok <==> spec::dec_key($1@) is Some,
    ret is Ok ==> (ret->Ok_0.algorithm.sp(), ret->Ok_0.subject_public_key.unused_bits, ret->Ok_0.subject_public_key.bytes@)
        == spec::dec_key($1@)->0,
    ret is Ok ==> ret->Ok_0.subject_public_key.wf(),
# pre
proof { reveal(spec::dec_key); }

## x509::Validity::parse
# props C01 C10
ensures
    ret is Ok <==> spec::dec_validity($1@) is Some,
    ret is Ok ==> (ret->Ok_0.not_before.value as int, ret->Ok_0.not_after.value as int) == spec::dec_validity($1@)->0,
# pre
proof { reveal(spec::dec_validity); }

## x509::Validity::is_valid
# props C11
ensures ret == spec::within(self.not_before.value as int, self.not_after.value as int, $1.value as int),

## x509::TBSCertificate::parse
# props C01 C10
ensures
    ret is Ok <==> spec::dec_tbs($1@) is Some,
    ret is Ok ==> ret->Ok_0.value.sp() == spec::dec_tbs($1@)->0,
    ret is Ok ==> ret->Ok_0.value.wf() && ret->Ok_0.bytes@ == $1@,
# pre
proof { reveal(spec::dec_tbs); }

## x509::TBSCertificate__parse__parse_version
# props C01 C10
ensures
    ret is Ok <==> spec::dec_version(old($1)@) is Some,
    ret is Ok ==> (ret->Ok_0.sp(), final($1)@) == spec::dec_version(old($1)@)->0,
# pre
proof { reveal(spec::dec_version); }

## x509::TBSCertificate__parse__parse_optional_bitstring
# props C01 C10
ensures
    ret is Ok <==> spec::dec_uid(old($1)@, $2) is Some,
    ret is Ok ==> (v_opt_bits(ret->Ok_0), final($1)@) == spec::dec_uid(old($1)@, $2)->0,
    ret is Ok ==> v_bits_wf(ret->Ok_0),
# pre
proof { reveal(spec::dec_uid); }

## x509::Name::parse
# props C01 C12
ensures
    ret is Ok <==> spec::dec_name(self.inner@) is Some,
    ret is Ok ==> ret->Ok_0.sp() == spec::dec_name(self.inner@)->0,

## x509::RelativeDistinguishedName::parse
# props C01 C12
ensures
    ret is Ok <==> spec::dec_name($1@) is Some,
    ret is Ok ==> ret->Ok_0.sp() == spec::dec_name($1@)->0,
# loop 0
invariant spec::dec_name($1@) == spec::name_tail($Parser@, $RelativeDistinguishedName.sp()),
ensures $Parser@.len() == 0,
decreases $Parser@.len(),
# loop 0 body
let ghost v_before = $Parser@;
# loop 1
invariant spec::dec_name($1@) == match spec::rdn_tail($Parser@, $RelativeDistinguishedName.sp()) {
        None => None,
        Some(n) => spec::name_tail((spec::exp_set(v_before)->0).1, n),
    },
ensures $Parser@.len() == 0,
decreases $Parser@.len(),
# pre
proof { reveal(spec::dec_name); }

## x509::RelativeDistinguishedName::parse_single
# props C01 C12
ensures
    ret is Ok <==> spec::dec_attr($1@, old(self).sp()) is Some,
    ret is Ok ==> final(self).sp() == spec::dec_attr($1@, old(self).sp())->0,
# pre
proof { reveal(spec::dec_attr); }

