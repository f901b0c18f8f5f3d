//! Ideal signatures: public key = injective function of the secret key, signature = collision-free
//! function of (curve, public key, message). A signature verifies iff it is that value.
pub use {digest, ksymrt, pkcs8, sec1, signature};
#[macro_export]
macro_rules! curve { ($n:expr, $len:ty, $dom:expr, $oid:expr, $siglen:expr) => {
    pub use $crate::{pkcs8, sec1};
    pub type FieldBytes = $crate::digest::generic_array::GenericArray<u8, $len>;
    const N: usize = $n;
    const EC: pkcs8::ObjectIdentifier = pkcs8::ObjectIdentifier::new_unwrap("1.2.840.10045.2.1");
    const CURVE: pkcs8::ObjectIdentifier = pkcs8::ObjectIdentifier::new_unwrap($oid);
    pub type SecretKey = ecdsa::SigningKey;
    pub type PublicKey = ecdsa::VerifyingKey;
    pub mod elliptic_curve { pub use $crate::{pkcs8, sec1}; pub use $crate::digest::generic_array; }
    pub mod ecdsa {
        use super::*;
        pub use $crate::signature::{self, Error};
        use $crate::pkcs8::{self, der, spki, AssociatedOid};
        #[derive(Clone, PartialEq, Eq)] pub struct SigningKey { sk: [u8; N], vk: VerifyingKey }
        #[derive(Clone, PartialEq, Eq, Debug)] pub struct VerifyingKey { pk: [u8; N] }
        #[derive(Clone, PartialEq, Eq, Debug)] pub struct Signature { b: [u8; $siglen] }
        pub struct DerSignature(Vec<u8>);
        impl DerSignature { pub fn as_bytes(&self) -> &[u8] { &self.0 } pub fn to_bytes(&self) -> Box<[u8]> { self.0.clone().into() } pub fn len(&self) -> usize { self.0.len() } }
        impl AsRef<[u8]> for DerSignature { fn as_ref(&self) -> &[u8] { &self.0 } }
        pub mod der_ { }
        fn sig(pk: &[u8; N], m: &[u8]) -> [u8; $siglen] { let mut v = pk.to_vec(); v.extend_from_slice(m); let mut o = [0u8; $siglen]; $crate::ksymrt::hash($dom, &v, &mut o); o }
        impl SigningKey {
            pub fn from_slice(b: &[u8]) -> Result<Self, Error> { if b.len() != N { return Err(Error::new()); } let mut sk = [0u8; N]; sk.copy_from_slice(b); let mut pk = sk; for x in pk.iter_mut() { *x ^= 0x5a; } Ok(Self { sk, vk: VerifyingKey { pk } }) }
            pub fn from_bytes(b: &FieldBytes) -> Result<Self, Error> { Self::from_slice(b.as_slice()) }
            pub fn to_bytes(&self) -> FieldBytes { FieldBytes::clone_from_slice(&self.sk) }
            pub fn verifying_key(&self) -> &VerifyingKey { &self.vk }
        }
        impl signature::Signer<Signature> for SigningKey { fn try_sign(&self, m: &[u8]) -> Result<Signature, Error> { Ok(Signature { b: sig(&self.vk.pk, m) }) } }
        impl signature::Verifier<Signature> for VerifyingKey { fn verify(&self, m: &[u8], s: &Signature) -> Result<(), Error> { if sig(&self.pk, m) == s.b { Ok(()) } else { Err(Error::new()) } } }
        impl Signature {
            pub fn from_der(d: &[u8]) -> Result<Self, Error> { if d.len() != 2 + $siglen || d[0] != 0x30 || d[1] as usize != $siglen { return Err(Error::new()); } let mut b = [0u8; $siglen]; b.copy_from_slice(&d[2..]); Ok(Self { b }) }
            pub fn to_der(&self) -> DerSignature { let mut v = vec![0x30, $siglen as u8]; v.extend_from_slice(&self.b); DerSignature(v) }
        }
        impl pkcs8::EncodePublicKey for VerifyingKey { fn to_public_key_der(&self) -> spki::Result<der::Document> {
            let mut pt = vec![4u8]; pt.extend_from_slice(&self.pk); pt.extend_from_slice(&self.pk);
            let spki = spki::SubjectPublicKeyInfoOwned { algorithm: spki::AlgorithmIdentifierOwned { oid: EC, parameters: Some(der::Any::from(CURVE)) }, subject_public_key: der::asn1::BitString::from_bytes(&pt)? };
            Ok(der::Document::try_from(&spki)?) } }
        impl TryFrom<spki::SubjectPublicKeyInfoRef<'_>> for VerifyingKey { type Error = spki::Error; fn try_from(s: spki::SubjectPublicKeyInfoRef<'_>) -> spki::Result<Self> {
            s.algorithm.assert_algorithm_oid(EC)?; if s.algorithm.parameters_oid()? != CURVE { return Err(spki::Error::KeyMalformed); }
            let b = s.subject_public_key.as_bytes().ok_or(spki::Error::KeyMalformed)?; if b.len() != 1 + 2 * N || b[0] != 4 || b[1..1 + N] != b[1 + N..] { return Err(spki::Error::KeyMalformed); }
            let mut pk = [0u8; N]; pk.copy_from_slice(&b[1..1 + N]); Ok(Self { pk }) } }
        impl VerifyingKey { pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> { if b.len() != 1 + 2 * N { return Err(Error::new()); } let mut pk = [0u8; N]; pk.copy_from_slice(&b[1..1 + N]); Ok(Self { pk }) } }
        impl From<&SigningKey> for VerifyingKey { fn from(k: &SigningKey) -> Self { k.vk.clone() } }
        impl TryFrom<pkcs8::PrivateKeyInfo<'_>> for SigningKey { type Error = pkcs8::Error; fn try_from(p: pkcs8::PrivateKeyInfo<'_>) -> pkcs8::Result<Self> {
            p.algorithm.assert_algorithm_oid(EC)?; if p.algorithm.parameters_oid()? != CURVE { return Err(pkcs8::Error::KeyMalformed); }
            let k = $crate::sec1::EcPrivateKey::try_from(p.private_key).map_err(|_| pkcs8::Error::KeyMalformed)?; Self::from_slice(k.private_key).map_err(|_| pkcs8::Error::KeyMalformed) } }
        // as in elliptic-curve: DecodeEcPrivateKey comes from TryFrom<sec1::EcPrivateKey>
        impl TryFrom<$crate::sec1::EcPrivateKey<'_>> for SigningKey { type Error = $crate::sec1::Error; fn try_from(k: $crate::sec1::EcPrivateKey<'_>) -> Result<Self, $crate::sec1::Error> {
            if let Some(p) = &k.parameters { if p.named_curve() != Some(CURVE) { return Err(der::Tag::Sequence.value_error().into()); } }
            Self::from_slice(k.private_key).map_err(|_| der::Tag::Sequence.value_error().into()) } }
        impl AssociatedOid for SigningKey { const OID: pkcs8::ObjectIdentifier = CURVE; }
    }
} }
