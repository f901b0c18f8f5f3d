//! Path validation over the ideal signature scheme: issuer/subject names, signatures over the TBS bytes,
//! validity window, CA flag of intermediates, and the codeSigning extended key usage of the leaf.
use ideal_ec::signature::Verifier;
use pki_types::{CertificateDer, TrustAnchor, UnixTime};
use x509_cert::der::{Decode, Encode};
use x509_cert::Certificate;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RequiredEkuNotFoundContext;
#[derive(Debug, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error { BadDer, CertExpired { time: UnixTime, not_after: UnixTime }, CertNotValidYet { time: UnixTime, not_before: UnixTime }, UnknownIssuer, InvalidSignatureForPublicKey, EndEntityUsedAsCa, CaUsedAsEndEntity, RequiredEkuNotFound(RequiredEkuNotFoundContext), IssuerNotCrlSigner, MaximumSignatureChecksExceeded }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub struct Alg;
pub static ALL_VERIFICATION_ALGS: &[&Alg] = &[&Alg];
pub struct RevocationOptions<'a>(std::marker::PhantomData<&'a ()>);
pub struct ExtendedKeyUsage(&'static str);
impl ExtendedKeyUsage {
    pub const fn code_signing() -> Self { Self("1.3.6.1.5.5.7.3.3") }
    pub const fn server_auth() -> Self { Self("1.3.6.1.5.5.7.3.1") }
    pub const fn client_auth() -> Self { Self("1.3.6.1.5.5.7.3.2") }
}
pub type KeyUsage = ExtendedKeyUsage;
fn body(der: &[u8]) -> Option<Vec<u8>> { let n = *der.get(1)? as usize; let h = if n < 128 { 2 } else { 2 + (n & 127) }; Some(der.get(h..)?.to_vec()) }
pub fn anchor_from_trusted_cert<'a>(c: &'a CertificateDer<'a>) -> Result<TrustAnchor<'a>, Error> {
    let x = Certificate::from_der(c.as_ref()).map_err(|_| Error::BadDer)?;
    let s = x.tbs_certificate.subject.to_der().map_err(|_| Error::BadDer)?;
    let k = x.tbs_certificate.subject_public_key_info.to_der().map_err(|_| Error::BadDer)?;
    Ok(TrustAnchor { subject: body(&s).ok_or(Error::BadDer)?.into(), subject_public_key_info: body(&k).ok_or(Error::BadDer)?.into(), name_constraints: None })
}
pub struct EndEntityCert<'a> { x: Certificate, _p: std::marker::PhantomData<&'a ()> }
impl<'a> TryFrom<&'a CertificateDer<'a>> for EndEntityCert<'a> { type Error = Error; fn try_from(c: &'a CertificateDer<'a>) -> Result<Self, Error> { Ok(Self { x: Certificate::from_der(c.as_ref()).map_err(|_| Error::BadDer)?, _p: std::marker::PhantomData }) } }
pub struct VerifiedPath<'a>(std::marker::PhantomData<&'a ()>);
fn signed_by(x: &Certificate, spki_body: &[u8]) -> bool {
    let (Ok(tbs), Some(sig)) = (x.tbs_certificate.to_der(), x.signature.as_bytes()) else { return false };
    let mut spki = vec![0x30]; if spki_body.len() < 128 { spki.push(spki_body.len() as u8) } else { spki.push(0x81); spki.push(spki_body.len() as u8) } spki.extend_from_slice(spki_body);
    use ideal_ec::pkcs8::DecodePublicKey;
    if let Ok(k) = p256::ecdsa::VerifyingKey::from_public_key_der(&spki) { return p256::ecdsa::Signature::from_der(sig).is_ok_and(|s| k.verify(&tbs, &s).is_ok()); }
    if let Ok(k) = p384::ecdsa::VerifyingKey::from_public_key_der(&spki) { return p384::ecdsa::Signature::from_der(sig).is_ok_and(|s| k.verify(&tbs, &s).is_ok()); }
    false
}
fn time_ok(x: &Certificate, now: UnixTime) -> Result<(), Error> {
    let nb = UnixTime::since_unix_epoch(x.tbs_certificate.validity.not_before.to_unix_duration()); let na = UnixTime::since_unix_epoch(x.tbs_certificate.validity.not_after.to_unix_duration());
    if now.as_secs() < nb.as_secs() { return Err(Error::CertNotValidYet { time: now, not_before: nb }); }
    if now.as_secs() > na.as_secs() { return Err(Error::CertExpired { time: now, not_after: na }); }
    Ok(())
}
fn ext<'c>(x: &'c Certificate, oid: &str) -> Option<&'c [u8]> { x.tbs_certificate.extensions.as_ref()?.iter().find(|e| e.extn_id.to_string() == oid).map(|e| e.extn_value.as_bytes()) }
fn is_ca(x: &Certificate) -> bool { ext(x, "2.5.29.19").and_then(|b| x509_cert::ext::pkix::BasicConstraints::from_der(b).ok()).is_some_and(|b| b.ca) }
fn eku_ok(x: &Certificate, u: &ExtendedKeyUsage) -> bool { ext(x, "2.5.29.37").and_then(|b| x509_cert::ext::pkix::ExtendedKeyUsage::from_der(b).ok()).is_some_and(|e| e.0.iter().any(|o| o.to_string() == u.0)) }
impl<'a> EndEntityCert<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn verify_for_usage(&self, _algs: &[&Alg], anchors: &[TrustAnchor<'_>], inter: &[CertificateDer<'_>], now: UnixTime, usage: &ExtendedKeyUsage, _crl: Option<RevocationOptions<'_>>, _cb: Option<&dyn Fn(&VerifiedPath<'_>) -> Result<(), Error>>) -> Result<VerifiedPath<'a>, Error> {
        time_ok(&self.x, now)?;
        if is_ca(&self.x) { return Err(Error::CaUsedAsEndEntity); }
        if !eku_ok(&self.x, usage) { return Err(Error::RequiredEkuNotFound(RequiredEkuNotFoundContext)); }
        build(&self.x, anchors, inter, now, 0).map(|_| VerifiedPath(std::marker::PhantomData))
    }
}
fn build(x: &Certificate, anchors: &[TrustAnchor<'_>], inter: &[CertificateDer<'_>], now: UnixTime, depth: usize) -> Result<(), Error> {
    let iss = x.tbs_certificate.issuer.to_der().ok().and_then(|d| body(&d)).ok_or(Error::BadDer)?;
    for a in anchors { if a.subject.as_ref() == &iss[..] && signed_by(x, &a.subject_public_key_info) { return Ok(()); } }
    if depth > 5 { return Err(Error::UnknownIssuer); }
    let mut err = Error::UnknownIssuer;
    for c in inter {
        let Ok(p) = Certificate::from_der(c.as_ref()) else { continue };
        if p.tbs_certificate.subject != x.tbs_certificate.issuer { continue; }
        let Some(k) = p.tbs_certificate.subject_public_key_info.to_der().ok().and_then(|d| body(&d)) else { continue };
        if !signed_by(x, &k) { continue; }
        if !is_ca(&p) { err = Error::EndEntityUsedAsCa; continue; }
        if let Err(e) = time_ok(&p, now) { err = e; continue; }
        match build(&p, anchors, inter, now, depth + 1) { Ok(()) => return Ok(()), Err(e) => err = e }
    }
    Err(err)
}
