//! reference checks of what a signer produced, written from the documented format with p256/p384 used directly
use crate::{k, util::*};
use ksusig::common::*;
use ksusig::{Algorithms, PrivateKey, SourceStamp, ValueSigningBlock};
pub const TIME_ATTR: u32 = 0xe43c5946;
/// any current time
pub fn any_clock() -> u64 { let t = k::u64("clock"); k::assume(t < 1 << 40); k::set_clock(t); t }
pub fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }
/// documented: the signature covers the digest of the data; P-256 with SHA-256 (0x201), P-384 with SHA-512 (0x202)
pub fn ref_verify(alg: u32, pk: &[u8], data: &[u8], sig: &[u8]) -> bool {
    macro_rules! go { ($c:ident, $h:ident) => {{ use $c::ecdsa::{signature::Verifier, Signature, VerifyingKey}; use $c::pkcs8::DecodePublicKey;
        match (VerifyingKey::from_public_key_der(pk), Signature::from_der(sig)) { (Ok(k), Ok(s)) => k.verify(&$h(data), &s).is_ok(), _ => false } }} }
    match alg { 0x201 => go!(p256, sha256), 0x202 => go!(p384, sha512), _ => false }
}
pub fn ref_pub(key: &[u8]) -> Vec<u8> {
    macro_rules! go { ($c:ident) => {{ use $c::pkcs8::EncodePublicKey; $c::ecdsa::SigningKey::from_slice(key).unwrap().verifying_key().to_public_key_der().unwrap().into_vec() }} }
    if key.len() == 48 { go!(p384) } else { go!(p256) }
}
/// reference signature
pub fn ref_sign(key: &[u8], data: &[u8]) -> Vec<u8> {
    macro_rules! go { ($c:ident, $h:ident) => {{ use $c::ecdsa::{signature::Signer, Signature, SigningKey}; let s: Signature = SigningKey::from_slice(key).unwrap().sign(&$h(data)); s.to_der().as_bytes().to_vec() }} }
    if key.len() == 48 { go!(p384, sha512) } else { go!(p256, sha256) }
}
/// a configuration of a signer: secret, algorithm, certificate, chain
#[derive(Clone)]
pub struct Cfg { pub sk: Vec<u8>, pub alg: Algorithms, pub cert: Vec<u8>, pub chain: Vec<Vec<u8>> }
impl Cfg {
    pub fn any(n: &str, nchain: usize) -> Cfg { let sk = secret(k::flag("p384"), n); let alg = match k::range("alg", 0, 2) { 0 => Algorithms::ECDSA_SHA2_256, 1 => Algorithms::ECDSA_SHA2_512, _ => Algorithms::from(k::u32("algid")) }; Cfg::with(sk, alg, n, nchain) }
    pub fn with(sk: Vec<u8>, alg: Algorithms, _n: &str, nchain: usize) -> Cfg { let cert = k::bytes("cert", k::pick("certlen", &[0usize, 2])); let mut chain = vec![]; for i in 0..k::range("chain", 0, nchain) { chain.push(k::bytes("chaincert", 1 + i)); } Cfg { sk, alg, cert, chain } }
    /// matching algorithm
    pub fn good(n: &str, nchain: usize) -> Cfg { let p = k::flag("p384"); Cfg::with(secret(p, n), if p { Algorithms::ECDSA_SHA2_512 } else { Algorithms::ECDSA_SHA2_256 }, n, nchain) }
    /// one certificate and a chain of this length
    pub fn fixed(n: &str, p: bool, chain: usize) -> Cfg { Cfg { sk: secret(p, n), alg: if p { Algorithms::ECDSA_SHA2_512 } else { Algorithms::ECDSA_SHA2_256 }, cert: k::bytes("cert", 2), chain: (0..chain).map(|_| k::bytes("chaincert", 1)).collect() } }
    pub fn key(&self) -> PrivateKey { key_of(&self.sk) }
    pub fn matches(&self) -> bool { self.alg == if self.sk.len() == 48 { Algorithms::ECDSA_SHA2_512 } else { Algorithms::ECDSA_SHA2_256 } }
    pub fn conf(&self) -> ksusig::ModuleSignerConfig { ksusig::ModuleSignerConfig::with_cert_chain(self.key(), self.cert.clone(), self.alg.clone(), self.chain.clone()) }
    pub fn id(&self) -> u32 { if self.alg == Algorithms::ECDSA_SHA2_512 { 0x202 } else { 0x201 } }
}
pub fn secret(p384: bool, name: &str) -> Vec<u8> { let mut s = vec![1u8; if p384 { 48 } else { 32 }]; let n = s.len(); k::fill(&mut s[n - 2..], name); s }
/// list of digests with free algorithm ids and bytes, next to its wire form
pub fn digests(max: usize) -> (Vec<(u32, Vec<u8>)>, Vec<Vec<u8>>) { let mut v = vec![]; let mut w = vec![]; for i in 0..k::range("nd", 0, max) { let a = k::u32("dalg"); let d = k::bytes("digest", [2usize, 0, 1][i % 3]); w.push(rec(a, &d)); v.push((a, d)); } (v, w) }
pub fn as_digests(v: &[(u32, Vec<u8>)]) -> Digests { Digests::new(v.iter().map(|(a, d)| Digest::new(Algorithms::from(*a), d.clone())).collect()) }
pub fn as_pairs(v: &[(u32, Vec<u8>)]) -> Vec<(Algorithms, Vec<u8>)> { v.iter().map(|(a, d)| (Algorithms::from(*a), d.clone())).collect() }
/// the pair is a v2 block with one signer of exactly this content, signed by this key
pub fn v2_ok(v: &ValueSigningBlock, c: &Cfg, dw: &[Vec<u8>]) {
    let b = match v { ValueSigningBlock::SignatureSchemeV2Block(b) => b, _ => { k::check(false, "v2 pair expected"); return } };
    let s = &b.signers.signers_data; k::check(s.len() == 1 && s[0].signatures.signatures_data.len() == 1, "one signer, one signature"); let sig = &s[0].signatures.signatures_data[0].signature;
    let mut certs = vec![lp(&c.cert)]; for x in &c.chain { certs.push(lp(x)); }
    let signed = v2_signed(dw, &certs, &[]); k::check(same(&v.to_u8(), &v2_pair(&[signer(&signed, &[rec(c.id(), sig)], &ref_pub(&c.sk))])), "v2 block holds the digests, certificates, key and signature given");
    k::check(ref_verify(c.id(), &ref_pub(&c.sk), &signed, sig), "v2 signature verifies over the stored signed data");
}
/// the pair is a stamp of exactly this content (leaf certificate only, time attribute iff asked)
pub fn stamp_ok(v: &ValueSigningBlock, c: &Cfg, dw: &[Vec<u8>], ts: Option<(u64, u64)>) {
    let b = match v { ValueSigningBlock::SourceStampBlock(b) => &b.stamp_block, _ => { k::check(false, "stamp pair expected"); return } };
    k::check(b.signatures.signatures_data.len() == 1, "one signature"); let sig = &b.signatures.signatures_data[0].signature; let a = &b.signed_data.additional_attributes.additional_attributes_data; let mut aw = vec![];
    match ts { None => {} Some((lo, hi)) => { if a.len() == 1 && a[0].data.len() == 8 { let t = get64(&a[0].data, 0); k::check(lo <= t && t <= hi, "time of the stamp"); aw.push(attr(TIME_ATTR, &a[0].data)); } else { k::check(false, "time attribute expected") } } }
    let signed = stamp_signed(dw, &[lp(&c.cert)], &aw); k::check(same(&v.to_u8(), &stamp_pair(&signer(&signed, &[rec(c.id(), sig)], &ref_pub(&c.sk)))), "stamp holds the digests, certificate, key, attributes and signature given");
    k::check(ref_verify(c.id(), &ref_pub(&c.sk), &signed, sig), "stamp signature verifies over the stored signed data");
}
pub fn as_stamp(s: SourceStamp) -> ValueSigningBlock { ValueSigningBlock::SourceStampBlock(s) }
