//! certificates built from the X.509 definition; signatures over the to-be-signed bytes
use crate::{k, keyx::*, sigx::*, util::*};
fn name(n: &str) -> Vec<u8> { der(0x30, &[&der(0x31, &[&der(0x30, &[&[6, 3, 0x55, 4, 3], &der(0x0c, &[n.as_bytes()])])])]) }
#[derive(Clone, Copy, PartialEq)]
pub enum When { Ok, Past, Future }
#[derive(Clone, Copy, PartialEq)]
pub enum Use { Code, Web, None, Both }
#[derive(Clone)]
pub struct X { pub subject: &'static str, pub issuer: &'static str, pub key: Vec<u8>, pub by: Vec<u8>, pub when: When, pub ca: bool, pub eku: Use, pub serial: u8 }
const CODE: &[u8] = &[6, 8, 0x2b, 6, 1, 5, 5, 7, 3, 3];
const WEB: &[u8] = &[6, 8, 0x2b, 6, 1, 5, 5, 7, 3, 1];
/// secret of a named identity (fixed)
pub fn ident(n: u8, p384: bool) -> Vec<u8> { let mut v = vec![2u8; if p384 { 48 } else { 32 }]; v[5] = n; v }
/// raw signature as certificates carry it: by the issuer over the TBS bytes
pub fn raw_sign(key: &[u8], m: &[u8]) -> Vec<u8> {
    macro_rules! go { ($c:ident) => {{ use $c::ecdsa::{signature::Signer, Signature, SigningKey}; let s: Signature = SigningKey::from_slice(key).unwrap().sign(m); s.to_der().as_bytes().to_vec() }} }
    if key.len() == 48 { go!(p384) } else { go!(p256) }
}
impl X {
    pub fn leaf(key: Vec<u8>, issuer: &'static str, by: Vec<u8>) -> X { X { subject: "leaf", issuer, key, by, when: When::Ok, ca: false, eku: Use::Code, serial: 7 } }
    pub fn ca(subject: &'static str, key: Vec<u8>, issuer: &'static str, by: Vec<u8>) -> X { X { subject, issuer, key, by, when: When::Ok, ca: true, eku: Use::None, serial: 3 } }
    pub fn der(&self) -> Vec<u8> {
        let alg = der(0x30, &[if self.by.len() == 48 { &[6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3] } else { &[6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2] }]); let t = |s: &str| der(0x17, &[s.as_bytes()]); let g = |s: &str| der(0x18, &[s.as_bytes()]);
        let val = match self.when { When::Ok => der(0x30, &[&t("000101000000Z"), &g("20900101000000Z")]), When::Past => der(0x30, &[&t("900101000000Z"), &t("000101000000Z")]), When::Future => der(0x30, &[&g("20900101000000Z"), &g("20990101000000Z")]) };
        let bc = der(0x30, &[&[6, 3, 0x55, 0x1d, 0x13], &[1, 1, 0xff], &der(4, &[if self.ca { &[0x30, 3, 1, 1, 0xff] } else { &[0x30, 0] }])]);
        let list = match self.eku { Use::Code => CODE.to_vec(), Use::Web => WEB.to_vec(), Use::Both => cat(&[WEB, CODE]), Use::None => vec![] };
        let eku = if self.eku == Use::None { vec![] } else { der(0x30, &[&[6, 3, 0x55, 0x1d, 0x25], &der(4, &[&der(0x30, &[&list])])]) };
        let tbs = der(0x30, &[&der(0xa0, &[&[2, 1, 2]]), &[2, 1, self.serial], &alg, &name(self.issuer), &val, &name(self.subject), &ref_pub(&self.key), &der(0xa3, &[&der(0x30, &[&bc, &eku])])]);
        let s = if self.by.is_empty() { vec![0x30, 1, 0] } else { raw_sign(&self.by, &tbs) }; der(0x30, &[&tbs, &alg, &der(3, &[&[0], &s])])
    }
}
