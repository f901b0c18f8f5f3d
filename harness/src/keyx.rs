//! independent encoders of key and certificate files
use crate::{k, util::*};
fn seq(tag: u8, v: &[u8]) -> Vec<u8> { let mut o = vec![tag]; let n = v.len(); if n < 128 { o.push(n as u8) } else if n < 256 { o.push(0x81); o.push(n as u8) } else { o.push(0x82); o.push((n >> 8) as u8); o.push(n as u8) } o.extend_from_slice(v); o }
pub fn der(tag: u8, parts: &[&[u8]]) -> Vec<u8> { seq(tag, &cat(parts)) }
pub const EC: &[u8] = &[6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
pub fn curve(p384: bool) -> &'static [u8] { if p384 { &[6, 5, 0x2b, 0x81, 4, 0, 0x22] } else { &[6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7] } }
/// SEC1 ECPrivateKey, optionally naming the curve
pub fn sec1(sk: &[u8], named: bool) -> Vec<u8> { let c = der(0xa0, &[curve(sk.len() == 48)]); der(0x30, &[&[2, 1, 1], &der(4, &[sk]), if named { &c } else { &[] }]) }
pub fn pkcs8(sk: &[u8]) -> Vec<u8> { pkcs8_of(sk, curve(sk.len() == 48), EC) }
pub fn pkcs8_of(sk: &[u8], curve: &[u8], kind: &[u8]) -> Vec<u8> { der(0x30, &[&[2, 1, 0], &der(0x30, &[kind, curve]), &der(4, &[&sec1(sk, false)])]) }
/// base64 without tables (free bytes stay terms)
fn ch(n: u8) -> u8 { let n = n as i16; let mut r = n + 65; r += ((25 - n) >> 8) & 6; r += ((51 - n) >> 8) & -75; r += ((61 - n) >> 8) & -15; r += ((62 - n) >> 8) & 3; r as u8 }
pub fn b64(v: &[u8]) -> Vec<u8> { let mut o = vec![]; for c in v.chunks(3) { let (a, b, d) = (c[0], if c.len() > 1 { c[1] } else { 0 }, if c.len() > 2 { c[2] } else { 0 }); o.push(ch(a >> 2)); o.push(ch((a & 3) << 4 | b >> 4)); o.push(if c.len() > 1 { ch((b & 15) << 2 | d >> 6) } else { b'=' }); o.push(if c.len() > 2 { ch(d & 63) } else { b'=' }); } o }
pub fn pem(tag: &str, v: &[u8], nl: &str) -> Vec<u8> { let mut o = format!("-----BEGIN {}-----{}", tag, nl).into_bytes(); for l in b64(v).chunks(64) { o.extend_from_slice(l); o.extend_from_slice(nl.as_bytes()); } o.extend_from_slice(format!("-----END {}-----{}", tag, nl).as_bytes()); o }
pub fn secret_of(k: &ksusig::PrivateKey) -> Vec<u8> { match k { ksusig::PrivateKey::EcdsaP256(k) => k.to_bytes().to_vec(), ksusig::PrivateKey::EcdsaP384(k) => k.to_bytes().to_vec() } }
/// PKCS#12 file
pub fn p12_of(sk_der: &[u8], cert: &[u8], cas: &[Vec<u8>], pw: &str) -> Vec<u8> { let r: Vec<&[u8]> = cas.iter().map(|x| &x[..]).collect(); p12::PFX::new_with_cas(cert, sk_der, &r, pw, "n").unwrap().to_der() }
