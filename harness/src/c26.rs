//! serialised blocks come back unchanged; fingerprints are of the whole certificate
#[path = "serx.rs"] mod serx;
use crate::{k, util::*};
use ksusig::common::Certificate;
use ksusig::{Algorithms, SigningBlock};
use serx::again;
/// a list of records with free ids and bytes
fn recs(n: &str) -> Vec<Vec<u8>> { (0..k::range(n, 0, k::param(0) as usize)).map(|_| { let l = k::range("len", 0, 2); rec(k::u32("alg"), &k::bytes("d", l)) }).collect() }
fn content() -> Vec<u8> {
    match k::range("kind", 0, 4) {
        0 => { let id = k::u32("id"); k::assume(id != ID_V2 && id != ID_STAMP && id != ID_ELF); let l = k::range("len", 0, 3); cat(&[&pair(id, &k::bytes("raw", l)), &pair(0x77, &[])]) }
        1 => { let (d, s) = (recs("nd"), recs("ns")); let c: Vec<Vec<u8>> = (0..k::range("ncert", 0, 2)).map(|_| lp(&k::bytes("cert", 2))).collect(); let a: Vec<Vec<u8>> = (0..k::range("na", 0, 1)).map(|_| attr(k::u32("aid"), &k::bytes("attr", 2))).collect(); let x = signer(&v2_signed(&d, &c, &a), &s, &k::bytes("pk", 2)); match k::range("signers", 0, 2) { 0 => v2_pair(&[]), 1 => v2_pair(&[x]), _ => v2_pair(&[x.clone(), x]) } }
        2 => { let (d, s) = (recs("nd"), recs("ns")); let a: Vec<Vec<u8>> = (0..k::range("na", 0, 2)).map(|_| attr(k::u32("aid"), &k::bytes("attr", 1))).collect(); stamp_pair(&signer(&stamp_signed(&d, &[lp(&k::bytes("cert", 1))], &a), &s, &k::bytes("pk", 2))) }
        3 => { let (o, s) = (k::u64("off"), k::u64("size")); let l: Vec<(&[u8], u64, u64)> = vec![(b".text", o, s), ("\u{e9}".as_bytes(), 7, o)]; elf_pair(&l[..k::range("n", 0, 2)]) }
        _ => cat(&[&pairs(2), &pairs(3), &pairs(1), &elf_pair(&[(b"a", 1, 2)])]),
    }
}
fn tree() {
    let w = block(&content()); let mut b = SigningBlock::from_u8(&w).unwrap(); if k::flag("moved") { b.offset_by(k::range("by", 1, 2)); } let names = k::flag("names");
    match again(&b, names) { Some(c) => { k::check(c == b, "block changed by serialisation"); k::check(same(&c.to_u8(), &w), "bytes changed by serialisation"); k::cover(1 + names as u32) } None => k::check(false, "serialised block cannot be read") }
}
fn algorithm() { let id = k::u32("id"); let a = Algorithms::from(id); match again(&a, k::flag("names")) { Some(x) => { k::check(x == a && x.to_u32() == id, "algorithm changed by serialisation"); k::cover(1) } None => k::check(false, "serialised algorithm cannot be read") } }
fn prints() {
    use sha1::Digest; let v = k::bytes("cert", k::range("n", 0, k::param(0) as usize)); let c = if k::flag("parsed") { Certificate::parse(&mut ksusig::MyReader::new(&lp(&v))).unwrap() } else { Certificate::new(v.clone()) };
    k::check(same(&c.sha256_cert(), &sha256(&v)), "SHA-256 fingerprint"); k::check(same(&c.sha1_cert(), &sha1::Sha1::digest(&v)), "SHA-1 fingerprint"); k::check(same(&c.md5_cert(), &md5::compute(&v)[..]), "MD5 fingerprint"); k::cover(1);
}
k::table!(tree, algorithm, prints);
