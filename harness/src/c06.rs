//! no module file, however malformed, makes any module operation panic, overflow, read out of bounds or over-allocate
use crate::{k, util::*};
use ksusig::{Module, Signable, SignableFile, SigningBlock};
fn all(f: &[u8]) {
    let p = k::put_file("m", f); let a = algo();
    match SignableFile::open(&p) { Err(_) => k::cover(1), Ok(s) => {
        let _ = s.format(); let d = s.digest(&a); let r = s.digest_regions(); let b = s.signing_block(); if d.is_ok() { k::cover(2); } if let Ok(Some(_)) = &b { k::cover(3); }
        let nb = SigningBlock::new(vec![]).unwrap(); let mut o = vec![]; let w = s.write_with_signature(&mut o, &nb); if w.is_ok() { k::cover(4); k::check(o.len() <= f.len() + 32, "output longer than input plus block"); }
        k::observe("ok", &[d.is_ok() as u8, r.is_ok() as u8, b.is_ok() as u8, w.is_ok() as u8]);
    } }
    if let Ok(m) = Module::new(p.clone()) { let _ = m.get_signing_block(); let _ = m.get_offsets(); let _ = m.digest(&a); let _ = m.get_raw_module(); let _ = m.is_signed(); let mut o = vec![]; let _ = m.write_with_signature(&mut o); let _ = m.digest_regions(); }
    if let Ok(m) = Module::new_raw(p) { let _ = m.get_signing_block(); let _ = m.get_offsets(); let _ = m.digest(&a); let _ = m.get_raw_module(); let mut o = vec![]; let _ = m.write_with_signature(&mut o); }
}
fn small() { let n = k::range("n", 0, k::param(0) as usize); let mut f = k::bytes("f", n); if n >= 22 { let p = k::range("p", 0, n - 22); f[p..p + 4].copy_from_slice(&EOCD); } all(&f); }
fn window() {
    let b = block(&pairs(k::range("kind", 0, 4))); let at = 2 + b.len(); let mut f = cat(&[b"PK", &b, b"C", &eocd(&[0; 12], at as u32, b"c"), b"t"]);
    let w = k::param(0) as usize; let p = k::range("at", 0, f.len() - w); k::fill(&mut f[p..p + w], "w"); all(&f);
}
/// directory offset and block size fields free at the same time
fn offsets() {
    let b = block(&pairs(k::range("kind", 0, 2))); let at = 2 + b.len(); let mut f = cat(&[b"PK", &b, b"CD", &eocd(&[0; 12], at as u32, &[])]); let e = f.len() - 22;
    k::fill(&mut f[e + 16..e + 20], "cd"); let which = k::range("which", 0, 1); let q = if which == 0 { 2 } else { at - 24 }; k::fill(&mut f[q..q + 8], "size"); all(&f);
}
k::table!(small, window, offsets);
