//! signing inserts the block before the directory and changes nothing else; reading gives the block back; stripping restores the original; re-signing replaces
use crate::{k, util::*};
use ksusig::{Algorithms, Module, Signable, SignableFile, SigningBlock};
fn sb(w: &[u8]) -> SigningBlock { SigningBlock::from_u8(&block(w)).unwrap() }
fn sign(p: &std::path::Path, b: &SigningBlock) -> Option<Vec<u8>> { let mut o = vec![]; SignableFile::open(p).ok()?.write_with_signature(&mut o, b).ok()?; Some(o) }
fn no_block(m: &Mod) { k::assume(m.content.len() < 16 || !same(&m.content[m.content.len() - 16..], KMAGIC)); }
fn readback(out: &[u8], b: &SigningBlock, m: &Mod, a: &Algorithms) {
    let p = k::put_file("out", out); let r = Module::new(p).unwrap();
    match r.get_signing_block() { Ok(x) => { k::check(x.content == b.content && same(&x.to_u8(), &b.to_u8()), "block read back differs"); k::check(x.file_offset_start == m.content.len() && x.file_offset_end == m.content.len() + b.get_full_size(), "block is not between content and directory"); } Err(_) => k::check(false, "own signed module has no readable block") }
    match r.get_raw_module() { Ok(x) => k::check(same(&x, &m.bytes()), "stripping does not restore the original"), Err(_) => k::check(false, "own signed module cannot be stripped") }
    match r.digest(a) { Ok(d) => k::check(same(&d, &m.digest(a)), "digest changed by signing"), Err(_) => k::check(false, "own signed module cannot be digested") }
}
fn splice() {
    let m = Mod::any(k::param(0) as usize, 2, 2, 2); no_block(&m); let a = algo(); let (b1, b2) = (sb(&pairs(k::range("kind", 0, 4))), sb(&pairs(5))); let p = k::put_file("PK", &m.bytes());
    let md = Module::new(p).unwrap(); let mut o = vec![]; match <Module as Signable>::write_with_signature(&md, &mut o, &b1) { Ok(()) => k::check(same(&o, &m.with(&b1.to_u8())), "signed file differs from the original plus the block"), Err(_) => { k::check(false, "well-formed module refused"); return; } }
    readback(&o, &b1, &m, &a);
    let q = k::put_file("s", &o); let md = Module::new(q).unwrap(); let mut o2 = vec![]; match <Module as Signable>::write_with_signature(&md, &mut o2, &b2) { Ok(()) => k::check(same(&o2, &m.with(&b2.to_u8())), "re-signing does not replace the block"), Err(_) => k::check(false, "re-signing refused") }
    let mut o3 = vec![]; match md.write_with_signature(&mut o3) { Ok(()) => k::check(same(&o3, &o), "writing a signed module unchanged alters it"), Err(_) => k::check(false, "signed module cannot be written") }
    k::cover(1);
}
/// signing through the module's own interface, on raw / unsigned / already signed files, once or twice
fn legacy() {
    let m = Mod { content: k::bytes("content", k::range("nc", 0, 2)), cd: k::bytes("cd", 1), end: cat(&[&eocd(&[0; 12], 0, b"c"), &k::bytes("tail", k::range("nt", 0, 1))]) }; let m = Mod { end: { let mut e = m.end.clone(); e[16..20].copy_from_slice(&le32(m.content.len())); e }, ..m };
    let kind = k::range("kind", 0, 2); let f = if kind == 2 { m.with(&block(&pairs(5))) } else { m.bytes() }; let p = k::put_file("m", &f); let p384 = k::flag("p384"); let (key, a) = (key(p384, "key"), if p384 { Algorithms::ECDSA_SHA2_512 } else { Algorithms::ECDSA_SHA2_256 });
    let mut md = if kind == 0 { Module::new_raw(p) } else { Module::new(p) }.unwrap(); k::cover(1 + kind as u32); let times = k::range("times", 1, 2);
    for _ in 0..times { k::check(md.sign_v2(&a, &[9, 9], &key).is_ok(), "signing fails"); }
    let b = match &md.sig { Some(b) => b.clone(), None => { k::check(false, "no block after signing"); return; } };
    k::check(b.get_full_size() % 4096 == 0 && b.to_u8().len() == b.get_full_size() && b.content.len() == 2 && b.content[1].id() == ID_PAD, "block of one signature, padded to 4096");
    match &b.content[0] { ksusig::ValueSigningBlock::SignatureSchemeV2Block(v) => { k::check(v.signers.signers_data.len() == 1, "one signer"); let s = &v.signers.signers_data[0]; k::check(same(&s.signed_data.digests.digests_data[0].digest, &m.digest(&a)), "signed digest is not the module's"); let sd = s.signed_data.to_u8(); k::check(a.verify(&s.pub_key.data, &sd[4..], &s.signatures.signatures_data[0].signature).is_ok(), "signature does not verify"); } _ => k::check(false, "no signature in the block") }
    let mut o = vec![]; k::check(md.write_with_signature(&mut o).is_ok(), "writing fails"); k::check(same(&o, &m.with(&b.to_u8())), "signed file differs from the original plus the block"); readback(&o, &b, &m, &a);
    match md.digest(&a) { Ok(d) => k::check(same(&d, &m.digest(&a)), "digest after signing in memory"), Err(_) => k::check(false, "no digest after signing in memory") }
    let mut o2 = vec![]; match <Module as Signable>::write_with_signature(&md, &mut o2, &b) { Ok(()) => k::check(same(&o2, &o), "both writers agree"), Err(_) => k::check(false, "second writer fails") }
    k::check(b.file_offset_start == m.content.len() && b.file_offset_end == m.content.len() + b.get_full_size(), "offsets of the new block");
}
/// sink that accepts any number of bytes per call and may fail once: success means everything was written
struct Sink { o: Vec<u8>, n: usize, failed: bool }
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let mut t = b.len(); if self.n > 0 && t > 0 { self.n -= 1; match k::range("sink", 0, 3) { 0 => t = 1, 1 => return Err(std::io::ErrorKind::Interrupted.into()), 2 => { self.failed = true; return Err(std::io::Error::other("full")); } _ => {} } } self.o.extend_from_slice(&b[..t]); Ok(t) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn faulty() {
    let m = Mod::any(1, 1, 1, 1); let signed = k::flag("signed"); let b = sb(&pairs(1)); let f = if signed { m.with(&block(&pairs(5))) } else { m.bytes() }; let p = k::put_file("m", &f); let md = Module::new(p).unwrap(); let mut s = Sink { o: vec![], n: 5, failed: false };
    match <Module as Signable>::write_with_signature(&md, &mut s, &b) { Ok(()) => { k::cover(1); k::check(!s.failed, "write error lost"); k::check(same(&s.o, &m.with(&b.to_u8())), "short writes lose data"); } Err(_) => { k::cover(2); k::check(s.failed, "error without a failing write"); } }
}
/// a file whose block is corrupted is refused, never signed on top
fn refuse() {
    let b = block(&pairs(k::range("kind", 0, 3))); let mut f = cat(&[b"xy", &b, b"C", &eocd(&[0; 12], (2 + b.len()) as u32, &[])]); let w = k::param(0) as usize; let at = k::range("at", 2, 2 + b.len() - w); k::fill(&mut f[at..at + w], "w");
    let z = ref_zip(&f); let md = Module::new(k::put_file("m", &f)).unwrap(); let mut o = vec![]; let nb = sb(&pairs(5)); let r = <Module as Signable>::write_with_signature(&md, &mut o, &nb);
    match z { Zip::Signed { start, cd, e } => { k::cover(1); let m = Mod { content: f[..start].to_vec(), cd: f[cd..e].to_vec(), end: f[e..].to_vec() }; k::check(r.is_ok() && same(&o, &m.with(&nb.to_u8())), "re-signing a valid block"); } Zip::Unsigned { cd, e } => { let m = Mod { content: f[..cd].to_vec(), cd: f[cd..e].to_vec(), end: f[e..].to_vec() }; k::check(r.is_ok() && same(&o, &m.with(&nb.to_u8())), "signing a file without a block"); } _ => { k::cover(2); k::check(r.is_err() && o.is_empty(), "file with a corrupted block was signed"); k::check(md.get_raw_module().is_err(), "corrupted block stripped"); } }
}
k::table!(splice, legacy, faulty, refuse);
