//! format detection and the format-independent wrapper
use crate::{k, util::*, elfx::*};
use ksusig::signable::detect_file_format;
use ksusig::{FileFormat, Module, Signable, SignableError, SignableFile};
fn expect(f: &[u8]) -> Option<FileFormat> { if f.len() < 4 { None } else if same(&f[..4], b"\x7fELF") { Some(FileFormat::Elf) } else if same(&f[..2], b"PK") || ref_eocd(f).is_some() { Some(FileFormat::Module) } else { None } }
fn judge(f: &[u8]) {
    let p = k::put_file("f", f); let w = expect(f);
    match (detect_file_format(&p), &w) { (Ok(x), Some(y)) => { k::check(x == *y, "format"); k::cover(if *y == FileFormat::Elf { 1 } else { 2 }) } (Err(e), None) => { k::check(f.len() < 4 || matches!(e, SignableError::InvalidFormat(_)), "unknown format named as such"); k::cover(3) } _ => k::check(false, "format detected wrongly") }
    match SignableFile::open(&p) { Ok(s) => k::check(Some(s.format()) == w && matches!(s, SignableFile::Module(_)) == (w == Some(FileFormat::Module)), "opened as the detected format"), Err(_) => k::check(w != Some(FileFormat::Module) || f.len() < 22 || ref_eocd(f).is_none() || matches!(ref_zip(f), Zip::Bad | Zip::Corrupt), "recognised module not opened") }
    if let Ok(s @ SignableFile::Module(_)) = SignableFile::open(&p) { answers(&s, f) }
    k::check(same(&k::get_file(&p).unwrap(), f), "file changed by looking at it");
}
/// every question asked of an opened module gets the answer its bytes give: no archive or a damaged block is an error, never "unsigned"
fn answers(s: &SignableFile, f: &[u8]) {
    let a = ksusig::Algorithms::ECDSA_SHA2_256; let nb = ksusig::SigningBlock::from_u8(&block(&pair(9, &[]))).unwrap(); let mut o = vec![]; let (b, d, r, w) = (s.signing_block(), s.digest(&a), s.digest_regions(), s.write_with_signature(&mut o, &nb));
    let (c, cd, e, signed) = match ref_zip(f) { Zip::Unsigned { cd, e } => (cd, cd, e, false), Zip::Signed { start, cd, e } => (start, cd, e, true), Zip::Bad => { k::check(b.is_err() && d.is_err() && r.is_err() && w.is_err() && o.is_empty(), "file without a usable end record answered as a module"); return } Zip::Corrupt => { k::check(b.is_err() && d.is_err() && r.is_err() && w.is_err() && o.is_empty(), "damaged block passed over"); k::cover(5); return } };
    let m = Mod { content: f[..c].to_vec(), cd: f[cd..e].to_vec(), end: f[e..].to_vec() };
    match b { Ok(x) => k::check(x.is_some() == signed, "signing block reported wrongly"), Err(_) => k::check(false, "signing block of a well-formed module refused") }
    match r { Ok(r) => k::check(r.len() == 3 && r[0].offset == 0 && r[0].size == c as u64 && r[1].offset == cd as u64 && r[1].size == (e - cd) as u64 && r[2].offset == e as u64 && r[2].size == (f.len() - e) as u64, "regions"), Err(_) => k::check(false, "regions refused") }
    match d { Ok(d) => k::check(same(&d, &m.digest(&a)), "digest"), Err(_) => k::check(false, "digest refused") }
    match w { Ok(()) => k::check(same(&o, &m.with(&nb.to_u8())), "written differently"), Err(_) => k::check(false, "writing refused") } k::cover(4);
}
/// every file of up to 4+ bytes, and every small file
fn tiny() { let n = k::range("n", 0, k::param(0) as usize); judge(&k::bytes("f", n)) }
/// a record anywhere behind a free start
fn record() { let mut f = k::bytes("head", k::range("nh", 0, 5)); let at = f.len(); f.extend_from_slice(&eocd(&[0; 12], at as u32, &[])); let nt = k::range("nt", 0, 3); f.extend_from_slice(&k::bytes("tail", nt)); if k::flag("damage") { let i = k::range("i", 0, 3); k::fill(&mut f[at + i..at + i + 1], "d"); } judge(&f) }
/// the wrapper does what the format's own code does
fn wrapper() {
    let m = Mod::any(4, 2, 1, 1); let kind = k::range("kind", 0, 3); let f = if kind == 0 { m.bytes() } else { m.with(&block(&pairs(kind))) }; k::assume(kind > 0 || m.content.len() < 16); k::assume(f[0] != 0x7f); let p = k::put_file("f", &f); let a = algo();
    let mut s = match SignableFile::open(&p) { Ok(s) => s, Err(_) => { k::check(false, "module not opened"); return } }; let t = Module::new(p.clone()).unwrap();
    k::check(s.format() == FileFormat::Module && Signable::format(&t) == FileFormat::Module, "format"); k::check(s.set_elf_sections(vec![".text".to_string()]).is_err(), "ELF sections accepted for a module");
    match s.digest(&a) { Ok(d) => k::check(same(&d, &m.digest(&a)), "digest through the wrapper"), Err(_) => k::check(false, "digest refused") }
    match (s.signing_block(), kind) { (Ok(None), 0) => { k::check(!Signable::is_signed(&t), "is_signed"); k::cover(1) } (Ok(Some(b)), x) if x > 0 => { k::check(same(&b.to_u8(), &block(&pairs_again(kind, &b))), "block through the wrapper"); k::check(Signable::is_signed(&t), "is_signed"); k::cover(2) } _ => k::check(false, "signing block through the wrapper") }
    let r = s.digest_regions().unwrap(); k::check(r.len() == 3 && r[0].offset == 0 && r[0].size == m.content.len() as u64 && r[1].size == m.cd.len() as u64 && r[2].size == m.end.len() as u64 && r[1].offset == (f.len() - m.end.len() - m.cd.len()) as u64 && r[2].offset == (f.len() - m.end.len()) as u64, "regions");
}
fn pairs_again(_: usize, b: &ksusig::SigningBlock) -> Vec<u8> { b.content_to_u8() }
/// a module whose block has any two neighbouring bytes replaced
fn damaged() {
    let b = block(&pairs(k::range("kind", 1, 3))); let mut f = cat(&[b"PK", &b, b"C", &eocd(&[0; 12], (2 + b.len()) as u32, &[])]); let at = k::range("at", 2, b.len()); k::fill(&mut f[at..at + 2], "w"); let s = match SignableFile::open(&k::put_file("f", &f)) { Ok(s) => s, Err(_) => { k::check(false, "not opened"); return } }; answers(&s, &f)
}
fn elf() {
    let c = C::any(); let (x, y) = (k::bytes("t", 2), k::bytes("r", 1)); let f = c.build(&[(".text", 1, &x), (".rodata", 1, &y)], &[]); let mut s = SignableFile::open(&k::put_file("f", &f)).unwrap(); k::check(s.format() == FileFormat::Elf, "format"); k::check(matches!(s.signing_block(), Ok(None)), "unsigned"); k::check(s.set_elf_sections(vec![".text".to_string()]).is_ok(), "sections");
    let r = s.digest_regions().unwrap(); k::check(r.len() == 1 && r[0].name == ".text" && r[0].size == 2, "regions"); let b = ksusig::SigningBlock::from_u8(&block(&pairs(1))).unwrap(); let mut o = vec![]; k::check(s.write_with_signature(&mut o, &b).is_ok(), "written"); let t = SignableFile::open(&k::put_file("o", &o)).unwrap(); match t.signing_block() { Ok(Some(z)) => { k::check(z.content == b.content, "read back"); k::cover(1) } _ => k::check(false, "read back") }
}
k::table!(tiny, record, wrapper, damaged, elf);
