//! no ELF file, however malformed, makes any ELF operation panic, overflow or over-allocate
use crate::{k, util::*, elfx::*};
use ksusig::file_formats::elf::ElfFile;
use ksusig::{Signable, SignableFile, SigningBlock};
/// places inside the file: one path per value (keeps the solver's terms small; nothing is excluded)
fn split(c: C, f: &[u8], i: usize) { let h = c.sh(f, i); let n = f.len() as u64; if h.off <= n { k::concrete(h.off); } if h.size <= n { k::concrete(h.size); } }
fn all(f: &[u8]) {
    let p = k::put_file("e", f); let a = ksusig::Algorithms::ECDSA_SHA2_256; let nb = SigningBlock::new(vec![]).unwrap();
    match SignableFile::open(&p) { Err(_) => k::cover(1), Ok(s) => { k::cover(2); let d = s.digest(&a); let r = s.digest_regions(); let b = s.signing_block(); let mut o = vec![]; let w = s.write_with_signature(&mut o, &nb); if d.is_ok() { k::cover(3); } if w.is_ok() { k::cover(4); } k::observe("ok", &[d.is_ok() as u8, r.is_ok() as u8, b.is_ok() as u8, w.is_ok() as u8]);
        if let Ok(e) = ElfFile::new(p) { let _ = e.is_signed(); let _ = e.resolved_sections(); } } }
}
fn base(c: C) -> Vec<u8> { let b = block(&pairs(5)); c.build(&[(".text", 1, b"code"), (".rodata", 1, b"ro"), (".ksu_sign", 1, &b)], b"t") }
/// any window of w bytes of the ELF header or of a section header replaced by free bytes
fn window() { let c = C::any(); let mut f = base(c); let w = k::param(0) as usize; let n = f.len(); let (lo, hi) = if k::flag("sht") { (c.shat(&f, 0), n - 1 - w) } else { (0, c.ehs() - w) }; let p = k::range("at", lo, hi); let al = c.shat(&f, 4) + c.f()[8].0; k::assume(p + w <= al || p >= al + c.f()[8].1); k::fill(&mut f[p..p + w], "w"); if p >= c.shat(&base(c), 0) { for i in 0..5 { split(c, &f, i); } } all(&f); }
/// every field of one section header free, one at a time and pairwise offset+size, name+align
fn fields() { let c = C::any(); let mut f = base(c); let i = k::range("sec", 0, 4); let j = k::range("field", 0, 9); c.anyf(&mut f, i, j, "v"); if k::param(0) > 0 && k::flag("two") { let j2 = k::pick("field2", &[4usize, 5, 8]); if j2 != j && (j2 == 8 || i < 4 || j < 4 || j > 5) { c.anyf(&mut f, i, j2, "v2"); } } split(c, &f, i); if i == 4 { let a = c.sh(&f, 4).align; k::assume(a <= 8 || a == 64 || a >= 65535); if a <= 65536 { k::concrete(a); } } all(&f); }
fn short() { let c = C::any(); let f = base(c); let n = k::range("len", 0, f.len()); all(&f[..n]); }
/// header fields e_shoff, e_shnum, e_shstrndx free together
fn header() { let c = C::any(); let mut f = base(c); for (n, p) in [("shoff", c.e_shoff()), ("shnum", c.e_shnum()), ("shstrndx", c.e_shstrndx())] { if k::flag("use") { k::fill(&mut f[p.0..p.0 + p.1], n); } } all(&f); }
k::table!(window, fields, short, header);
