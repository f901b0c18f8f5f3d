//! signing an ELF adds or replaces only .ksu_sign: every other byte, header field and section survives; the block reads back; digests are unchanged
use crate::{k, util::*, elfx::*};
use ksusig::file_formats::elf::ElfFile;
use ksusig::{Signable, SignableFile, SigningBlock};
fn sb(w: &[u8]) -> SigningBlock { SigningBlock::from_u8(&block(w)).unwrap() }
fn judge(c: C, f: &[u8], o: &[u8], b: &SigningBlock) {
    let n = c.shnum(f); let old = c.find(f, b".ksu_sign"); let m = c.shnum(o); k::check(m == n + old.is_none() as usize, "number of sections");
    // original bytes behind the header
    k::check(o.len() >= f.len() && same(&o[c.ehs()..f.len()], &f[c.ehs()..]), "bytes of the original file");
    let mut h1 = f[..c.ehs()].to_vec(); let mut h2 = o[..c.ehs()].to_vec(); for p in [c.e_shoff(), c.e_shnum(), c.e_shentsize()] { h1[p.0..p.0 + p.1].fill(0); h2[p.0..p.0 + p.1].fill(0); } k::check(same(&h1, &h2), "ELF header fields"); k::check(c.gf(o, c.e_shentsize()) == c.shs() as u64, "section header size");
    let st = c.gf(f, c.e_shstrndx()) as usize;
    for i in 0..n { let (x, y) = (c.sh(f, i), c.sh(o, i)); if Some(i) == old { continue; }
        k::check(c.name(f, i) == c.name(o, i), "section names"); k::check(x.ty == y.ty && x.flags == y.flags && x.addr == y.addr && x.link == y.link && x.info == y.info && x.align == y.align && x.ent == y.ent && x.name == y.name, "section header fields");
        if i != st { k::check(x.off == y.off && x.size == y.size, "section place"); } else { k::check(y.size >= x.size && y.off + y.size <= o.len() as u64 && same(&c.data(o, i)[..x.size as usize], c.data(f, i)), "names kept"); k::check(y.off == x.off || y.off as usize >= f.len() && (x.align == 0 || y.off % x.align == 0), "name table moved over existing bytes or unaligned"); } }
    let s = match c.find(o, b".ksu_sign") { Some(s) => s, None => { k::check(false, "no signature section"); return; } }; k::check((0..m).filter(|i| c.name(o, *i) == b".ksu_sign").count() == 1, "exactly one signature section");
    let h = c.sh(o, s); k::check(h.ty == 1 && h.flags == 0 && h.addr == 0 && h.link == 0 && h.info == 0 && h.ent == 0 && h.align == if c.c64 { 8 } else { 4 } && h.off % h.align == 0, "signature section header"); k::check(same(c.data(o, s), &b.to_u8()), "signature section holds the block"); k::check(h.off as usize >= f.len(), "block placed over existing bytes");
    let so = c.shat(o, 0); k::check(so >= f.len() && so + m * c.shs() <= o.len(), "section header table in place"); k::check(so % if c.c64 { 8 } else { 4 } == 0, "section header table unaligned");
}
fn make(c: C) -> (Vec<u8>, bool) {
    let signed = k::flag("signed"); let (t, r) = (k::bytes("text", k::range("nt", 1, 2)), k::bytes("ro", 1)); let old = block(&pairs(1)); let nb = k::range("nbss", 0, 1) * 5; let z = vec![0u8; nb]; let mut l: Vec<(&str, u64, &[u8])> = vec![(".text", 1, &t), (if !signed && k::flag("alike") { ".ksu_sign2" } else { ".bss" }, 8, &z), (".rodata", 1, &r)]; if signed { l.insert(k::range("pos", 0, 3), (".ksu_sign", 1, &old)); }
    let tail = k::bytes("tail", k::range("ntail", 0, 2)); let mut f = c.build(&l, &tail); (f, signed)
}
fn write() {
    let c = C::any(); let (mut f, signed) = make(c); let i = c.find(&f, b".text").unwrap(); for (j, n) in [(2usize, "flags"), (3, "addr"), (6, "link"), (7, "info"), (8, "align"), (9, "ent")] { c.anyf(&mut f, i, j, n); } k::fill(&mut f[24..28], "entry");
    let st = c.shnum(&f) - 1; c.setf(&mut f, st, 8, k::pick("stalign", &[1u64, 0, 32])); if signed { let i = c.find(&f, b".ksu_sign").unwrap(); c.setf(&mut f, i, 1, k::pick("otype", &[1u64, 8, 7])); for (j, n) in [(2usize, "oflags"), (3, "oaddr"), (6, "olink"), (7, "oinfo"), (8, "oalign"), (9, "oent")] { c.anyf(&mut f, i, j, n); } }
    let p = k::put_file("e", &f); let e = match ElfFile::new(p) { Ok(e) => e, Err(_) => { k::check(false, "well-formed ELF refused"); return; } }; let b = sb(&pairs(k::range("kind", 0, 4))); let mut o = vec![];
    match e.write_with_signature(&mut o, &b) { Ok(()) => { k::cover(1 + signed as u32); judge(c, &f, &o, &b); } Err(_) => { k::check(false, "well-formed ELF cannot be signed"); return; } }
    let g = match ElfFile::new(k::put_file("o", &o)) { Ok(g) => g, Err(_) => { k::check(false, "signed ELF is not an ELF"); return; } };
    match g.get_signing_block() { Ok(Some(x)) => k::check(x.content == b.content && same(&x.to_u8(), &b.to_u8()), "block read back differs"), _ => k::check(false, "block not read back") } k::check(g.is_signed(), "signed ELF counts as unsigned");
    let a = ksusig::Algorithms::ECDSA_SHA2_256; match (e.digest(&a), g.digest(&a)) { (Ok(x), Ok(y)) => k::check(same(&x, &y), "digest changed by signing"), _ => k::check(false, "digest of a signed ELF") } k::check(e.resolved_sections().unwrap() == g.resolved_sections().unwrap(), "signed sections moved");
    let b2 = sb(&pairs(5)); let mut o2 = vec![]; match g.write_with_signature(&mut o2, &b2) { Ok(()) => judge(c, &o, &o2, &b2), Err(_) => k::check(false, "cannot re-sign") }
    match ElfFile::new(k::put_file("o2", &o2)).map(|x| x.get_signing_block()) { Ok(Ok(Some(x))) => k::check(x.content == b2.content, "re-signing does not replace the block"), _ => k::check(false, "re-signed block not read back") }
}
/// section reading: present / empty / absent / out of file / undecodable
fn read() {
    let c = C::any(); let b = block(&pairs(k::range("kind", 0, 3))); let mut f = c.build(&[(".text", 1, b"x"), (".ksu_sign", 1, &b)], b"tt"); let j = k::pick("field", &[4usize, 5]); let o = c.sh(&f, 2); c.anyf(&mut f, 2, j, "v"); let h = c.sh(&f, 2);
    let e = match ElfFile::new(k::put_file("e", &f)) { Ok(e) => e, Err(_) => { k::cover(4); return; } }; let r = e.get_signing_block();
    if h.size == 0 { k::cover(1); k::check(matches!(r, Ok(None)), "empty signature section is no signature"); } else if h.off.checked_add(h.size).map_or(true, |x| x > f.len() as u64) { k::cover(2); k::check(r.is_err(), "signature section outside the file accepted"); }
    else { let (s, n) = (k::concrete(h.off) as usize, k::concrete(h.size) as usize); match (SigningBlock::from_u8(&f[s..s + n]), r) { (Ok(x), Ok(Some(y))) => { k::cover(3); k::check(x.content == y.content && same(&x.to_u8(), &y.to_u8()), "block decoded from the section"); k::check(y.file_offset_start == s + x.file_offset_start && y.file_offset_end == s + x.file_offset_end, "place of the block in the file"); } (Err(_), Err(_)) => {} _ => k::check(false, "signature section decoded differently from its bytes") } }
    let _ = o;
}
fn absent() { let c = C::any(); let f = c.build(&[(".text", 1, b"x"), (".ksu_sig", 1, b"x"), (".ksu_sign2", 1, &block(&[]))], &block(&[])); let e = ElfFile::new(k::put_file("e", &f)).unwrap(); k::check(matches!(e.get_signing_block(), Ok(None)) && !e.is_signed(), "unsigned ELF counts as signed"); k::cover(1); }
k::table!(write, read, absent);
