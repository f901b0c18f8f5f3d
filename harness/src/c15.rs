//! ELF digest: the documented function of the bytes of the selected sections in file order, and of nothing else
use crate::{k, util::*, elfx::*};
use ksusig::file_formats::elf::{digest::digest_elf_sections, ElfFile};
use ksusig::{Algorithms, SignableFile};
fn refd(parts: &[&[u8]], a: &Algorithms) -> Vec<u8> { let h = hash_of(a); let mut l = vec![]; for p in parts { chunks(p, 1 << 20, h, &mut l); } finish(&l, h) }
fn conform() {
    let c = C::any(); let a = algo(); let m = k::param(0) as usize; let (t, r) = (k::bytes("text", k::range("nt", 1, m)), k::bytes("ro", k::range("nr", 1, 2))); let other = k::bytes("other", 2); let swap = k::flag("swap");
    let l: Vec<(&str, u64, &[u8])> = if swap { vec![(".rodata", 1, &r), (".data", 1, &other), (".text", 1, &t)] } else { vec![(".text", 1, &t), (".data", 1, &other), (".rodata", 1, &r)] }; let f = c.build(&l, &other);
    let mut s = match SignableFile::open(&k::put_file("e", &f)) { Ok(s) => s, Err(_) => { k::check(false, "well-formed ELF refused"); return; } }; let d = s.digest(&a).ok(); let want = if swap { refd(&[&r, &t], &a) } else { refd(&[&t, &r], &a) }; k::check(d.as_deref().map_or(false, |d| same(d, &want)), "digest is not the documented one"); k::cover(1);
    k::check(s.set_elf_sections(vec![".rodata".to_string()]).is_ok(), "single section"); k::check(s.digest(&a).ok().map_or(false, |d| same(&d, &refd(&[&r], &a))), "digest of one section"); k::observe("n", &[want.len() as u8]);
}
/// sections that overlap or contain each other, and one before the other in the request but behind it in the file
fn overlap() {
    let c = C::any(); let a = algo(); let t = k::bytes("text", 4); let mut f = c.build(&[(".rodata", 1, b"r"), (".text", 1, &t)], b"tail"); let h = c.sh(&f, 2); let (o, z) = (h.off as usize + k::range("o", 0, 4), k::range("z", 1, 4)); c.setf(&mut f, 1, 4, o as u64); c.setf(&mut f, 1, 5, z as u64); let e = match ElfFile::new(k::put_file("e", &f)) { Ok(e) => e, Err(_) => { k::check(false, "well-formed ELF refused"); return; } };
    let d = match e.digest(&a) { Ok(d) => d, Err(_) => { k::check(false, "overlapping sections refused"); return; } }; let ok = same(&d, &refd(&[&t, &f[o..o + z]], &a)); k::check(ok || (o as u64 == h.off && same(&d, &refd(&[&f[o..o + z], &t], &a))), "digest of overlapping sections"); k::cover(1);
}
/// section place and size free: digest of exactly those bytes, or an error when they are not all in the file
fn place() {
    let c = C::any(); let a = Algorithms::ECDSA_SHA2_256; let data = k::bytes("d", 6); let mut f = c.build(&[(".text", 1, &data), (".rodata", 1, b"r")], b"end"); let which = k::range("which", 0, 2); if which != 1 { c.anyf(&mut f, 1, 4, "off"); } if which != 0 { c.anyf(&mut f, 1, 5, "size"); } let h = c.sh(&f, 1); if which == 2 { let n = f.len() as u64; k::assume((h.size <= 8 || h.size > n - 3) && (h.off <= 3 || (h.off >= n - 6))); }
    if h.off <= f.len() as u64 { k::concrete(h.off); } if h.size <= f.len() as u64 { k::concrete(h.size); }
    let mut e = match ElfFile::new(k::put_file("e", &f)) { Ok(e) => e, Err(_) => { k::cover(4); return; } }; e.set_signed_sections(vec![".text".to_string()]).unwrap(); let r = e.digest(&a);
    if h.size == 0 || h.off.checked_add(h.size).map_or(true, |x| x > f.len() as u64) { k::cover(1); k::check(r.is_err(), "section that is not in the file was digested"); } else { k::cover(2); let (o, n) = (k::concrete(h.off) as usize, k::concrete(h.size) as usize); k::check(r.ok().map_or(false, |d| same(&d, &refd(&[&f[o..o + n]], &a))), "digest covers the section's bytes"); }
}
fn tamper() {
    let a = algo(); let mk = |x: &str| (k::bytes(x, k::range("n1", 1, 3)), k::bytes("y", k::range("n2", 1, 2))); let d = |p: &(Vec<u8>, Vec<u8>)| { let f = cat(&[&p.0, b"gap", &p.1]); digest_elf_sections(&mut std::io::Cursor::new(&f), &[("a".to_string(), 0, p.0.len() as u64), ("b".to_string(), p.0.len() as u64 + 3, p.1.len() as u64)], &a).unwrap() };
    let (p, q) = (mk("x1"), mk("x2")); let eq = same(&p.0, &q.0) && same(&p.1, &q.1); k::check(same(&d(&p), &d(&q)) == eq, "digest does not identify the sections"); if eq { k::cover(1) } else { k::cover(2) }
}
fn big() { let a = algo(); let n = (1usize << 20) + k::range("n", 0, 2) - 1; let mut x = vec![0x22u8; n]; k::fill(&mut x[n - 2..], "x"); let f = cat(&[b"h", &x, b"t"]); let d = digest_elf_sections(&mut std::io::Cursor::new(&f), &[("a".to_string(), 1, n as u64)], &a).unwrap(); k::check(same(&d, &refd(&[&x], &a)), "digest around the chunk size"); k::cover(1); }
k::table!(conform, overlap, place, tamper, big);
