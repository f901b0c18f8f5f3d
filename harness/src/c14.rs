//! section selection: exactly the requested sections, in file order, or an error - never a silent omission
use crate::{k, util::*, elfx::*};
use ksusig::file_formats::elf::{ElfError, ElfFile};
const NAMES: [&str; 10] = [".text", ".TEXT", ".rodata", ".bss", ".empty", ".missing", " .text\t", "", ".KSU_sign", ".tex"];
fn select() {
    let c = C::any(); let bss = [0u8; 4]; let mut f = c.build(&[(".rodata", 1, b"ro"), (".text", 1, b"code"), (".bss", 8, &bss), (".empty", 1, b""), (".text", 1, b"second"), (".ksu_sign", 1, b"")], &[]);
    // free places, in the file or beyond it, for the two ordinary sections
    let mut inside = true; for (i, n) in [(1usize, "o1"), (2, "o2")] { c.anyf(&mut f, i, 4, n); let h = c.sh(&f, i); if h.off > (f.len() - 8) as u64 { inside = false } }
    let mut e = match ElfFile::new(k::put_file("e", &f)) { Ok(e) => e, Err(_) => { k::check(!inside, "well-formed ELF refused"); return; } };
    let n = k::range("n", 0, k::param(0) as usize); let l: Vec<&str> = (0..n).map(|_| k::pick("name", &NAMES)).collect(); let dflt = k::flag("default");
    let want: Vec<&str> = if dflt { vec![".text", ".rodata"] } else { l.iter().map(|s| s.trim()).filter(|s| !s.is_empty()).collect() };
    if !dflt { let r = e.set_signed_sections(l.iter().map(|s| s.to_string()).collect()); if want.is_empty() || want.iter().any(|s| s.eq_ignore_ascii_case(".ksu_sign")) { k::cover(1); k::check(r.is_err(), "unusable section list accepted"); match e.resolved_sections() { Ok(v) => k::check(v.len() == 2, "refused list takes effect"), Err(_) => k::check(false, "refused list takes effect") } return; } k::check(r.is_ok(), "usable section list refused"); }
    let r = e.resolved_sections(); let g = e.digest_regions();
    if want.iter().any(|s| !matches!(*s, ".text" | ".rodata")) { k::cover(2); k::check(r.is_err() && g.is_err() && e.digest(&ksusig::Algorithms::ECDSA_SHA2_256).is_err(), "section without data accepted"); if want.iter().all(|s| matches!(*s, ".text" | ".rodata" | ".missing" | ".tex" | ".TEXT")) { k::check(matches!(r, Err(ElfError::MissingSection(_))), "missing section not named"); } return; }
    let (v, g) = match (r, g) { (Ok(v), Ok(g)) => (v, g), _ => { k::check(!inside, "present sections refused"); return; } }; k::cover(3);
    k::check(v.len() == want.len(), "number of sections"); for i in 0..v.len() { let j = if v[i].0 == ".text" { 2 } else { 1 }; let h = c.sh(&f, j); k::check(v[i].1 == h.off && v[i].2 == h.size && (v[i].0 == ".text" || v[i].0 == ".rodata"), "place of a section"); if i > 0 { k::check(v[i - 1].1 <= v[i].1, "file order"); } k::check(g[i].name == v[i].0 && g[i].offset == v[i].1 && g[i].size == v[i].2, "regions match sections"); }
    for s in [".text", ".rodata"] { k::check(v.iter().filter(|x| x.0 == s).count() == want.iter().filter(|x| **x == s).count(), "requested sections"); }
}
k::table!(select);
