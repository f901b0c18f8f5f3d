//! a module is signed exactly when a well-formed block ends where the central directory starts; offsets and content exact
use crate::{k, util::*};
use ksusig::{Module, Signable, SigningBlock};
fn check(f: &[u8]) {
    let p = k::put_file("m", f); let m = match Module::new(p) { Ok(m) => m, Err(_) => { k::check(false, "existing file cannot be opened"); return; } };
    let via = <Module as Signable>::get_signing_block(&m); let own = m.get_signing_block(); let off = m.get_offsets(); let reg = m.digest_regions();
    match ref_zip(f) {
        Zip::Bad => { k::cover(1); k::check(via.is_err() && own.is_err() && off.is_err() && reg.is_err(), "not a module, yet accepted"); k::check(!m.is_signed(), "not a module, yet signed"); }
        Zip::Corrupt => { k::cover(2); k::check(via.is_err() && own.is_err() && off.is_err() && reg.is_err(), "corrupted block not reported"); k::check(!m.is_signed(), "corrupted block counts as signed"); }
        Zip::Unsigned { cd, e } => {
            k::cover(3); k::check(matches!(via, Ok(None)) && own.is_err(), "unsigned module not reported as unsigned"); k::check(!m.is_signed(), "unsigned module counts as signed");
            match off { Ok(o) => k::check(o.start_content == 0 && o.stop_content == cd && o.start_cd == cd && o.stop_cd == e && o.start_eocd == e && o.stop_eocd == f.len(), "layout of an unsigned module"), Err(_) => k::check(false, "no layout for an unsigned module") }
            match reg { Ok(r) => k::check(r.len() == 3 && (r[0].offset, r[0].size, r[1].offset, r[1].size, r[2].offset, r[2].size) == (0, cd as u64, cd as u64, (e - cd) as u64, e as u64, (f.len() - e) as u64), "regions of an unsigned module"), Err(_) => k::check(false, "no regions for an unsigned module") }
        }
        Zip::Signed { start, cd, e } => {
            k::cover(4); let b = SigningBlock::from_u8(&f[start..cd]).unwrap(); k::check(m.is_signed(), "signed module counts as unsigned");
            match own { Ok(x) => { k::check(x.file_offset_start == start && x.file_offset_end == cd, "offsets of the block"); k::check(x.content == b.content && same(&x.to_u8(), &f[start..cd]), "content of the block"); match via { Ok(Some(y)) => k::check(x == y, "both interfaces agree"), _ => k::check(false, "signed module not reported as signed") } } Err(_) => k::check(false, "block not found") }
            match off { Ok(o) => k::check(o.start_content == 0 && o.stop_content == start && o.start_cd == cd && o.stop_cd == e && o.start_eocd == e && o.stop_eocd == f.len(), "layout of a signed module"), Err(_) => k::check(false, "no layout for a signed module") }
            match reg { Ok(r) => k::check(r.len() == 3 && (r[0].offset, r[0].size, r[1].offset, r[1].size, r[2].offset, r[2].size) == (0, start as u64, cd as u64, (e - cd) as u64, e as u64, (f.len() - e) as u64) && r[0].name == "zip_entries" && r[1].name == "central_directory" && r[2].name == "eocd", "regions of a signed module"), Err(_) => k::check(false, "no regions for a signed module") }
        }
    }
}
/// content + block of any kind + gap + directory + end record, every byte outside the block free, directory offset off by up to one
fn layout() {
    let m = k::param(0) as usize; let content = k::bytes("content", k::range("nc", 0, m)); let b = block(&pairs(k::range("kind", 0, 5))); let gap = k::bytes("gap", k::range("ng", 0, 2)); let cd = k::bytes("cd", k::range("ncd", 0, 2));
    let at = content.len() + b.len() + gap.len(); let d = k::range("delta", 0, 2); let mut mid = [0u8; 12]; k::fill(&mut mid, "mid"); let comment = k::bytes("comment", k::range("nco", 0, k::param(1) as usize)); let tail = k::bytes("tail", k::range("nt", 0, 1));
    check(&cat(&[&content, &b, &gap, &cd, &eocd(&mid, (at + d - 1) as u32, &comment), &tail]));
}
/// any one window of w bytes of a signed module replaced by free bytes
fn window() {
    let b = block(&pairs(k::range("kind", 0, 4))); let at = 2 + b.len(); let mut f = cat(&[b"xy", &b, b"C", &eocd(&[0; 12], at as u32, b"c"), b"t"]);
    let w = k::param(0) as usize; let p = k::range("at", 0, f.len() - w); k::fill(&mut f[p..p + w], "w"); check(&f);
}
/// no block: small files whose bytes are all free except one end-record signature; the directory offset takes any value
fn small() { let n = k::range("n", 22, k::param(0) as usize); let mut f = k::bytes("f", n); let p = k::range("p", 0, n - 22); f[p..p + 4].copy_from_slice(&EOCD); check(&f); }
/// magic with free bytes around it, ending exactly at / near the directory
fn magic() { let n = k::range("n", 0, k::param(0) as usize); let pre = k::bytes("pre", n); let gap = k::range("gap", 0, 1); let cdo = n + 16 + gap; check(&cat(&[&pre, KMAGIC, &vec![0; gap], &eocd(&[0; 12], cdo as u32, &[])])); }
/// largest blocks: total size around the 16 KiB limit
fn limit() { let v = k::pick("n", &[16384usize - 24 - 13, 16384 - 24 - 12, 16384 - 24 - 11]); let mut p = vec![0u8; v]; k::fill(&mut p[..2], "p"); let b = block(&pair(5, &p)); check(&cat(&[b"x", &b, b"cd", &eocd(&[0; 12], (1 + b.len()) as u32, &[])])); }
k::table!(layout, window, small, magic, limit);
