//! the end record used is the last well-formed one in the final 65,557 bytes, with exactly its fields
use crate::{k, util::*};
use ksusig::zip::find_eocd;
fn check(f: &[u8]) {
    let r = find_eocd(&mut std::io::Cursor::new(f), f.len());
    match (ref_eocd(f), r) {
        (None, r) => { k::cover(1); k::check(r.is_err(), "record found where there is none"); }
        (Some(p), Ok(e)) => {
            k::cover(2); let g = |i: usize| f[p + i] as u16 | (f[p + i + 1] as u16) << 8; let n = k::concrete(g(20) as u64) as usize;
            k::check(e.file_offset == p, "not the last well-formed record"); k::check(e.disk_number == g(4) && e.disk_with_cd == g(6) && e.num_entries == g(8) && e.total_entries == g(10) && e.cd_size as usize == get32(f, p + 12) && e.cd_offset as usize == get32(f, p + 16) && e.comment_len == g(20) && e.signature == EOCD, "fields of the record");
            k::check(same(&e.comment, &f[p + 22..p + 22 + n]), "comment of the record"); k::check(same(&e.to_u8(), &f[p..p + 22 + n]), "record does not serialise to its own bytes");
        }
        (Some(_), Err(_)) => k::check(false, "record not found"),
    }
}
fn free() { let n = k::range("n", 0, k::param(0) as usize); check(&k::bytes("f", n)); }
/// two signatures at every pair of positions, everything else free
fn two() { let n = k::range("n", 26, k::param(0) as usize); let mut f = k::bytes("f", n); let p = k::range("p", 0, n - 26); let q = k::range("q", p + 4, n - 22); f[p..p + 4].copy_from_slice(&EOCD); f[q..q + 4].copy_from_slice(&EOCD); check(&f); }
/// window boundary: record with a free comment length at the far end of the search window
fn far() {
    let n = 65557 + k::range("extra", 0, 3); let mut f = vec![0u8; n]; let p = k::range("p", 0, 4); f[p..p + 4].copy_from_slice(&EOCD); k::fill(&mut f[p + 4..p + 20], "mid");
    let d = k::range("d", 0, 3); let room = n - p - 22; let c = (room + 1).saturating_sub(d).min(65535); f[p + 20..p + 22].copy_from_slice(&(c as u16).to_le_bytes()); k::fill(&mut f[n - 2..], "last"); check(&f);
}
k::table!(free, two, far);
