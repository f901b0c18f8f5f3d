//! whatever bytes the decoder accepts, it has understood losslessly: re-encoding gives back exactly those bytes
use crate::{k, util::*};
use ksusig::{MyReader, SigningBlock, ValueSigningBlock};
fn last_magic(b: &[u8]) -> Option<usize> { if b.len() < 16 { return None; } let mut p = b.len() - 16; loop { if same(&b[p..p + 16], KMAGIC) { return Some(p); } if p == 0 { return None; } p -= 1; } }
fn check(b: &[u8]) {
    if let Ok(s) = SigningBlock::from_u8(b) {
        k::cover(1); let e = s.to_u8(); let m = last_magic(b);
        k::check(m.is_some(), "accepted without the magic"); let end = m.unwrap_or(0) + 16;
        k::check(e.len() <= end && e.len() >= 32, "re-encoding longer than the input"); if e.len() > end { return; }
        k::check(same(&e, &b[end - e.len()..end]), "re-encoding differs from the accepted bytes");
        k::check(s.size_of_block_start == e.len() - 8 && s.size_of_block_end == e.len() - 8 && s.content_size == e.len() - 32 && s.get_full_size() == e.len() && s.magic == *KMAGIC, "declared sizes of an accepted block");
        let mut n = 0; for c in &s.content { let x = c.to_u8(); k::check(same(&x, &e[8 + n..8 + n + x.len()]) && c.size() == x.len(), "pair sizes of an accepted block"); n += x.len(); } k::check(n + 32 == e.len(), "pairs cover the content");
    } else { k::cover(2) }
    let tail = k::param(1) as usize; let f = cat(&[&[9, 9, 9], b, &vec![0u8; tail]]);
    if let Ok(s) = SigningBlock::from_reader(std::io::Cursor::new(&f), f.len(), tail) {
        k::cover(3); let e = s.to_u8(); k::check(s.file_offset_end >= e.len() && s.file_offset_start == s.file_offset_end - e.len() && s.file_offset_end <= f.len(), "reported offsets"); k::check(same(&e, &f[s.file_offset_start..s.file_offset_end]), "bytes at the reported offsets are the block");
        k::check(last_magic(&f[..f.len() - tail]).map(|m| m + 16) == Some(s.file_offset_end), "block does not end at the last magic");
    }
}
fn template(kind: usize) -> Vec<u8> {
    let d = rec(0x201, &[1, 2]); let c = lp(&[3, 4]); let a = attr(7, &[5]); let s = rec(0x201, &[6]);
    match kind {
        0 => v2_pair(&[signer(&v2_signed(&[d], &[c], &[a]), &[s], &[8, 9])]),
        1 => stamp_pair(&signer(&stamp_signed(&[d], &[c], &[a]), &[s], &[8, 9])),
        2 => elf_pair(&[(b".text", 64, 9), (b"ab", 1, 2)]),
        3 => pair(0x1234, &[1, 2, 3]),
        4 => v2_pair(&[signer(&v2_signed(&[d.clone(), d], &[c.clone(), c], &[]), &[s.clone(), s], &[8])]),
        5 => cat(&[&v2_pair(&[]), &pair(0x1234, &[1, 2])]),
        _ => stamp_pair(&signer(&stamp_signed(&[d.clone(), d], &[c.clone(), c], &[a.clone(), a]), &[s.clone(), s], &[8])),
    }
}
/// any one window of 4 (w: up to 8) consecutive bytes of a well-formed block replaced by arbitrary bytes
fn field() { let kind = k::range("kind", 0, k::param(2) as usize); let mut b = block(&template(kind)); let w = k::param(0) as usize; let at = k::range("at", 0, b.len() - 16 - w); k::fill(&mut b[at..at + w], "w"); check(&b); }
/// one byte of slack inserted anywhere (with every enclosing length either adjusted or not is covered by `grow`)
fn free() { let n = k::range("n", 0, k::param(0) as usize); let mut b = k::bytes("b", n); if n >= 16 { let m = k::range("at", 0, n - 16); b[m..m + 16].copy_from_slice(KMAGIC); } check(&b); }
/// one pair of every known id with a free value
fn value() {
    let id = k::pick("id", &[ID_V2, ID_STAMP, ID_ELF, 5]); let n = k::range("n", 0, k::param(0) as usize); let v = k::bytes("v", n); let b = pair(id, &v);
    match ValueSigningBlock::parse(&mut MyReader::new(&b)) { Ok(p) => { k::cover(1); let e = p.to_u8(); k::check(same(&e, &b), "re-encoded pair differs"); k::check(p.size() == b.len() && p.id() == id, "pair size and id"); } Err(_) => { k::cover(2); k::check(id != 5, "unknown pair refused"); } }
}
/// surplus bytes of any value at the end of any nested container, all enclosing lengths adjusted
fn surplus() {
    let x = k::bytes("x", k::range("nx", 1, k::param(0) as usize)); let at = k::range("at", 0, 15); let j = |i: usize| if i == at { x.clone() } else { vec![] };
    let (al, dd) = (0x201u32.to_le_bytes(), [1u8, 2]);
    let d = lp(&cat(&[&al, &lp(&dd), &j(0)])); let ds = lp(&cat(&[&d, &j(1)])); let cs = lp(&cat(&[&lp(&[3]), &j(2)])); let a = attr(7, &[5]); let aa = lp(&cat(&[&a, &j(3)]));
    let s = lp(&cat(&[&al, &lp(&[6]), &j(4)])); let ss = lp(&cat(&[&s, &j(5)])); let st = k::flag("stamp");
    let sd = lp(&cat(&[&ds, &cs, &aa, if st { &[] } else { &[0u8; 4] }, &j(6)])); let sg = lp(&cat(&[&sd, &ss, &lp(&[8]), &j(7)]));
    let p = if st { pair(ID_STAMP, &cat(&[&sg, &j(8)])) } else { pair(ID_V2, &cat(&[&lp(&cat(&[&sg, &j(9)])), &j(8)])) };
    let e = { let mut v = le32(1).to_vec(); v.extend_from_slice(&cat(&[&[1, 0, b'x'], &[0; 16], &j(10)])); pair(ID_ELF, &v) };
    check(&block(&cat(&[&p, &e, &j(11)])));
}
/// section names of any bytes
fn names() {
    let n = k::range("n", 0, 3); let x = k::bytes("x", n); let b = elf_pair(&[(&x, 1, 2)]); match ValueSigningBlock::parse(&mut MyReader::new(&b)) { Ok(p) => { k::cover(1); k::check(same(&p.to_u8(), &b), "re-encoded name differs"); } Err(_) => { k::cover(2); k::check(std::str::from_utf8(&x).is_err(), "proper name refused"); } }
}
k::table!(names, field, free, value, surplus);
