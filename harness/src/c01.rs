//! decoding untrusted signing-block bytes: no panic, no allocation out of proportion, no hang; the accepted block can be re-encoded and displayed
use crate::{k, util::*};
use ksusig::{MyReader, SigningBlock, ValueSigningBlock};
fn use_block(b: &SigningBlock) { let v = b.to_u8(); std::hint::black_box(v.len()); let _ = b.get_full_size(); for c in &b.content { std::hint::black_box((c.id(), c.size(), c.inner_size())); let _ = c.to_u8(); } }
fn decode(b: &[u8]) { match SigningBlock::from_u8(b) { Ok(s) => { k::cover(1); use_block(&s); } Err(_) => k::cover(2) } }
/// every byte free, the magic anywhere (or nowhere)
fn free() {
    let n = k::range("n", 0, k::param(0) as usize); let mut b = k::bytes("b", n);
    if n >= 16 { let m = k::range("at", 0, n - 15); if m <= n - 16 { b[m..m + 16].copy_from_slice(KMAGIC); } }
    decode(&b);
}
fn template(kind: usize) -> Vec<u8> {
    let d = rec(0x201, &[1, 2]); let c = lp(&[3, 4]); let a = attr(7, &[5]); let s = rec(0x201, &[6]);
    match kind {
        0 => v2_pair(&[signer(&v2_signed(&[d], &[c], &[a]), &[s], &[8, 9])]),
        1 => stamp_pair(&signer(&stamp_signed(&[d], &[c], &[a]), &[s], &[8, 9])),
        2 => elf_pair(&[(b".text", 64, 9), (b"ab", 1, 2)]),
        _ => pair(0x1234, &[1, 2, 3]),
    }
}
/// a well-formed block with 4 (8) consecutive bytes, at any position, replaced by arbitrary ones
fn field() {
    let kind = k::range("kind", 0, 3); let mut b = block(&template(kind));
    let w = if kind == 3 { 8 } else { 4 }; let at = k::range("at", 0, b.len() - 17 - w); k::fill(&mut b[at..at + w], "w"); decode(&b);
}
/// one pair decoded directly, first record header plus a short free value
fn value() {
    let id = k::pick("id", &[ID_V2, ID_STAMP, ID_ELF, ID_PAD, 5]); let n = k::range("n", 0, k::param(0) as usize);
    let v = k::bytes("v", n); let mut size = k::bytes("size", 8); if k::flag("exact") { size = le64(n + 4).to_vec(); }
    let b = cat(&[&size, &id.to_le_bytes(), &v]);
    match ValueSigningBlock::parse(&mut MyReader::new(&b)) { Ok(p) => { k::cover(1); let _ = p.to_u8(); let _ = (p.id(), p.size()); } Err(_) => k::cover(2) }
}
/// reading from a stream with any claimed file length and end offset
fn reader() {
    let n = k::range("n", 0, k::param(0) as usize); let mut b = k::bytes("b", n);
    if n >= 16 { let m = k::range("at", 0, n - 15); if m <= n - 16 { b[m..m + 16].copy_from_slice(KMAGIC); } }
    let len = k::range("len", 0, n + 2); let end = k::range("end", 0, 4); let end = if end == 4 { usize::MAX } else { end };
    match SigningBlock::from_reader(std::io::Cursor::new(&b), len, end) { Ok(s) => { k::cover(1); use_block(&s); } Err(_) => k::cover(2) }
}
k::table!(free, field, value, reader);
