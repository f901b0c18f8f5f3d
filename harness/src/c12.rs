//! padding: a padded block is a multiple of 4096 bytes, keeps its pairs, and stays within the 16 KiB limit or is refused
use crate::{k, util::*};
use ksusig::{RawData, SigningBlock, ValueSigningBlock};
fn judge(content: Vec<ValueSigningBlock>, n: usize) -> Option<SigningBlock> {
    let keep = content.clone(); let rem = (n + 32) % 4096; let fits = rem == 0 || rem + 12 <= 4096; let total = (n + 32).div_ceil(4096) * 4096;
    match SigningBlock::new_with_padding(content) {
        Ok(b) => {
            k::check(fits && total - 8 <= 16384, "block that cannot be padded was produced"); let full = b.get_full_size();
            k::check(full % 4096 == 0 && full == total, "padded size"); k::check(b.content_size == total - 32 && b.size_of_block_start == total - 8 && b.size_of_block_end == total - 8 && b.file_offset_start == 0 && b.file_offset_end == total, "declared sizes");
            k::check(b.content.len() == keep.len() + (rem != 0) as usize && b.content[..keep.len()] == keep[..], "pairs are kept in front");
            if rem != 0 { k::cover(1); match &b.content[keep.len()] { ValueSigningBlock::BaseSigningBlock(r) => k::check(r.id == ID_PAD && r.data.len() + 12 == 4096 - rem && r.data.iter().all(|x| *x == 0), "padding pair"), _ => k::check(false, "padding pair kind") } } else { k::cover(2) }
            Some(b)
        }
        Err(_) => { k::cover(3); k::check(!fits || total - 8 > 16384, "block that fits was refused"); None }
    }
}
/// one or two pairs of every declared size
fn sizes() {
    let m = k::param(0) as usize; let s = k::u16("size") as usize; k::assume(s >= 4 && s <= m); let mut v = vec![ValueSigningBlock::BaseSigningBlock(RawData { size: s, id: 7, data: vec![] })]; let mut n = s + 8;
    if k::flag("two") { v.push(ValueSigningBlock::BaseSigningBlock(RawData::new(8, vec![1, 2]))); n += 14; } judge(v, n);
}
/// real data of boundary sizes with free bytes: what is produced decodes to itself; an existing padding pair is refused
fn real() {
    let base = k::pick("base", &[0usize, 4096, 8192, 12288, 16384]); let d = k::range("d", 0, 60); let n = (base + 4096 + 8).saturating_sub(d + 12 + 32).min(17000); let mut x = vec![0u8; n]; let f = n.min(2); k::fill(&mut x[..f], "x"); let id = k::u32("id"); k::assume(id != ID_V2 && id != ID_STAMP && id != ID_ELF);
    let v = vec![ValueSigningBlock::BaseSigningBlock(RawData::new(id, x.clone()))];
    if id == ID_PAD { k::check(SigningBlock::new_with_padding(v).is_err(), "second padding pair accepted"); return; }
    if let Some(b) = judge(v, n + 12) { let e = b.to_u8(); k::check(e.len() == b.get_full_size(), "encoded size"); match SigningBlock::from_u8(&e) { Ok(y) => k::check(y == b, "padded block decodes to itself"), Err(_) => k::check(false, "padded block is not decodable") } }
}
/// after any change of the pairs, recalculating restores every declared size
fn recalc() {
    let mut b = SigningBlock::from_u8(&block(&pairs(k::range("kind", 0, 5)))).unwrap(); let off = k::range("off", 0, 3); b.offset_by(off); let id = k::u32("id"); k::assume(id != ID_V2 && id != ID_STAMP && id != ID_ELF); let x = k::bytes("x", k::range("n", 0, 3));
    match k::range("op", 0, 2) { 0 => b.content_mut().push(ValueSigningBlock::BaseSigningBlock(RawData::new(id, x))), 1 => { b.content_mut().clear(); } _ => b.content_mut().insert(0, ValueSigningBlock::BaseSigningBlock(RawData::new(id, x))) }
    b.recalculate_size(); let e = b.to_u8(); k::check(b.get_full_size() == e.len() && b.file_offset_end - b.file_offset_start == e.len() && b.file_offset_start == off && b.content_size + 32 == e.len(), "sizes after recalculation");
    match SigningBlock::from_u8(&e) { Ok(y) => { k::check(y.content == b.content && y.size_of_block_start == b.size_of_block_start && y.size_of_block_end == b.size_of_block_end, "recalculated block decodes to itself"); k::cover(1) } Err(_) => k::check(false, "recalculated block is not decodable") }
}
/// without padding: declared sizes follow the pairs, and the limit is the one the decoder enforces
fn plain() {
    let m = k::param(0) as usize; let s = k::u16("size") as usize; k::assume(s >= 4 && s <= m); let two = k::flag("two"); let mut v = vec![ValueSigningBlock::BaseSigningBlock(RawData { size: s, id: 7, data: vec![] })]; let mut n = s + 8; if two { v.push(ValueSigningBlock::BaseSigningBlock(RawData::new(8, vec![1, 2]))); n += 14; }
    match SigningBlock::new(v.clone()) { Ok(b) => { k::cover(1); k::check(n + 24 <= 16384, "block beyond the limit produced"); k::check(b.content == v && b.content_size == n && b.size_of_block_start == n + 24 && b.size_of_block_end == n + 24 && b.get_full_size() == n + 32 && b.file_offset_start == 0 && b.file_offset_end == n + 32, "declared sizes") } Err(_) => { k::cover(2); k::check(n + 24 > 16384, "block within the limit refused") } }
}
/// blocks at the limit: produced exactly when the decoder takes them
fn edge() {
    let n = 16384 - 24 - 12 - 8 + k::range("n", 0, 40); let mut x = vec![3u8; n]; k::fill(&mut x[..2], "x"); let w = block(&pair(5, &x)); let r = SigningBlock::new(vec![ValueSigningBlock::BaseSigningBlock(RawData::new(5, x))]); let d = SigningBlock::from_u8(&w); k::check(r.is_ok() == d.is_ok() && r.is_ok() == (w.len() - 8 <= 16384), "limits of encoder and decoder differ");
    match (r, d) { (Ok(b), Ok(y)) => { k::cover(1); k::check(same(&b.to_u8(), &w) && y.content == b.content, "block at the limit decodes to itself") } _ => k::cover(2) }
}
k::table!(sizes, real, recalc, plain, edge);
