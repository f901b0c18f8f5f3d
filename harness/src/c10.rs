//! results depend on the bytes of the stream only: not on how many bytes each read returns, nor on interrupted reads; a failing read is reported
use crate::{k, util::*};
use ksusig::file_formats::elf::digest::digest_elf_sections;
use ksusig::zip::{find_eocd, FileOffsets};
use ksusig::{digest_module, SigningBlock};
fn rd(d: &[u8]) -> Choppy<'_> { Choppy { d, at: 0, n: k::param(0) as usize, fail: k::flag("fail"), failed: false } }
fn judge(failed: bool, got: Option<Vec<u8>>, want: &[u8]) { match got { Some(g) => { k::check(!failed, "a failing read goes unnoticed"); k::check(same(&g, want), "result depends on how the reads are split"); k::cover(1); } None => { k::check(failed, "error without a failing read"); k::cover(2); } } }
fn module() {
    let a = algo(); let content = k::bytes("content", 3); let cd = k::bytes("cd", 2); let end = eocd(&[0; 12], 3, b"c"); let f = cat(&[&content, &cd, &end]); let mut r = rd(&f);
    let d = digest_module(&mut r, &FileOffsets::without_signature(3, 5, f.len()), &a).ok(); judge(r.failed, d, &ref_digest(&content, &cd, &end, hash_of(&a)));
}
fn elf() {
    let a = algo(); let f = k::bytes("f", 8); let (o, n) = (k::range("o", 0, 2), k::range("n", 1, 4)); let s = vec![("a".to_string(), o as u64, n as u64), ("b".to_string(), 6, 2)]; let mut r = rd(&f);
    let d = digest_elf_sections(&mut r, &s, &a).ok(); let mut l = vec![]; let h = hash_of(&a); chunks(&f[o..o + n], 1 << 20, h, &mut l); chunks(&f[6..8], 1 << 20, h, &mut l); judge(r.failed, d, &finish(&l, h));
}
fn block() { let x = k::bytes("x", 2); let b = crate::util::block(&pair(7, &x)); let f = cat(&[b"ab", &b, b"tail"]); let mut r = rd(&f); let g = SigningBlock::from_reader(&mut r, f.len(), 4).ok().map(|s| s.to_u8()); judge(r.failed, g, &b); }
fn eocd_() { let mut m = [0u8; 12]; k::fill(&mut m, "mid"); let e = eocd(&m, 2, b"cc"); let f = cat(&[b"ab", &e]); let mut r = rd(&f); let g = find_eocd(&mut r, f.len()).ok().map(|s| s.to_u8()); judge(r.failed, g, &e); }
use self::eocd_ as eocd2; fn end() { eocd2() }
k::table!(module, elf, block, end);
