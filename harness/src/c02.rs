//! encode -> decode: exact wire format (independent encoder), declared sizes, same value back
use crate::{k, util::*};
use ksusig::common::*;
use ksusig::scheme_v2::{SignedData as V2Data, Signer, Signers};
use ksusig::signing_block::elf_section_info::{ElfSectionInfo, SectionEntry};
use ksusig::source_stamp::{SignedData as StampData, StampBlock};
use ksusig::{Algorithms, MyReader, RawData, SigningBlock, ValueSigningBlock};

/// lists of records with free bytes; wire form next to the in-memory form
struct Lists { d: Vec<Digest>, dw: Vec<Vec<u8>>, c: Vec<Certificate>, cw: Vec<Vec<u8>>, a: Vec<AdditionalAttribute>, aw: Vec<Vec<u8>>, s: Vec<Signature>, sw: Vec<Vec<u8>>, pk: Vec<u8> }
fn lists(max: usize, lens: &[usize]) -> Lists {
    let mut l = Lists { d: vec![], dw: vec![], c: vec![], cw: vec![], a: vec![], aw: vec![], s: vec![], sw: vec![], pk: vec![] };
    let len = |i: usize| lens[i % lens.len()];
    for i in 0..k::range("nd", 0, max) { let alg = k::u32("dalg"); let x = k::bytes("d", len(i)); l.dw.push(rec(alg, &x)); l.d.push(Digest::new(Algorithms::from(alg), x)); }
    for i in 0..k::range("nc", 0, max) { let x = k::bytes("c", len(i + 1)); l.cw.push(lp(&x)); l.c.push(Certificate::new(x)); }
    for i in 0..k::range("na", 0, max) { let id = k::u32("aid"); let x = k::bytes("a", len(i + 1)); l.aw.push(attr(id, &x)); l.a.push(AdditionalAttribute { size: 4 + x.len(), id, data: x }); }
    for i in 0..k::range("ns", 0, max) { let alg = k::u32("salg"); let x = k::bytes("s", len(i)); l.sw.push(rec(alg, &x)); l.s.push(Signature::new(Algorithms::from(alg), x)); }
    l.pk = k::bytes("pk", len(max)); l
}
fn v2_signer(l: Lists) -> (Signer, Vec<u8>) {
    let w = signer(&v2_signed(&l.dw, &l.cw, &l.aw), &l.sw, &l.pk);
    (Signer::new(V2Data::new(Digests::new(l.d), Certificates::new(l.c), AdditionalAttributes::new(l.a)), Signatures::new(l.s), PubKey::new(l.pk)), w)
}
fn stamp(l: Lists) -> (ValueSigningBlock, Vec<u8>) {
    let w = stamp_pair(&signer(&stamp_signed(&l.dw, &l.cw, &l.aw), &l.sw, &l.pk));
    (ValueSigningBlock::new_source_stamp(StampBlock::new(StampData::new(Digests::new(l.d), Certificates::new(l.c), AdditionalAttributes::new(l.a)), Signatures::new(l.s), PubKey::new(l.pk))), w)
}
fn pair_ok(v: &ValueSigningBlock, w: &[u8], id: u32) {
    let e = v.to_u8(); k::check(same(&e, w), "pair encodes to the documented bytes"); k::check(v.size() == w.len() && v.inner_size() + 8 == w.len(), "declared pair size"); k::check(v.id() == id, "pair id");
    match ValueSigningBlock::parse(&mut MyReader::new(&e)) { Ok(p) => k::check(p == *v, "pair decodes to the same value"), Err(_) => k::check(false, "own pair is rejected") }
}
fn block_ok(content: Vec<ValueSigningBlock>, w: &[u8]) {
    let n = content.len(); let keep = content.clone(); let pre = k::bytes("pre", 2);
    let b = match SigningBlock::new(content) { Ok(b) => b, Err(_) => { k::check(w.len() + 24 > 16384, "block within limits refused"); k::cover(9); return; } };
    k::check(w.len() + 24 <= 16384, "block above the limit produced");
    let full = block(w); let e = b.to_u8();
    k::check(same(&e, &full), "block encodes to the documented bytes"); k::check(b.get_full_size() == full.len() && b.size_of_block_start + 8 == full.len() && b.size_of_block_end == b.size_of_block_start && b.content_size == w.len(), "declared block sizes");
    k::check(same(&b.content_to_u8(), w), "content bytes"); k::check(b.file_offset_start == 0 && b.file_offset_end == full.len(), "offsets of a fresh block");
    match SigningBlock::from_u8(&e) { Ok(x) => { k::check(x == b, "block decodes to the same value"); k::cover(1) } Err(_) => k::check(false, "own block is rejected") }
    let f = cat(&[&pre, &e, b"tail"]);
    match SigningBlock::from_reader(std::io::Cursor::new(&f), f.len(), 4) { Ok(x) => { k::check(x.content == keep && x.content.len() == n && x.file_offset_start == 2 && x.file_offset_end == 2 + full.len(), "block read back from a stream"); let mut y = b.clone(); y.offset_by(2); k::check(x == y, "offset_by moves both ends"); } Err(_) => k::check(false, "own block is not found in a stream") }
}
fn v2() {
    let max = k::param(0) as usize; let n = k::range("signers", 0, k::param(1) as usize); let mut sg = vec![]; let mut w = vec![];
    for i in 0..n { let (s, x) = v2_signer(lists(if i == 0 { max } else { 1 }, &[2, 0, 1])); sg.push(s); w.push(x); }
    let v = ValueSigningBlock::new_v2(Signers::new(sg)); let w = v2_pair(&w); pair_ok(&v, &w, ID_V2); block_ok(vec![v], &w);
}
fn stamped() { let (v, w) = stamp(lists(k::param(0) as usize, &[1, 2, 0])); pair_ok(&v, &w, ID_STAMP); block_ok(vec![v], &w); }
fn name(n: usize) -> String { let mut s = String::new(); for i in 0..n { s.push((b'a' + (i % 26) as u8) as char); } if n > 0 && k::flag("utf8") && n >= 2 { s.truncate(n - 2); s.push('\u{e9}'); } s }
fn elf_info() {
    let n = k::range("n", 0, 2); let mut v = vec![]; let mut w: Vec<(Vec<u8>, u64, u64)> = vec![];
    for i in 0..n { let nm = name(k::pick("len", if i == 0 { &[0usize, 1, 5, 255, 256, 300] } else { &[2, 9] })); let (o, s) = (k::u64("off"), k::u64("size")); w.push((nm.clone().into_bytes(), o, s)); v.push(SectionEntry::new(nm, o, s)); }
    let r: Vec<(&[u8], u64, u64)> = w.iter().map(|x| (&x.0[..], x.1, x.2)).collect(); let w = elf_pair(&r);
    let tup: Vec<(&str, u64, u64)> = r.iter().map(|x| (std::str::from_utf8(x.0).unwrap(), x.1, x.2)).collect();
    let e = ElfSectionInfo::new(v); k::check(e == ElfSectionInfo::from_tuples(tup), "from_tuples builds the same block");
    let v = ValueSigningBlock::ElfSectionInfoBlock(e); pair_ok(&v, &w, ID_ELF); block_ok(vec![v], &w);
}
/// unknown pairs of any id, sizes around every power-of-two limit, several pairs in order
fn raw() {
    let n = k::range("n", 0, 3); let mut v = vec![]; let mut w = vec![];
    for i in 0..n {
        let id = k::u32("id"); k::assume(id != ID_V2 && id != ID_STAMP && id != ID_ELF);
        let len = k::pick("len", if i == 0 { &[0usize, 1, 3, 255, 256, 4096, 16340, 16348, 16349, 16368] } else { &[0, 2] }); let mut d = vec![0x33u8; len]; let f = len.min(3); k::fill(&mut d[..f], "data");
        w.extend_from_slice(&pair(id, &d)); let r = ValueSigningBlock::BaseSigningBlock(RawData::new(id, d)); if len < 16340 { pair_ok(&r, &pair(id, &match &r { ValueSigningBlock::BaseSigningBlock(x) => x.data.clone(), _ => vec![] }), id); } v.push(r);
    }
    block_ok(v, &w);
}
/// long records (lengths that do not fit one byte) in every list of both schemes
fn long() {
    let len = k::pick("len", &[127usize, 128, 255, 256, 257, 700]); let which = k::range("which", 0, 4); let z = |i: usize| if i == which { let mut v = vec![0x41u8; len]; k::fill(&mut v[len - 1..], "last"); v } else { vec![7u8] };
    let (d, c, a, s, pk) = (z(0), z(1), z(2), z(3), z(4));
    let mk = || Lists { dw: vec![rec(0x201, &d)], d: vec![Digest::new(Algorithms::ECDSA_SHA2_256, d.clone())], cw: vec![lp(&c)], c: vec![Certificate::new(c.clone())], aw: vec![attr(9, &a)], a: vec![AdditionalAttribute { size: 4 + a.len(), id: 9, data: a.clone() }], sw: vec![rec(0x202, &s)], s: vec![Signature::new(Algorithms::ECDSA_SHA2_512, s.clone())], pk: pk.clone() };
    let (s1, w1) = v2_signer(mk()); let v = ValueSigningBlock::new_v2(Signers::new(vec![s1])); let w = v2_pair(&[w1]); pair_ok(&v, &w, ID_V2);
    let (t, tw) = stamp(mk()); pair_ok(&t, &tw, ID_STAMP); block_ok(vec![v, t], &cat(&[&w, &tw]));
}
k::table!(v2, stamped, elf_info, raw, long);
