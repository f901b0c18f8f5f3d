//! assembling signing blocks: which pairs, in which order, padding, stamps replaced
use crate::{k, sigx::*, util::*};
use ksusig::{Algorithms, ModuleSigner, RawData, SigningBlock, ValueSigningBlock};
fn setup(m: ModuleSigner, ts: bool, pad: bool) -> ModuleSigner { let m = if ts && k::flag("tdefault") { m } else { m.timestamp_enabled(ts) }; if pad && k::flag("pdefault") { m } else { m.padding_enabled(pad) } }
/// shape of the finished block: these many pairs, then padding to 4096 iff asked
fn shape(b: &SigningBlock, n: usize, pad: bool) {
    let full = b.to_u8(); let mut w = vec![]; for p in &b.content { w.extend_from_slice(&p.to_u8()); } k::check(same(&full, &block(&w)) && b.get_full_size() == full.len(), "well-formed block"); k::check(full.len() - 8 <= 16384, "limit");
    if pad { k::check(full.len() % 4096 == 0, "padded to 4096"); let extra = b.content.len() - n; k::check(extra <= 1 && (extra == 0 || b.content[n].id() == ID_PAD), "at most one padding pair, at the end"); if extra == 0 { k::cover(7) } }
    else { k::check(b.content.len() == n, "nothing but the pairs asked for"); }
}
fn sign() {
    let kind = k::range("kind", 0, 2); let v = Cfg::any("vk", 1); let s = if kind == 0 { v.clone() } else if kind == 1 { Cfg::any("tk", 0) } else { v.clone() }; let (d, dw) = digests(1); let (ts, pad) = (k::flag("time"), k::flag("pad"));
    let m = setup(match kind { 0 => ModuleSigner::v2_only(v.conf()), 1 => ModuleSigner::with_source_stamp(v.conf(), s.conf()), _ => ModuleSigner::stamp_only(s.conf()) }, ts, pad);
    let algs = m.required_algorithms(); k::check(algs.contains(&v.alg) && algs.contains(&s.alg) && algs.len() == if v.alg == s.alg { 1 } else { 2 }, "algorithms needed, each once");
    let ok = v.matches() && s.matches(); let t0 = any_clock();
    match m.sign(as_digests(&d)) {
        Err(_) => { k::check(!ok, "signing refused"); k::cover(2) }
        Ok(b) => { k::check(ok, "key and algorithm mismatch accepted"); let n = if kind == 1 { 2 } else { 1 }; shape(&b, n, pad); let t = if ts { Some((t0, now())) } else { None };
            match kind { 0 => v2_ok(&b.content[0], &v, &dw), 1 => { v2_ok(&b.content[0], &v, &dw); stamp_ok(&b.content[1], &s, &dw, t) } _ => stamp_ok(&b.content[0], &s, &dw, t) } k::cover(1) }
    }
}
fn any_pair(i: usize) -> (ValueSigningBlock, bool) {
    let kind = k::range("pair", 0, 5); let w = match kind { 0 => { let x = k::bytes("payload", 2); let id = k::u32("id"); k::assume(id != ID_V2 && id != ID_STAMP && id != ID_ELF && id != ID_PAD); pair(id, &x) } 1 => pairs(2), 2 => pairs(3), 3 => pair(ID_PAD, &vec![0; 3 + i * 2000]), 4 => elf_pair(&[(b"a", k::u64("off"), 7)]), _ => v2_pair(&[]) };
    (ValueSigningBlock::parse(&mut ksusig::MyReader::new(&w)).unwrap(), kind == 2 || kind == 3)
}
fn add() {
    let mut l = vec![]; let mut keep = vec![]; for i in 0..k::range("n", 0, k::param(0) as usize) { let (p, gone) = any_pair(i); if !gone { keep.push(p.clone()); } l.push(p); }
    let old = SigningBlock::new(l).unwrap(); let (d, dw) = digests(1); let s = Cfg::fixed("tk", k::flag("p384"), 1); let (ts, pad) = (k::flag("time"), k::flag("pad"));
    match k::range("kind", 0, 2) { 0 => { k::check(ModuleSigner::v2_only(s.conf()).add_source_stamp(old, as_digests(&d)).is_err(), "stamp added without a stamp configuration"); k::cover(2); }
        x => { let m = setup(if x == 1 { ModuleSigner::stamp_only(s.conf()) } else { ModuleSigner::with_source_stamp(Cfg::fixed("vk", false, 0).conf(), s.conf()) }, ts, pad); let t0 = any_clock();
            match m.add_source_stamp(old, as_digests(&d)) { Err(_) => k::check(false, "stamp not added"), Ok(b) => { shape(&b, keep.len() + 1, pad); k::check(b.content[..keep.len()] == keep[..], "other pairs kept in order"); stamp_ok(&b.content[keep.len()], &s, &dw, if ts { Some((t0, now())) } else { None }); k::cover(1) } } } }
}
/// blocks that would exceed the limit are refused, exact fits are not
fn limit() {
    let len = k::pick("len", &[3500usize, 3800, 7900, 8100, 12000, 12200, 15500, 15900, 16100, 16330]); let big = ValueSigningBlock::BaseSigningBlock(RawData::new(0x77, vec![k::u8("fill"); len])); let old = SigningBlock::new(vec![big.clone()]).unwrap(); let s = Cfg::with(secret(false, "tk"), Algorithms::ECDSA_SHA2_256, "tk", 0); let pad = k::flag("pad");
    match ModuleSigner::stamp_only(s.conf()).timestamp_enabled(false).padding_enabled(pad).add_source_stamp(old, as_digests(&[])) {
        Ok(b) => { shape(&b, 2, pad); k::check(b.content[0] == big, "other pairs kept"); stamp_ok(&b.content[1], &s, &[], None); k::cover(1) }
        Err(_) => { let least = 8 + 24 + 12 + len + if k::symbolic() { 100 } else { 150 }; k::check(if pad { least > 12000 } else { least > 15000 }, "block within the limit refused"); k::cover(2) } }
}
k::table!(sign, add, limit);
