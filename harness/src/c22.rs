//! sign command end to end
use crate::cli::sign::{execute, SignArgs};
use crate::{k, elfx::*, keyx::*, sigx::*, util::*};
use ksusig::{Algorithms, SignableFile, SigningBlock, ValueSigningBlock};
use std::path::{Path, PathBuf};
fn cfg(p384: bool, n: u8, chain: usize) -> Cfg { let mut sk = vec![1u8; if p384 { 48 } else { 32 }]; sk[3] = n; Cfg { sk, alg: if p384 { Algorithms::ECDSA_SHA2_512 } else { Algorithms::ECDSA_SHA2_256 }, cert: vec![0x30, n, 7], chain: (0..chain).map(|i| vec![0x30, n, 9, i as u8]).collect() } }
/// credential files: (key, cert, p12, password)
type Files = (Option<PathBuf>, Option<PathBuf>, Option<PathBuf>, Option<String>);
fn files(c: &Cfg, n: &str, p12: bool) -> Files {
    if p12 { (None, None, Some(k::put_file(&format!("{n}.p12"), &p12_of(&pkcs8(&c.sk), &c.cert, &c.chain, "pw"))), Some("pw".to_string())) }
    else { let mut p = pem("CERTIFICATE", &c.cert, "\n"); for x in &c.chain { p.extend_from_slice(&pem("CERTIFICATE", x, "\n")); } (Some(k::put_file(&format!("{n}.key"), &pem("PRIVATE KEY", &pkcs8(&c.sk), "\n"))), Some(k::put_file(&format!("{n}.crt"), &p)), None, None) }
}
fn args(i: &Path, o: &Path, v: Files, s: Files, secs: Vec<String>) -> SignArgs { SignArgs { input: i.into(), output: o.into(), key: v.0, cert: v.1, p12: v.2, password: v.3, stamp_key: s.0, stamp_cert: s.1, stamp_p12: s.2, stamp_password: s.3, elf_sections: secs } }
struct Job { v: Cfg, s: Option<Cfg>, vf: Files, sf: Files }
fn job() -> Job { let v = cfg(k::flag("p384"), 1, k::range("chain", 0, 1)); let vf = files(&v, "v", k::flag("p12")); let s = match k::range("stamp", 0, 2) { 0 => None, x => Some(cfg(x == 2, 2, 0)) }; let sf = match &s { Some(c) => files(c, "s", k::flag("sp12")), None => (None, None, None, None) }; Job { v, s, vf, sf } }
/// the block holds exactly what was asked for, every digest once, 4096-aligned
fn block_ok(b: &SigningBlock, raw: &[u8], j: &Job, d: impl Fn(&Algorithms) -> Vec<u8>, t: (u64, u64), elf: Option<Vec<(Vec<u8>, u64, u64)>>) {
    let mut algs = vec![j.v.alg.clone()]; if let Some(s) = &j.s { if s.alg != j.v.alg { algs.push(s.alg.clone()) } } let dw: Vec<Vec<u8>> = algs.iter().map(|a| rec(a.to_u32(), &d(a))).collect();
    let mut l = vec![]; for p in &b.content { if p.id() != ID_PAD { l.push(p) } } let n = 1 + j.s.is_some() as usize + elf.is_some() as usize; k::check(l.len() == n && b.content.len() <= n + 1, "pairs of the signing block");
    for p in l { match p { ValueSigningBlock::SignatureSchemeV2Block(_) => v2_ok(p, &j.v, &dw), ValueSigningBlock::SourceStampBlock(_) => match &j.s { Some(s) => stamp_ok(p, s, &dw, Some(t)), None => k::check(false, "stamp without stamp key") }, ValueSigningBlock::ElfSectionInfoBlock(_) => match &elf { Some(e) => { let r: Vec<(&[u8], u64, u64)> = e.iter().map(|x| (&x.0[..], x.1, x.2)).collect(); k::check(same(&p.to_u8(), &elf_pair(&r)), "section list of the signature") } None => k::check(false, "section list in a module") }, _ => k::check(false, "unexpected pair") } }
    k::check(b.content.iter().filter(|p| matches!(p, ValueSigningBlock::SignatureSchemeV2Block(_))).count() == 1 && b.content.iter().filter(|p| matches!(p, ValueSigningBlock::SourceStampBlock(_))).count() == j.s.is_some() as usize, "one of each");
    k::check(raw.len() % 4096 == 0 && raw.len() - 8 <= 16384, "block padded to 4096"); k::check(same(&b.to_u8(), raw), "block in canonical form");
}
fn out(input: &Path) -> (PathBuf, bool) { match k::range("out", 0, 2) { 0 => (k::path("out"), false), 1 => (k::put_file("out", &[0x55; 70]), false), _ => (input.to_path_buf(), true) } }
fn module() {
    let p = k::param(0) as usize; let m = Mod::any(p, 1, 1, 0); let kind = k::range("kind", 0, 2); let f = if kind == 0 { m.bytes() } else { m.with(&block(&pairs([2usize, 4][kind - 1]))) }; k::assume(f[0] != 0x7f); let j = job(); let i = k::put_file("in", &f); let (o, inplace) = out(&i); let t0 = now();
    let r = execute(args(&i, &o, j.vf.clone(), j.sf.clone(), vec![])); k::check(r.is_ok(), "module not signed"); if !inplace { k::check(same(&k::get_file(&i).unwrap(), &f), "input changed"); }
    let g = k::get_file(&o).unwrap_or_default(); let keep = m.content.len() + m.cd.len() + m.end.len(); if g.len() < keep + 32 { k::check(false, "output is not the signed module"); return } let raw = g[m.content.len()..g.len() - m.cd.len() - m.end.len()].to_vec(); k::check(same(&g, &m.with(&raw)), "signed module is the module plus the block");
    match SigningBlock::from_u8(&raw) { Ok(b) => { block_ok(&b, &raw, &j, |a| m.digest(a), (t0, now()), None); k::cover(1 + inplace as u32) } Err(_) => k::check(false, "block does not decode") }
}
fn elf() {
    let c = C::any(); let (x, y) = (k::bytes("t", 2), k::bytes("r", 1)); let old = block(&pairs(2)); let mut l: Vec<(&str, u64, &[u8])> = vec![(".rodata", 1, &y), (".text", 1, &x)]; if k::flag("signed") { l.push((".ksu_sign", 1, &old)); } let f = c.build(&l, &[]); let j = job(); let i = k::put_file("in", &f); let (o, inplace) = out(&i); let one = k::flag("one"); let t0 = now();
    let r = execute(args(&i, &o, j.vf.clone(), j.sf.clone(), if one { vec![".text".to_string()] } else { vec![] })); k::check(r.is_ok(), "ELF not signed"); if !inplace { k::check(same(&k::get_file(&i).unwrap(), &f), "input changed"); }
    let g = k::get_file(&o).unwrap_or_default(); k::check(g.len() > f.len() && same(&g[c.ehs()..f.len()], &f[c.ehs()..]), "signed ELF keeps the file's bytes"); let s = match c.find(&g, b".ksu_sign") { Some(s) => s, None => { k::check(false, "no signature section"); return } }; let raw = c.data(&g, s).to_vec();
    let sec = |n: usize| { let h = c.sh(&f, n); (c.name(&f, n), h.off, h.size) }; let info = if one { vec![sec(2)] } else { vec![sec(1), sec(2)] }; let refd = |a: &Algorithms| { let h = hash_of(a); let mut l = vec![]; if !one { chunks(&y, 1 << 20, h, &mut l); } chunks(&x, 1 << 20, h, &mut l); finish(&l, h) };
    match SigningBlock::from_u8(&raw) { Ok(b) => { block_ok(&b, &raw, &j, refd, (t0, now()), Some(info)); k::cover(1 + inplace as u32) } Err(_) => k::check(false, "block does not decode") }
}
/// a run that cannot succeed leaves the input and an existing output alone
fn refused() {
    let m = Mod::any(2, 1, 0, 0); let v = cfg(false, 1, 0); let (mut vf, mut sf): (Files, Files) = (files(&v, "v", false), (None, None, None, None)); let mut f = m.bytes(); k::assume(f[0] != 0x7f); let mut secs = vec![];
    match k::range("why", 0, 9) { 0 => vf = sf.clone(), 1 => vf.1 = None, 2 => { vf = files(&v, "v", true); vf.3 = None } 3 => { vf = files(&v, "v", true); vf.3 = Some("no".to_string()) } 4 => { sf = files(&v, "s", false); sf.1 = None } 5 => { sf = files(&v, "s", true); sf.3 = None } 6 => secs.push(".text".to_string()), 7 => vf.0 = Some(k::path("missing")),
        8 => { let mut b = block(&pairs(2)); let n = b.len(); k::fill(&mut b[n - 24..n - 22], "size"); let x = get64(&b, n - 24); k::assume(x != n as u64 - 8); f = m.with(&b) } _ => { f = b"just a text file, nothing to sign".to_vec() } }
    let i = k::put_file("in", &f); let (o, _) = out(&i); let before = k::get_file(&o); let r = execute(args(&i, &o, vf, sf, secs)); k::check(r.is_err(), "impossible signing reported as done"); k::check(same(&k::get_file(&i).unwrap(), &f), "input damaged by a failed run"); k::check(k::get_file(&o) == before, "output touched by a failed run"); k::cover(1)
}
/// many sections: the block must not exceed its limit, or the run must fail
fn crowded() {
    let c = C { c64: true, le: true }; let n = k::pick("n", &[1usize, 100, 160, 161, 170, 230, 500, 600]); let names: Vec<String> = (0..n).map(|i| format!(".section{:03}", i)).collect(); let x = k::bytes("x", 1); let l: Vec<(&str, u64, &[u8])> = names.iter().map(|s| (&s[..], 1u64, &x[..])).collect(); let f = c.build(&l, &[]); let j = Job { v: cfg(false, 1, 0), s: None, vf: files(&cfg(false, 1, 0), "v", false), sf: (None, None, None, None) }; let i = k::put_file("in", &f); let o = k::path("out"); let t0 = now();
    let info = || (0..n).map(|q| { let h = c.sh(&f, q + 1); (c.name(&f, q + 1), h.off, h.size) }).collect::<Vec<_>>(); let refd = |a: &Algorithms| { let h = hash_of(a); let mut l = vec![]; for _ in 0..n { chunks(&x, 1 << 20, h, &mut l); } finish(&l, h) };
    match execute(args(&i, &o, j.vf.clone(), j.sf.clone(), names.clone())) { Ok(()) => { let g = k::get_file(&o).unwrap(); let s = c.find(&g, b".ksu_sign").unwrap(); let raw = c.data(&g, s).to_vec(); match SigningBlock::from_u8(&raw) { Ok(b) => { block_ok(&b, &raw, &j, refd, (t0, now()), Some(info())); k::cover(1) } Err(_) => k::check(false, "signed ELF whose block cannot be read back") } match SignableFile::open(&o).map(|s| s.signing_block()) { Ok(Ok(Some(_))) => {} _ => k::check(false, "signed ELF cannot be read back") } }
        Err(_) => { k::check(n == 600, "section list that fits refused"); k::check(k::get_file(&o).is_none(), "output of a failed run"); k::cover(2) } }
}
k::table!(module, elf, refused, crowded);
