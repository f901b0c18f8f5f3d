//! digest command: printed digest, dumped regions
use crate::cli::digest::{execute, DigestArgs, OutputFormat};
use crate::{k, util::*, elfx::*};
use ksusig::Algorithms;
use std::path::PathBuf;
fn hex(d: &[u8]) -> Vec<u8> { let h = |n: u8| { let n = n as i16; (n + 48 + (((9 - n) >> 8) & 39)) as u8 }; d.iter().flat_map(|b| [h(b >> 4), h(b & 15)]).collect() }
/// standard base64 with padding
static T: [u8; 64] = *b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(v: &[u8]) -> Vec<u8> { let c = |n: u8| T[(n & 63) as usize]; let mut o = vec![]; for x in v.chunks(3) { let (a, b, d) = (x[0], if x.len() > 1 { x[1] } else { 0 }, if x.len() > 2 { x[2] } else { 0 }); o.push(c(a >> 2)); o.push(c(a << 4 | b >> 4)); o.push(if x.len() > 1 { c(b << 2 | d >> 6) } else { b'=' }); o.push(if x.len() > 2 { c(d) } else { b'=' }); } o }
/// one run over an input whose signed parts are known
fn go(f: &[u8], parts: &[&[u8]], digest: impl Fn(&Algorithms) -> Vec<u8>, secs: Vec<String>, ok: bool) {
    let input = k::put_file("in", f); let (s2, s5, b6) = match k::range("alg", 0, 2) { 0 => (false, false, k::flag("b64")), 1 => (true, false, k::flag("b64")), _ => (false, true, k::flag("b64")) };
    let mode = k::range("dump", 0, 3); let ok = ok && mode < 3; let dump: Option<PathBuf> = match mode { 3 => Some(input.clone()), 0 => None, 1 => Some(k::path("d")), _ => Some(k::put_file("d", b"old content that is longer than the dump will be, so that leftovers would show")) };
    let r = execute(DigestArgs { input: input.clone(), sha256: s2, sha512: s5, dump: dump.clone(), elf_sections: secs, format: if b6 { OutputFormat::Base64 } else { OutputFormat::Hex } });
    k::check(same(&k::get_file(&input).unwrap(), f), "input changed"); k::check(r.is_ok() == ok, "exit status"); let text = k::stdout_text();
    if !ok { k::check(text.is_empty(), "digest printed for a refused file"); k::cover(3); return }
    match dump { Some(p) => { k::check(text.is_empty(), "digest printed in dump mode"); k::check(k::get_file(&p).map_or(false, |d| same(&d, &cat(parts))), "dump holds exactly the signed bytes in order"); k::cover(2) }
        None => { let d = digest(if s5 { &Algorithms::ECDSA_SHA2_512 } else { &Algorithms::ECDSA_SHA2_256 }); let mut w = if b6 { b64(&d) } else { hex(&d) }; w.push(b'\n'); k::check(text.len() == w.len(), "digest printed"); for i in 0..w.len() { k::check(text[i] == w[i], "digest printed"); } k::cover(1) } }
}
fn module() {
    let m = Mod::any(k::param(0) as usize, 2, 1, 1); let kind = k::range("kind", 0, 2); let b = block(&pairs(2)); let f = if kind == 0 { m.bytes() } else { m.with(&b) }; k::assume(f[0] != 0x7f); let end = f[f.len() - m.end.len()..].to_vec();
    let secs = if kind == 2 { vec![".text".to_string()] } else { vec![] }; go(&f, &[&m.content, &m.cd, &end], |a| m.digest(a), secs, kind < 2)
}
fn elf() {
    let c = C::any(); let (x, y) = (k::bytes("t", 2), k::bytes("r", 2)); let mut f = c.build(&[(".rodata", 1, &y), (".data", 1, b"dd"), (".text", 1, &x), (".in", 1, b"i")], &[]); let inner = c.sh(&f, 3).off; c.setf(&mut f, 4, 4, inner + 1); let refd = |p: &[&[u8]], a: &Algorithms| { let h = hash_of(a); let mut l = vec![]; for p in p { chunks(p, 1 << 20, h, &mut l); } finish(&l, h) };
    match k::range("secs", 0, 4) { 4 => go(&f, &[&x, &x[1..]], |a| refd(&[&x, &x[1..]], a), vec![".in".to_string(), ".text".to_string()], true), 0 => go(&f, &[&y, &x], |a| refd(&[&y, &x], a), vec![], true), 1 => go(&f, &[&x], |a| refd(&[&x], a), vec![".text".to_string()], true), 2 => go(&f, &[b"dd", &x], |a| refd(&[b"dd", &x], a), vec![".text".to_string(), " .data".to_string()], true), _ => go(&f, &[], |_| vec![], vec![".nope".to_string()], false) }
}
/// dump across its copy buffer
fn large() { let n = k::pick("n", &[65535usize, 65536, 65537, 131072, 140000, 262143, 262145, (1 << 20) + 1]); let mut x = vec![0x11u8; n]; for i in [0, 65534, n - 1] { let e = (i + 2).min(n); k::fill(&mut x[i..e], "x"); } let m = Mod { end: eocd(&[0; 12], n as u32, &[]), content: x, cd: vec![7, 8] }; k::assume(m.content[0] == 1); let f = m.bytes(); let p = k::put_file("in", &f); let d = k::path("d");
    let r = execute(DigestArgs { input: p, sha256: false, sha512: false, dump: Some(d.clone()), elf_sections: vec![], format: OutputFormat::Hex }); k::check(r.is_ok() && k::get_file(&d).map_or(false, |d| same(&d, &f)), "dump of a large module"); k::cover(1) }
fn refused() { let n = k::range("n", 0, 25); let f = k::bytes("f", n); k::assume(ref_eocd(&f).is_none()); let i = k::put_file("in", &f); let dump = if k::flag("dump") { Some(k::path("d")) } else { None }; let r = execute(DigestArgs { input: i, sha256: false, sha512: false, dump: dump.clone(), elf_sections: vec![], format: OutputFormat::Hex }); k::check(r.is_err() && k::stdout_text().is_empty(), "digest of something that is not signable"); if let Some(p) = dump { k::check(k::get_file(&p).is_none(), "dump created") } k::cover(1) }
k::table!(module, elf, large, refused);
