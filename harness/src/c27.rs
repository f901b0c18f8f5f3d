//! what the sign command signs, verification accepts - and nothing that was changed afterwards
use crate::cli::{sign, verify};
use crate::{k, keyx::*, sigx::*, util::*, x509::*};
use ksusig::{Module, TrustedRoots};
use std::path::{Path, PathBuf};
fn rootx() -> X { let mut d = X::ca("root", ident(1, true), "root", ident(1, true)); d.by = vec![]; d }
fn root_pem() -> Vec<u8> { pem("CERTIFICATE", &rootx().der(), "\n") }
/// PKCS#12 file (PEM loading is C19's; base64 of a certificate's signature is out of reach); with an intermediate if asked
fn creds(n: &str, id: u8, p384: bool, mid: bool) -> (Option<PathBuf>, Option<String>) {
    let key = ident(id, p384); let (leaf, chain) = if mid { (X::leaf(key.clone(), "mid", ident(3, true)).der(), vec![X::ca("mid", ident(3, true), "root", ident(1, true)).der()]) } else { (X::leaf(key.clone(), "root", ident(1, true)).der(), vec![]) };
    (Some(k::put_file(&format!("{n}.p12"), &p12_of(&pkcs8(&key), &leaf, &chain, "pw"))), Some("pw".to_string()))
}
fn sign(m: &[u8], free: bool) -> Vec<u8> {
    let i = k::put_file("in", m); let o = k::path("out"); let f = |n: &str| free && k::flag(n);
    let v = creds("v", 5, f("p384"), f("mid")); let s = if free && k::flag("stamp") { creds("s", 6, f("sp384"), false) } else if !free { creds("s", 6, true, false) } else { (None, None) };
    k::check(sign::execute(sign::SignArgs { input: i, output: o.clone(), key: None, cert: None, p12: v.0, password: v.1, stamp_key: None, stamp_cert: None, stamp_p12: s.0, stamp_password: s.1, elf_sections: vec![] }).is_ok(), "module not signed"); k::get_file(&o).unwrap_or_default()
}
fn verified(p: &Path, root: &[u8]) -> bool { verify::execute(verify::VerifyArgs { module: p.into(), root_cert: Some(k::put_file("root", root)), verbose: false }).is_ok() }
fn valid(p: &Path) -> bool { let mut r = TrustedRoots::new(); r.add_root(rootx().der()); match Module::new(p.to_path_buf()) { Ok(m) => m.verify_with_roots(r).is_valid(), Err(_) => false } }
/// every kind of credentials, every small module: signed once or twice, verifies under its root and under no other
fn module() {
    let m = Mod::any(k::param(0) as usize, 1, 1, 1); let f = m.bytes(); k::assume(f[0] != 0x7f); let mut g = sign(&f, true); if k::flag("twice") { g = sign(&g, false); } let p = k::put_file("signed", &g);
    k::check(verified(&p, &root_pem()), "verify command refuses a signed module"); k::check(valid(&p), "library refuses a signed module"); let mut other = X::ca("root", ident(8, true), "root", ident(8, true)); other.by = vec![]; let other = other.der(); k::check(!verified(&p, &pem("CERTIFICATE", &other, "\n")), "verifies under a stranger's root"); k::check(same(&k::get_file(&p).unwrap(), &g), "file changed"); k::cover(1);
}
/// any byte outside the block changed (record signature, directory offset and comment length: C04-C06), added or removed; the block moved to another module
fn tamper() {
    let m = Mod { content: k::bytes("content", 2), cd: k::bytes("cd", 2), end: eocd(&[1; 12], 2, b"c") }; k::assume(m.content[0] != 0x7f && m.cd[0] != b'P' && m.cd[1] != b'P'); let g = sign(&m.bytes(), false); let n = g.len(); let tail = m.cd.len() + m.end.len(); let raw = g[m.content.len()..n - tail].to_vec(); let mut changed = true;
    let h = match k::range("how", 0, 3) {
        0 => { let i = k::range("at", 0, 16); let i = match i { 0..=1 => i, 2..=3 => n - tail + i - 2, 4..=15 => n - m.end.len() + i, _ => n - 1 }; let mut h = g.clone(); let o = h[i]; k::fill(&mut h[i..i + 1], "new"); changed = h[i] != o; h }
        1 => { let i = k::range("at", 0, 4); let i = if i < 3 { i } else { n - tail + i - 2 }; let mut h = g.clone(); h.insert(i, k::u8("new")); h }
        2 => { let i = k::range("at", 0, 3); let i = if i < 2 { i } else { n - tail + i - 2 }; let mut h = g.clone(); h.remove(i); h }
        _ => { let o = Mod { content: k::bytes("other", k::range("no", 0, 3)), cd: k::bytes("ocd", k::range("nocd", 0, 3)), end: vec![] }; let o = Mod { end: eocd(&[1; 12], o.content.len() as u32, b"c"), ..o }; changed = !(same(&o.content, &m.content) && same(&o.cd, &m.cd)); o.with(&raw) }
    };
    let p = k::put_file("signed", &h); let (a, b) = (verified(&p, &root_pem()), valid(&p)); k::check(a != changed, "verify command"); k::check(b != changed, "library verdict"); k::cover(if changed { 2 } else { 1 });
}
k::table!(module, tamper);
