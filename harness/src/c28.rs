//! one failing, interrupted or partial open, read or write during a command: an error or the result of the undisturbed run, never anything in between
use crate::cli::{digest, info, sign, verify};
use crate::{elfx::*, k, keyx::*, util::*, x509::*};
use std::path::{Path, PathBuf};
/// arm one fault; true if the operation fails for good (an interrupted or partial one can be continued)
fn arm(op: u32) -> bool { let kind = k::range("kind", 0, if op == k::OPEN { 1 } else { 2 }); let nth = k::range("nth", 0, k::param(0) as usize); k::fault(op, nth as u32, kind as u32); kind == 0 }
fn op() -> u32 { k::pick("op", &[k::READ, k::WRITE, k::OPEN]) }
/// verdict on a run: failed for good -> error; otherwise the undisturbed outcome
fn verdict(hard: bool, ok: bool, was_ok: bool) { let hit = k::fault_hit(); if hit && hard { k::cover(2); k::check(!ok, "failed operation reported as success"); } else { k::cover(if hit { 3 } else { 1 }); k::check(ok == was_ok, "interrupted or partial transfer changes the outcome"); } }
fn input(elf: bool) -> Vec<u8> { if elf { C { c64: true, le: true }.build(&[(".text", 1, &k::bytes("t", 1)), (".rodata", 1, b"ro")], &[]) } else { let m = Mod { content: k::bytes("content", 1), cd: vec![1, 2], end: eocd(&[1; 12], 1, b"c") }; k::assume(m.content[0] != 0x7f); m.bytes() } }
fn creds(n: &str, id: u8) -> PathBuf { let key = ident(id, false); k::put_file(n, &p12_of(&pkcs8(&key), &X::leaf(key.clone(), "root", ident(1, true)).der(), &[], "pw")) }
fn sign_args(i: &Path, o: &Path, v: &Path) -> sign::SignArgs { sign::SignArgs { input: i.into(), output: o.into(), key: None, cert: None, p12: Some(v.into()), password: Some("pw".to_string()), stamp_key: None, stamp_cert: None, stamp_p12: None, stamp_password: None, elf_sections: vec![] } }
fn signing() {
    let f = input(k::flag("elf")); let i = k::put_file("in", &f); let v = creds("v.p12", 5); let r = k::path("ref"); k::check(sign::execute(sign_args(&i, &r, &v)).is_ok(), "undisturbed run"); let want = k::get_file(&r).unwrap();
    let out = k::range("out", 0, 2); let o = match out { 0 => k::path("out"), 1 => k::put_file("out", &[0x55; 70]), _ => i.clone() }; let before = k::get_file(&o); let op = op(); let hard = arm(op); let ok = sign::execute(sign_args(&i, &o, &v)).is_ok(); verdict(hard, ok, true);
    if ok { k::check(k::get_file(&o).map_or(false, |g| same(&g, &want)), "output differs from that of an undisturbed run"); } else if op != k::WRITE { k::check(k::get_file(&o) == before, "output touched although the run failed before writing it"); } if out < 2 { k::check(same(&k::get_file(&i).unwrap(), &f), "input changed"); }
}
fn digesting() {
    let elf = k::flag("elf"); let f = input(elf); let i = k::put_file("in", &f); let dump = k::flag("dump"); let a = |d: Option<PathBuf>| digest::DigestArgs { input: i.clone(), sha256: false, sha512: false, dump: d, elf_sections: vec![], format: digest::OutputFormat::Hex }; let r = k::path("ref");
    k::check(digest::execute(a(if dump { Some(r.clone()) } else { None })).is_ok(), "undisturbed run"); let text = k::stdout_text(); let want = k::get_file(&r); let d = k::path("d"); let hard = arm(op()); let ok = digest::execute(a(if dump { Some(d.clone()) } else { None })).is_ok(); verdict(hard, ok, true); let t2 = k::stdout_text();
    if ok { if dump { k::check(k::get_file(&d) == want, "dump differs from that of an undisturbed run"); } else { k::check(t2.len() == 2 * text.len() && same(&t2[text.len()..], &text), "digest differs from that of an undisturbed run"); } } else { k::check(same(&t2, &text), "digest printed by a failed run"); } k::check(same(&k::get_file(&i).unwrap(), &f), "input changed");
}
fn verifying() {
    let f = input(false); let i = k::put_file("in", &f); let o = k::path("s"); k::check(sign::execute(sign_args(&i, &o, &creds("v.p12", 5))).is_ok(), "signed"); let mut g = k::get_file(&o).unwrap(); let bad = k::flag("tampered"); if bad { let n = g.len(); g[n - 1] ^= 1; } let p = k::put_file("s", &g);
    let mut d = X::ca("root", ident(1, true), "root", ident(1, true)); d.by = vec![]; let root = k::put_file("root", &pem("CERTIFICATE", &d.der(), "\n")); let hard = arm(k::pick("op", &[k::READ, k::OPEN])); let ok = verify::execute(verify::VerifyArgs { module: p.clone(), root_cert: Some(root), verbose: false }).is_ok(); let hit = k::fault_hit(); if hit && hard { k::cover(2) } else { k::cover(if hit { 3 } else { 1 }); k::check(ok == !bad, "interrupted or partial transfer changes the verdict") } k::check(!(ok && bad), "tampered module accepted"); k::check(same(&k::get_file(&p).unwrap(), &g), "file changed");
}
fn informing() {
    let m = Mod { content: vec![7], cd: vec![1, 2], end: eocd(&[1; 12], 1, b"c") }; let f = match k::range("what", 0, 2) { 0 => m.bytes(), 1 => m.with(&block(&[])), _ => m.with(&block(&pairs(2))) }; let i = k::put_file("in", &f); let a = || info::InfoArgs { module: i.clone() }; let was = info::execute(a()).is_ok(); let text = k::stdout_text();
    let hard = arm(k::pick("op", &[k::READ, k::OPEN])); let ok = info::execute(a()).is_ok(); verdict(hard, ok, was); let t2 = k::stdout_text(); if ok { k::check(t2.len() == 2 * text.len() && same(&t2[text.len()..], &text), "report differs from that of an undisturbed run"); } k::check(same(&k::get_file(&i).unwrap(), &f), "file changed");
}
k::table!(signing, digesting, verifying, informing);
