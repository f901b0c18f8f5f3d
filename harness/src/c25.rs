//! verdicts: library aggregate, module front ends, verify and info commands
use crate::cli::{info, verify};
use crate::{k, keyx::*, sigx::*, util::*, x509::*};
use ksusig::{Module, TrustedRoots, VerifyAllResult, VerifyError, VerifyResult};
fn rootx() -> X { let mut d = X::ca("root", ident(1, true), "root", ident(1, true)); d.by = vec![]; d }
fn roots(on: bool) -> TrustedRoots { let mut r = TrustedRoots::new(); if on { r.add_root(rootx().der()); } r }
/// is_valid and the accessors, for every combination of outcomes
fn verdict() {
    fn one(n: &str) -> (Result<VerifyResult, VerifyError>, bool, bool) { match k::range(n, 0, 3) { 0 => (Err(VerifyError::NoSignature), false, false), 1 => (Err(VerifyError::MultiSignerFailure(vec![])), true, false), 2 => (Err(VerifyError::InvalidSignature(String::new())), true, false), _ => { let r = VerifyResult { signature_valid: k::flag("s"), digest_valid: k::flag("d"), cert_chain_valid: k::flag("c"), is_trusted: k::flag("t"), ..Default::default() }; let ok = r.signature_valid && r.digest_valid && r.cert_chain_valid && r.is_trusted; (Ok(r), true, ok) } } }
    let ((v2, hv, ov), (st, hs, os)) = (one("v2"), one("stamp")); let (ev, es) = (v2.is_err(), st.is_err()); let a = VerifyAllResult { v2, source_stamp: st };
    k::check(a.has_v2() == hv && a.has_source_stamp() == hs && a.v2_error().is_some() == ev && a.source_stamp_error().is_some() == es, "what is there"); let want = (hv || hs) && (ov || !hv) && (os || !hs); k::check(a.is_valid() == want, "valid exactly if something is signed and all of it is fully valid"); k::cover(if want { 1 } else { 2 });
}
/// a module with any combination of right and wrong v2 signature and stamp
struct M { f: Vec<u8>, v2: Option<bool>, stamp: Option<bool>, d512: bool }
fn module() -> M {
    let m = Mod::any(k::param(0) as usize, 1, 0, 0); let p = k::flag("p384"); let (a, id) = if p { (ksusig::Algorithms::ECDSA_SHA2_512, 0x202) } else { (ksusig::Algorithms::ECDSA_SHA2_256, 0x201) }; let want = m.digest(&a);
    let part = |stamp: bool, n: &str| -> (Vec<u8>, Option<bool>) { let how = k::range(n, 0, 8); if how == 0 { return (vec![], None); } let key = ident(if stamp { 6 } else { 5 }, p);
        // how: 1 right; 2 other content; 3 signature by another key; 4 certificate of another key; 5 untrusted issuer; 6 expired; 7 no signature; 8 no certificate
        let mut x = X::leaf(key.clone(), "root", ident(1, true)); if how == 4 { x.key = ident(9, p) } if how == 5 { x.by = ident(9, true) } if how == 6 { x.when = When::Past } let mut same_content = true;
        let dg = if how == 2 { let mut o = m.clone(); let c = if k::flag("end") { &mut o.cd } else { &mut o.content }; if c.is_empty() { c.push(1); same_content = false } else { k::fill(&mut c[..1], "other"); let eq = same(&o.content, &m.content) && same(&o.cd, &m.cd); same_content = eq; } o.digest(&a) } else { want.clone() };
        let dw = vec![rec(id, &dg)]; let certs = if how == 8 { vec![] } else { vec![lp(&x.der())] }; let s = if stamp { stamp_signed(&dw, &certs, &[]) } else { v2_signed(&dw, &certs, &[]) }; let sig = if how == 7 { vec![] } else { vec![rec(id, &ref_sign(&if how == 3 { ident(9, p) } else { key.clone() }, &s))] }; let b = signer(&s, &sig, &ref_pub(&key)); (if stamp { stamp_pair(&b) } else { v2_pair(&[b]) }, Some(how == 1 || (how == 2 && same_content))) };
    let (a1, v2) = part(false, "v2"); let (a2, stamp) = part(true, "stamp"); let c = if k::flag("swap") { cat(&[&a2, &a1]) } else { cat(&[&a1, &a2]) }; let f = m.with(&block(&c)); M { f, v2, stamp, d512: p }
}
fn full(r: &Result<VerifyResult, VerifyError>) -> bool { matches!(r, Ok(r) if r.signature_valid && r.digest_valid && r.cert_chain_valid && r.is_trusted) }
fn library() {
    let m = module(); let f = Module::new(k::put_file("m", &m.f)).unwrap(); let on = k::flag("root"); let r = if on || k::flag("own") { f.verify_with_roots(roots(on)) } else { f.verify_full() };
    k::check(full(&r.v2) == (on && m.v2 == Some(true)), "v2 verdict"); k::check(full(&r.source_stamp) == (on && m.stamp == Some(true)), "stamp verdict"); k::check(r.has_v2() == m.v2.is_some() && r.has_source_stamp() == m.stamp.is_some(), "presence");
    let want = on && (m.v2.is_some() || m.stamp.is_some()) && m.v2 != Some(false) && m.stamp != Some(false); k::check(r.is_valid() == want, "overall verdict"); k::cover(if want { 1 } else { 2 });
}
/// files without a (readable) signature are never valid
fn unsigned() {
    let m = Mod::any(2, 1, 0, 0); let f = match k::range("kind", 0, 3) { 0 => m.bytes(), 1 => m.with(&block(&[])), 2 => m.with(&block(&pair(0x77, &[1]))), _ => { let mut b = block(&v2_pair(&[])); let n = b.len(); k::fill(&mut b[n - 24..n - 23], "size"); k::assume(b[n - 24] as usize != n - 8); m.with(&b) } };
    let p = k::put_file("m", &f); let r = Module::new(p.clone()).unwrap().verify_with_roots(roots(true)); k::check(!r.is_valid() && !full(&r.v2) && !full(&r.source_stamp), "unsigned module is valid"); k::check(verify::execute(verify::VerifyArgs { module: p, root_cert: None, verbose: false }).is_err(), "unsigned module verifies"); k::cover(1);
}
fn command() {
    let m = module(); let p = k::put_file("m", &m.f); let rt = k::range("root", 0, 3); let root = match rt { 0 => None, 1 => Some(k::put_file("r", &pem("CERTIFICATE", &rootx().der(), "\n"))), 2 => Some(k::put_file("r", &pem("PUBLIC KEY", &rootx().der(), "\n"))), _ => Some(k::path("none")) };
    let r = verify::execute(verify::VerifyArgs { module: p.clone(), root_cert: root, verbose: k::flag("verbose") }); let want = rt == 1 && m.v2 == Some(true) && m.stamp != Some(false); k::check(r.is_ok() == want, "exit status"); k::check(same(&k::get_file(&p).unwrap(), &m.f), "file changed"); k::cover(if want { 1 } else { 2 });
}
/// the info command shows, but never vouches for content or strangers
fn report() {
    let has = |t: &[u8], n: &[u8]| t.windows(n.len()).any(|w| w == n); let m = module(); let p = k::put_file("m", &m.f); let r = info::execute(info::InfoArgs { module: p.clone() }); k::check(r.is_ok(), "readable block refused"); let t = k::stdout_text(); k::check(same(&k::get_file(&p).unwrap(), &m.f), "file changed");
    k::check(!has(&t, b"Content integrity verified: true") && !has(&t, b"Trusted: true"), "vouched for without checking"); k::check(has(&t, b"V2 Signature Scheme") == m.v2.is_some() && has(&t, b"Source Stamp\n") == m.stamp.is_some(), "what the block holds"); k::cover(1);
}
k::table!(verdict, library, unsigned, command, report);
