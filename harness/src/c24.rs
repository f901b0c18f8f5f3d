//! certificate chains: trusted exactly if a valid path leads to a configured root
use crate::{k, keyx::*, sigx::*, util::*, x509::*};
use ksusig::{CertChainVerifier, TrustedRoots};
fn root(n: &'static str, i: u8) -> X { X::ca(n, ident(i, true), n, ident(i, true)) }
/// who issued the leaf
fn when() -> When { match k::range("when", 0, 2) { 0 => When::Ok, 1 => When::Past, _ => When::Future } }
fn eku() -> Use { match k::range("eku", 0, 3) { 0 => Use::Code, 1 => Use::Both, 2 => Use::Web, _ => Use::None } }
/// the leaf's own properties under a fixed good path
fn leaf() {
    let mut l = X::leaf(ident(5, k::flag("p384")), "root", ident(1, true)); l.when = when(); l.eku = eku(); l.ca = k::flag("ca"); let forged = k::flag("forged"); if forged { l.by = ident(9, true) } let stranger = k::flag("stranger"); if stranger { l.issuer = "other" }
    let d = l.der(); let mut r = TrustedRoots::new(); let rs = k::range("roots", 0, 3); if rs & 1 == 1 { r.add_root(root("root", 1).der()) } if rs >= 2 { r.add_root(root("other", 2).der()) } let direct = k::flag("direct"); if direct { r.add_root(d.clone()) } let garbage = k::flag("garbage"); if garbage { r.add_root(vec![1, 2, 3]) }
    let n = (rs & 1) + (rs >= 2) as usize + direct as usize + garbage as usize; k::check(r.roots().len() == n && r.is_empty() == (n == 0) && r.is_direct_root(&d) == direct, "root store");
    let want = direct || (rs & 1 == 1 && !forged && !stranger && l.when == When::Ok && (l.eku == Use::Code || l.eku == Use::Both) && !l.ca);
    let (chain, trust, err) = CertChainVerifier::new(r).verify_chain(&d, &[]); k::check(trust == want, "trusted exactly with a valid path to a root"); k::check(!trust || chain, "trusted but not a valid chain"); k::check(trust == err.is_none(), "reason given exactly if not trusted"); if l.when != When::Ok && n > 0 { k::check(chain == direct, "chain called valid outside its validity period") } k::cover(if trust { 1 } else { 2 });
}
/// intermediates in any number and order
fn path() {
    let l = X::leaf(ident(5, false), "mid", ident(3, true)).der(); let n = k::range("n", 0, k::param(0) as usize); let mut v = vec![]; let mut good = false; let mut order = true; let mut prev = "mid"; let mut upper = false; let mut viaupper = false;
    let mut kinds = vec![];
    for _ in 0..n { let kind = k::range("kind", 0, 7); kinds.push(kind); let mut x = X::ca("mid", ident(3, true), "root", ident(1, true));
        match kind { 0 => good = true, 1 => x.when = When::Past, 2 => x.when = When::Future, 3 => x.ca = false, 4 => x.by = ident(9, true), 5 => { x = X::ca("top", ident(4, true), "root", ident(1, true)); upper = true } 6 => { x.issuer = "top"; x.by = ident(4, true); viaupper = true } _ => { v.push(vec![0x30, 1, 0]); order = false; continue } }
        order &= x.subject == prev; prev = x.issuer; v.push(x.der()); }
    let mut r = TrustedRoots::new(); let rs = k::range("roots", 0, 3); if rs & 1 == 1 { r.add_root(root("root", 1).der()) } if rs >= 2 { r.add_root(root("root", 8).der()) } let builtin = k::flag("midroot"); if builtin { r.add_root(X::ca("mid", ident(3, true), "root", ident(1, true)).der()) }
    let want = builtin || (rs & 1 == 1 && (good || (upper && viaupper))); let (chain, trust, err) = CertChainVerifier::new(r).verify_chain(&l, &v);
    k::check(trust == want, "trusted exactly with a valid path to a root"); k::check(!trust || chain, "trusted but not a valid chain"); k::check(trust == err.is_none(), "reason given exactly if not trusted"); k::check(!chain || trust || order, "chain of certificates that do not name each other called valid"); k::cover(if trust { 1 } else if chain { 3 } else { 2 });
}
/// roots from PEM files, and the built-in one
fn pems() {
    let mut d = root("root", 1); d.by = vec![]; let d = d.der(); /* a root's own signature plays no part */ let mut r = TrustedRoots::new(); let tag = k::pick("tag", &["CERTIFICATE", "PUBLIC KEY", "TRUSTED CERTIFICATE", "X509 CRL"]); let mut p = pem(tag, &d, k::pick("nl", &["\n", "\r\n"])); let bad = k::flag("damage"); if bad { p[40] = b'!' }
    match r.add_root_pem(&p) { Ok(()) => { k::check(tag == "CERTIFICATE" && !bad && r.roots().len() == 1 && same(&r.roots()[0], &d) && r.is_direct_root(&d), "root from PEM"); k::cover(1) } Err(_) => { k::check(tag != "CERTIFICATE" || bad, "readable root refused"); k::check(r.is_empty(), "refused root kept"); k::cover(2) } }
    let x = X::leaf(ident(5, false), "root", ident(1, true)).der(); let (_, t, _) = CertChainVerifier::new(r).verify_chain(&x, &[]); k::check(t == (tag == "CERTIFICATE" && !bad), "trust follows the loaded root");
    let b = CertChainVerifier::with_builtin_roots(); k::check(b.trusted_roots().roots().len() == 1 && b.trusted_roots().trust_anchors().len() == 1, "built-in root"); let (_, t, e) = b.verify_chain(&x, &[d.clone()]); k::check(!t && e.is_some(), "built-in store trusts a stranger"); let own = b.trusted_roots().roots()[0].clone(); k::check(b.verify_chain(&own, &[]).1, "built-in root itself");
}
k::table!(leaf, path, pems);
