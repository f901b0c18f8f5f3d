//! signature verification is sound and complete
use crate::{k, keyx::*, sigx::*, util::*, x509::*};
use ksusig::{DigestContext, SignatureVerifier, SigningBlock, TrustedRoots, VerifyError};
const IDS: [u32; 3] = [0x201, 0x202, 0x203];
fn right(alg: u32) -> Vec<u8> { vec![alg as u8, 0x77] }
fn ctx() -> DigestContext { let mut c = DigestContext::new(); c.add_digest(0x201, right(0x201)); c.add_digest(0x202, right(0x202)); c }
fn roots() -> TrustedRoots { let mut r = TrustedRoots::new(); r.add_root(X::ca("root", ident(1, true), "root", ident(1, true)).der()); r }
fn leaf(key: &[u8]) -> Vec<u8> { X::leaf(key.to_vec(), "root", ident(1, true)).der() }
fn verifier() -> SignatureVerifier { SignatureVerifier::with_trusted_roots(roots()) }
/// one signer and what is true of it
struct S { bytes: Vec<u8>, sig: bool, digest: bool, cert: bool, bound: bool }
/// free choice of everything a signer holds
fn any_signer(stamp: bool) -> S {
    let p = k::flag("p384"); let (me, other) = (ident(2, p), ident(3, p)); let own = if p { 0x202 } else { 0x201 };
    // digests
    let mut d = vec![]; for _ in 0..k::range("nd", 0, 2) { let a = k::pick("dalg", &IDS); let v = k::bytes("digest", 2); d.push((a, v)); }
    let dw: Vec<Vec<u8>> = d.iter().map(|(a, v)| rec(*a, v)).collect();
    let (certs, whose) = match k::range("cert", 0, 3) { 0 => (vec![], 0), 1 => (vec![lp(&leaf(&me))], 1), 2 => (vec![lp(&leaf(&other)), lp(&leaf(&me))], 2), _ => (vec![lp(&[0x30, 0x03, 2, 1, 1])], 3) };
    let signed = if stamp { stamp_signed(&dw, &certs, &[]) } else { v2_signed(&dw, &certs, &[]) };
    let pkind = k::range("pk", 0, 2); let (pk, mine) = match pkind { 0 => (ref_pub(&me), true), 1 => (ref_pub(&other), false), _ => { let mut x = ref_pub(&me); let n = x.len(); k::fill(&mut x[n - 1..], "pkbyte"); let ok = x[n - 1] == ref_pub(&me)[n - 1]; (x, ok) } };
    // signatures
    let mut sw = vec![]; let mut sig = true; let n = k::range("ns", 0, 2); let mut dig = n > 0;
    for i in 0..n { let a = if i == 0 { k::pick("salg", &[own, 0x203, 0x403 - own]) } else { own };
        let (s, good) = match if i == 0 { k::range("sig", 0, 4) } else { k::range("sig2", 0, 1) * 4 } { 0 => (ref_sign(&me, &signed), mine), 1 => (ref_sign(&other, &signed), pkind == 1), 2 => (ref_sign(&me, &lp(&signed)), false), 3 => (ref_sign(&me, &dw.concat()), false), _ => { let mut x = ref_sign(&me, &signed); let j = x.len() - 1; let o = x[j]; k::fill(&mut x[j..], "sigbyte"); let same = x[j] == o; (x, same && mine) } };
        let f = d.iter().find(|x| x.0 == a); sig &= good && a == own && f.is_some(); dig &= match f { Some(x) => same(&x.1, &right(a)), None => false }; sw.push(rec(a, &s)); }
    S { bytes: signer(&signed, &sw, &pk), sig: sig && n > 0, digest: dig, cert: whose > 0, bound: match whose { 0 => true, 1 => mine, 2 => pkind == 1, _ => false } }
}
fn judge(r: Result<ksusig::VerifyResult, VerifyError>, l: &[S], with: bool, stamp: bool) {
    let sound = |f: fn(&S) -> bool| { let mut x = true; for s in l { x &= f(s) } x };
    match r {
        Ok(r) => { k::check(r.signers.len() == l.len(), "every signer reported"); k::check(!r.digest_valid || with, "digest called valid without computed digests"); k::check(!r.digest_valid || sound(|s| s.digest), "digest called valid although it differs from the content's"); k::check(sound(|s| s.bound), "key that is not the certificate's accepted");
            if stamp { k::check(!(r.signature_valid && r.digest_valid) || sound(|s| s.sig), "invalid signature accepted") } else { k::check(!r.signature_valid || sound(|s| s.sig), "invalid signature accepted") }
            k::check(!r.is_trusted || sound(|s| s.cert), "trusted without a certificate"); k::check(!r.cert_chain_valid || sound(|s| s.cert), "chain valid without a certificate");
            if with && r.signature_valid && r.digest_valid && r.is_trusted && r.cert_chain_valid { k::check(sound(|s| s.sig && s.digest && s.cert && s.bound), "verified"); k::cover(1) } else { k::check(!sound(|s| s.sig && s.digest && s.cert && s.bound) || !with, "valid signature refused"); k::cover(2) }
            for (i, s) in l.iter().enumerate() { let q = &r.signers[i]; k::check(!(q.signature_valid && q.digest_valid) || (s.sig && s.digest && s.bound), "per-signer result") } }
        Err(e) => { k::check(!sound(|s| s.sig && s.digest && s.bound), "valid signature is an error"); k::check(matches!(e, VerifyError::MultiSignerFailure(_)), "kind of error"); k::cover(3) }
    }
}
fn v2() { let s = any_signer(false); let b = SigningBlock::from_u8(&block(&v2_pair(&[s.bytes.clone()]))).unwrap(); let with = k::flag("ctx"); let c = ctx(); judge(verifier().verify_v2_with_digest(&b, if with { Some(&c) } else { None }), &[s], with, false); }
fn stamp() { let s = any_signer(true); let b = SigningBlock::from_u8(&block(&stamp_pair(&s.bytes))).unwrap(); let with = k::flag("ctx"); let c = ctx(); let r = if !with && k::flag("short") { verifier().verify_source_stamp(&b) } else { verifier().verify_source_stamp_with_digest(&b, if with { Some(&c) } else { None }) }; judge(r, &[s], with, true); }
/// a signer that is right, or wrong in one way
fn simple(stamp: bool, i: usize) -> S {
    let how = k::range("how", 0, 6); let (me, other) = (ident(2 + i as u8, false), ident(9, false)); let mut d = right(0x201); if how == 1 { k::fill(&mut d, "digest"); } let dig = same(&d, &right(0x201)); let dw = vec![rec(if how == 2 { 0x202 } else { 0x201 }, &d)]; let certs = if how == 3 { vec![] } else { vec![lp(&leaf(if how == 4 { &other } else { &me }))] };
    let signed = if stamp { stamp_signed(&dw, &certs, &[]) } else { v2_signed(&dw, &certs, &[]) }; let mut s = ref_sign(if how == 5 { &other } else { &me }, &signed); let mut good = how != 5; if how == 6 { let x = s[7]; k::fill(&mut s[7..8], "sigbyte"); good = s[7] == x; }
    S { bytes: signer(&signed, &[rec(0x201, &s)], &ref_pub(&me)), sig: good && how != 2, digest: dig && how != 2, cert: how != 3, bound: how != 4 }
}
/// several signers, spread over one or two pairs, next to other pairs
fn many() {
    let n = k::range("n", 0, k::param(0) as usize); let mut l = vec![]; for i in 0..n { l.push(simple(false, i)); } let cut = k::range("cut", 0, n); let b = |r: &[S]| v2_pair(&r.iter().map(|s| s.bytes.clone()).collect::<Vec<_>>()); let raw = cat(&[&pair(0x77, &[1, 2]), &b(&l[..cut]), &b(&l[cut..])]);
    let b = SigningBlock::from_u8(&block(&raw)).unwrap(); let with = k::flag("ctx"); let c = ctx(); let v = verifier(); let r = v.verify_v2_with_digest(&b, if with { Some(&c) } else { None }); k::check(matches!(v.verify_source_stamp_with_digest(&b, Some(&c)), Err(VerifyError::NoSignature)), "stamp that is not there");
    if n == 0 { k::check(matches!(r, Err(VerifyError::NoSignature)), "no signers"); k::cover(4) } else { if with && k::flag("roots") { judge(ksusig::verifier::verify_with_roots_and_digest(&b, roots(), &c), &l, with, false) } else { judge(r, &l, with, false) } }
}
/// any byte of a fully valid signed block changed (lengths: see C03): decoding fails or verification does
fn tamper() {
    let st = k::flag("stamp"); let key = ident(2, k::flag("p384")); let a = if key.len() == 48 { 0x202 } else { 0x201 }; let dw = vec![rec(a, &right(a))]; let certs = vec![lp(&leaf(&key))]; let signed = if st { stamp_signed(&dw, &certs, &[attr(0x55, &[1, 2])]) } else { v2_signed(&dw, &certs, &[attr(0x55, &[1, 2])]) };
    let s = signer(&signed, &[rec(a, &ref_sign(&key, &signed))], &ref_pub(&key)); let p = if st { stamp_pair(&s) } else { v2_pair(&[s]) }; let mut f = block(&p);
    let cl = certs[0].len() - 4; let alg = 20 + if st { 0 } else { 4 } + 16; let dig = alg + 8; let cert = dig + 2 + 8; let att = cert + cl + 8; let sa = att + 6 + if st { 0 } else { 4 } + 8; let sig = sa + 8; let pk = f.len() - 24 - ref_pub(&key).len(); k::check(f[cert] == 0x30 && f[att] == 0x55 && f[pk] == 0x30 && f[sig] == 0x30 && sig + f[sig + 1] as usize + 2 + 4 == pk, "layout");
    let (mut i, mut flip) = (0, false);
    match k::range("part", 0, 3) { 0 => { let mut at = k::range("at", 0, 19); for (o, n) in [(alg, 4), (dig, 2), (att, 6), (sa, 4), (16, 4)] { if i == 0 { if at < n { i = o + at } else { at -= n } } } } 1 => { i = cert + k::range("c", 0, 600); k::assume(i < cert + cl); flip = true } 2 => { i = sig + k::range("s", 0, 127); k::assume(i < pk - 4) } _ => { i = pk + k::range("k", 0, 127); k::assume(i < f.len() - 24) } }
    let old = f[i]; if flip { f[i] ^= k::pick("flip", &[1u8, 0x20, 0x80]); } else { k::fill(&mut f[i..i + 1], "new"); } let c = ctx(); let changed = f[i] != old;
    match SigningBlock::from_u8(&f) { Err(_) => { k::check(changed, "block refused"); k::cover(3) } Ok(b) => { let v = verifier(); let r = if st { v.verify_source_stamp_with_digest(&b, Some(&c)) } else { v.verify_v2_with_digest(&b, Some(&c)) };
        match r { Ok(r) => { if r.signature_valid && r.digest_valid { k::check(!changed, "changed block verifies"); k::check(r.is_trusted && r.cert_chain_valid, "valid block"); k::cover(1) } else { k::check(changed, "valid block refused"); k::cover(2) } } Err(_) => { k::check(changed, "valid block refused"); k::cover(2) } } } }
}
k::table!(v2, stamp, many, tamper);
