//! algorithm ids, digests, signing and verification
use crate::{k, sigx::*, util::*};
use ksusig::Algorithms;
fn ids() {
    let (x, y) = (k::u32("x"), k::u32("y")); let (a, b) = (Algorithms::from(x), Algorithms::from(y));
    k::check(a.to_u32() == x && u32::from(&a) == x && x == a, "id -> algorithm -> id"); k::check((a == b) == (x == y), "different ids are different algorithms"); k::check((x == b) == (x == y), "comparison with an id");
    k::check((a == Algorithms::ECDSA_SHA2_256) == (x == 0x201) && (a == Algorithms::ECDSA_SHA2_512) == (x == 0x202) && matches!(a, Algorithms::Unknown(_)) == (x != 0x201 && x != 0x202), "assigned ids");
    let m = k::bytes("m", 3); let h = a.hash(&m); match x { 0x201 => { k::check(same(&h, &sha256(&m)), "SHA-256"); k::cover(1) } 0x202 => { k::check(same(&h, &sha512(&m)), "SHA-512"); k::cover(2) } _ => { k::check(h.is_empty(), "unknown algorithm has no digest"); k::cover(3) } }
}
fn alg() -> Algorithms { match k::range("alg", 0, 2) { 0 => Algorithms::ECDSA_SHA2_256, 1 => Algorithms::ECDSA_SHA2_512, _ => Algorithms::from(k::u32("algid")) } }
/// signed by one (key, algorithm, message), checked against another: accepted iff all three agree
fn cross() {
    let n = k::param(0) as usize; let sk = secret(k::flag("p384"), "sk"); let a = alg(); let m = k::bytes("m", k::range("n", 0, n)); let key = key_of(&sk);
    k::check(same(&key.public_key_der().unwrap(), &ref_pub(&sk)), "public key");
    let fits = a.to_u32() == if sk.len() == 48 { 0x202 } else { 0x201 };
    let sig = match a.sign(&key, &m) { Ok(s) => { k::check(fits, "signed with a key of another kind"); s } Err(_) => { k::check(!fits, "fitting key refused"); k::cover(3); return } };
    k::check(ref_verify(a.to_u32(), &ref_pub(&sk), &m, &sig), "signature is over the digest of exactly the message");
    let sk2 = secret(k::flag("q384"), "sk2"); let b = alg(); let m2 = k::bytes("m2", k::range("n2", 0, n)); let good = same(&sk, &sk2) && a == b && same(&m, &m2);
    let r = b.verify(&ref_pub(&sk2), &m2, &sig).is_ok(); k::check(r == good, "verifies exactly for the same key, algorithm and message"); if r { k::cover(1) } else { k::cover(2) }
}
/// a damaged signature or key encoding never verifies
fn damaged() {
    let sk = secret(k::flag("p384"), "sk"); let a = if sk.len() == 48 { Algorithms::ECDSA_SHA2_512 } else { Algorithms::ECDSA_SHA2_256 }; let m = k::bytes("m", 2); let mut pk = ref_pub(&sk); let mut sig = ref_sign(&sk, &m);
    k::check(a.verify(&pk, &m, &sig).is_ok(), "reference signature accepted");
    match k::range("how", 0, 4) {
        0 => { let i = k::range("at", 0, if k::symbolic() { 17 } else { 17 }); k::assume(i < sig.len()); let d = k::u8("flip"); k::assume(d != 0); sig[i] ^= d; k::check(a.verify(&pk, &m, &sig).is_err(), "changed signature accepted") }
        1 => { sig.truncate(k::range("keep", 0, 17)); k::check(a.verify(&pk, &m, &sig).is_err(), "truncated signature accepted") }
        2 => { sig.push(k::u8("more")); k::check(a.verify(&pk, &m, &sig).is_err(), "signature with surplus accepted") }
        3 => { pk.truncate(k::pick("keep", &[0usize, 1, 26, 58, 87])); k::check(a.verify(&pk, &m, &sig).is_err(), "truncated key accepted") }
        _ => { let v = k::bytes("any", 4); k::check(a.verify(&v, &m, &sig).is_err() && a.verify(&pk, &m, &v).is_err(), "garbage accepted") }
    }
    k::cover(1)
}
k::table!(ids, cross, damaged);
