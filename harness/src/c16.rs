//! every signer front end: what is stored is what was given, and the signature verifies over it
use crate::{k, sigx::*, util::*};
use ksusig::{ModuleSignerConfig, NewSourceStampSigner, SourceStampSigner, SourceStampSignerBuilder, SourceStampSignerConfig, V2Signer, ValueSigningBlock};
fn v2() {
    let c = Cfg::any("sk", k::param(0) as usize); let (d, dw) = digests(k::param(0) as usize); let plain = c.chain.is_empty() && k::flag("plain");
    let s = V2Signer::new(if plain { ModuleSignerConfig::new(c.key(), c.cert.clone(), c.alg.clone()) } else { c.conf() });
    let r = if k::flag("raw") { s.sign_with_digests(as_pairs(&d)) } else { s.sign(as_digests(&d)) };
    match r { Ok(b) => { k::check(c.matches(), "algorithm that does not fit the key is used"); v2_ok(&ValueSigningBlock::SignatureSchemeV2Block(b), &c, &dw); k::cover(1) } Err(_) => { k::check(!c.matches(), "fitting key refused"); k::cover(2) } }
}
fn stamp() {
    let c = Cfg::any("sk", 1); let (d, dw) = digests(k::param(0) as usize); let ts = k::flag("time"); let raw = k::flag("raw"); let t0 = any_clock();
    let r = match k::range("api", 0, 3) {
        0 => { let s = NewSourceStampSigner::with_timestamp(c.conf(), ts); if raw { s.sign_with_digests(as_pairs(&d)) } else { s.sign(as_digests(&d)) } }
        1 => { k::assume(ts); let s = NewSourceStampSigner::new(c.conf()); if raw { s.sign_with_digests(as_pairs(&d)) } else { s.sign(as_digests(&d)) } }
        2 => { let s = SourceStampSigner::new(SourceStampSignerConfig::new(c.key(), c.cert.clone(), c.alg.clone(), ts)); if raw { s.sign_with_digests(as_pairs(&d)) } else { s.sign(as_digests(&d)) } }
        _ => { let b = SourceStampSignerBuilder::new(c.key(), c.cert.clone(), c.alg.clone()); let b = if ts && k::flag("default") { b } else { b.timestamp_enabled(ts) }; let s = b.build(); if raw { s.sign_with_digests(as_pairs(&d)) } else { s.sign(as_digests(&d)) } }
    };
    match r { Ok(b) => { k::check(c.matches(), "algorithm that does not fit the key is used"); stamp_ok(&as_stamp(b), &c, &dw, if ts { Some((t0, now())) } else { None }); k::cover(1) } Err(_) => { k::check(!c.matches(), "fitting key refused"); k::cover(2) } }
}
k::table!(v2, stamp);
