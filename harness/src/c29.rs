//! the info command reports the block at the signature's place and nothing that merely looks like one
use crate::cli::info;
use crate::{elfx::*, k, util::*};
fn has(t: &[u8], n: &[u8]) -> bool { t.windows(n.len()).any(|w| w == n) }
/// `real`: the bytes of the genuine block and where it lies; None: nothing readable there
fn judge(f: &[u8], kind: usize, real: Option<(usize, usize)>) {
    let p = k::put_file("f", f); let ok = info::execute(info::InfoArgs { module: p.clone() }).is_ok(); let t = k::stdout_text(); k::check(k::get_file(&p).map_or(false, |g| same(&g, f)), "file changed"); k::check(has(&t, format!("File size: {} bytes\n", f.len()).as_bytes()), "file size");
    match real {
        None => { k::check(!ok && !has(&t, b"found") && !has(&t, b"Location") && !has(&t, b"contents"), "reports a signing block that is not there"); k::cover(1) }
        Some((s, n)) => { k::check(ok, "block not found"); k::check(has(&t, format!("Location: {} - {}\n", s, s + n).as_bytes()) && has(&t, format!("Size: {} bytes\n", n).as_bytes()), "place of the block");
            k::check(has(&t, b"V2 Signature Scheme") == (kind == 2 || kind == 4) && has(&t, b"Source Stamp\n") == (kind == 3) && has(&t, b"Unknown Block (ID: 0x1234)") == (kind == 1) && has(&t, b"Unknown Block (ID: 0x9)") == (kind == 5) && has(&t, b"Unknown Block (ID: 0x42726577)") == (kind == 4) && !has(&t, b"ELF Section Info") && !has(&t, b"0x77"), "what the block holds"); k::cover(2) }
    }
}
/// a complete block that no reader may take for the signature
fn alike() -> Vec<u8> { block(&cat(&[&pair(0x77, &k::bytes("alike", 1)), &stamp_pair(&signer(&stamp_signed(&[], &[], &[]), &[], &[]))])) }
fn module() {
    let a = alike(); let e: &[u8] = &[]; let at = k::range("alike", 0, 5); let on = |i: usize| if at == i { &a[..] } else { e }; let x = k::bytes("x", 1); k::assume(x[0] != 0x7f); let kind = k::range("kind", 0, 5); let b = block(&pairs(kind)); let what = k::range("what", 0, 2);
    let content = cat(&[&x, on(1), &x]); let cd = cat(&[on(2), &[5, 6]]); let comment = on(3); let tail = on(4); let mut b2 = b.clone(); if what == 2 { let n = b2.len(); k::fill(&mut b2[n - 24..n - 23], "size"); k::assume(b2[n - 24] != b[n - 24]); }
    // 5: a second complete block directly in front of the signature
    let content = cat(&[&content, on(5)]); if at == 5 && what != 1 { k::assume(what == 2); } let s = content.len(); let f = cat(&[&content, if what == 0 { e } else { &b2 }, &cd, &eocd(&[3; 12], (s + if what == 0 { 0 } else { b.len() }) as u32, comment), tail]);
    judge(&f, kind, if what == 1 { Some((s, b.len())) } else { None });
}
fn elf() {
    let c = C::any(); let a = alike(); let kind = k::range("kind", 0, 5); let b = block(&pairs(kind)); let what = k::range("what", 0, 3); let at = k::range("alike", 0, 2); let mut d = b.clone(); if what == 2 { let n = d.len(); k::fill(&mut d[n - 24..n - 23], "size"); k::assume(d[n - 24] != b[n - 24]); }
    let x = k::bytes("x", 1); let t = if at == 1 { &a[..] } else { &x[..] }; let l: Vec<(&str, u64, &[u8])> = match what { 0 => vec![(".text", 1, t)], 3 => vec![(".text", 1, t), (".ksu_sign", 1, &[])], _ => vec![(".text", 1, t), (".ksu_sign", 1, &d), (".data", 1, &x)] }; let f = c.build(&l, if at == 2 { &a } else { &[] }); let s = c.ehs() + t.len(); judge(&f, kind, if what == 1 { Some((s, b.len())) } else { None });
}
/// neither a module nor an ELF, and files that are not there
fn other() {
    let n = k::range("n", 0, 3); let mut f = k::bytes("f", n); if k::flag("block") { f.extend_from_slice(&block(&pairs(k::range("kind", 0, 5)))); f.extend_from_slice(&k::bytes("g", k::range("m", 0, 1))); } k::assume(ref_eocd(&f).is_none()); judge(&f, 0, None);
    k::check(info::execute(info::InfoArgs { module: k::path("none") }).is_err(), "missing file");
}
k::table!(module, elf, other);
