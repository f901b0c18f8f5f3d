//! the content digest is the documented function of the module's bytes and of nothing else
use crate::{k, util::*};
use ksusig::{Module, Signable, SignableFile};
fn dig(f: &[u8], a: &ksusig::Algorithms) -> Option<Vec<u8>> {
    let p = k::put_file("m", f); let m = Module::new(p.clone()).ok()?; let d = m.digest(a).ok()?; let t = <Module as Signable>::digest(&m, a).ok()?; k::check(same(&d, &t), "both interfaces give the same digest"); Some(d)
}
fn expect(f: &[u8], content: &[u8], cd: &[u8], end: &[u8], a: &ksusig::Algorithms) -> Vec<u8> {
    let r = ref_digest(content, cd, end, hash_of(a)); match dig(f, a) { Some(d) => { k::check(same(&d, &r), "digest is not the documented one"); d } None => { k::check(false, "no digest for a well-formed module"); r } }
}
/// unsigned and signed form of a module with free bytes everywhere: both give the documented digest
fn conform() {
    let m = k::param(0) as usize; let a = algo(); let content = k::bytes("content", k::range("nc", 0, m)); let cd = k::bytes("cd", k::range("ncd", 0, 2)); let mut mid = [0u8; 12]; k::fill(&mut mid, "mid"); let comment = k::bytes("comment", k::range("nco", 0, 2)); let tail = k::bytes("tail", k::range("nt", 0, 1));
    let end = cat(&[&eocd(&mid, content.len() as u32, &comment), &tail]); let u = cat(&[&content, &cd, &end]);
    k::assume(ref_eocd(&u) == Some(content.len() + cd.len())); let kind = k::range("kind", 0, 5);
    k::assume(content.len() < 16 || !same(&content[content.len() - 16..], KMAGIC));
    let d = expect(&u, &content, &cd, &end, &a);
    let b = block(&pairs(kind)); let mut e2 = end.clone(); e2[16..20].copy_from_slice(&le32(content.len() + b.len())); let s = cat(&[&content, &b, &cd, &e2]);
    let d2 = expect(&s, &content, &cd, &end, &a); k::check(same(&d, &d2), "signing changes the digest"); k::cover(1); k::observe("len", &[d.len() as u8]);
}
/// two modules with the same digest have the same content, directory, end record (up to the directory offset)
fn tamper() {
    let a = algo(); let kind = k::range("kind", 0, 1); let mk = |nm: &str| { let content = k::bytes(nm, k::range("nc", 0, 3)); let cd = k::bytes("cd", k::range("ncd", 0, 2)); let mut mid = [0u8; 12]; k::fill(&mut mid, "mid"); let comment = k::bytes("co", k::range("nco", 0, 2));
        let b = if kind == 1 { block(&pairs(1)) } else { vec![] }; let end = eocd(&mid, (content.len() + b.len()) as u32, &comment); (cat(&[&content, &b, &cd, &end]), content, cd, end) };
    let (f, c1, d1, mut e1) = mk("a"); let (g, c2, d2, mut e2) = mk("b");
    k::assume(ref_eocd(&f) == Some(f.len() - e1.len()) && ref_eocd(&g) == Some(g.len() - e2.len()));
    if let (Some(x), Some(y)) = (dig(&f, &a), dig(&g, &a)) { e1[16..20].fill(0); e2[16..20].fill(0); let eq = same(&c1, &c2) && same(&d1, &d2) && same(&e1, &e2); k::check(same(&x, &y) == eq, "digest does not identify the content"); if eq { k::cover(1) } else { k::cover(2) } }
}
/// regions around the 1 MiB chunk size
fn big() {
    let a = algo(); let n = (1usize << 20) + k::range("n", 0, 2) - 1; let which = k::range("region", 0, 1); let mut x = vec![0x11u8; n]; k::fill(&mut x[n - 2..], "x"); k::fill(&mut x[..1], "y");
    let (content, cd) = if which == 0 { (x, b"cd".to_vec()) } else { (b"pk".to_vec(), x) }; let end = eocd(&[0; 12], content.len() as u32, &[]); expect(&cat(&[&content, &cd, &end]), &content, &cd, &end, &a); k::cover(1);
}
/// the digest of each region by itself, for region lengths around every chunk boundary, wherever the region lies
fn parts() {
    use ksusig::file_formats::module::digest::*; let a = algo(); let h = hash_of(&a); let n = k::pick("n", &[0usize, 1, 22, 65557, 65558, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2 << 20, (2 << 20) + 1]); let pre = k::range("pre", 0, 2); let which = k::range("region", 0, 2);
    let mut x = vec![0x11u8; n]; if n >= 22 { k::fill(&mut x[15..22], "y"); k::fill(&mut x[n - 1..], "z"); } else { k::fill(&mut x, "x"); }
    let f = cat(&[&vec![7u8; pre], &x, if which < 2 { b"rest" } else { b"" }]); let mut r = std::io::Cursor::new(&f); let mut want = vec![];
    let got = match which { 0 => { chunks(&x, 1 << 20, h, &mut want); digest_zip_contents(&mut r, pre, n, &a) } 1 => { chunks(&x, 1 << 20, h, &mut want); digest_central_directory(&mut r, pre, n, &a) } _ => { let off = k::u32("off"); if n >= 22 { let mut e = x.clone(); e[16..20].copy_from_slice(&off.to_le_bytes()); chunks(&e, 1 << 20, h, &mut want); } digest_end_of_central_directory(&mut r, pre, n, off as usize, &a) } };
    match got { Ok(g) => { k::check(which < 2 || n >= 20, "end record too short"); k::check(g.len() == want.len() && g.iter().zip(&want).all(|(p, q)| same(p, q)), "chunk digests of a region"); k::cover(1) } Err(_) => { k::check(which == 2 && n < 22, "region refused"); k::cover(2) } }
}
/// the final digest for any number of chunks
fn count() {
    let a = algo(); let n = k::pick("n", &[0usize, 1, 2, 255, 256, 257, 65535, 65536, 65537]); let mut l: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8, (i >> 8) as u8]).collect(); if n > 0 { k::fill(&mut l[n - 1], "last"); k::fill(&mut l[0], "first"); } let w = finish(&l, hash_of(&a)); let g = ksusig::file_formats::module::digest::digest_final_digest(l, &a); k::check(same(&g, &w), "final digest"); k::cover(1);
}
k::table!(conform, tamper, big, parts, count);
