//! shared by the harnesses: independent encoders written from the documented format, reference decoders
use crate::k;
pub const KMAGIC: &[u8; 16] = b"KSU Sig Block 42";
pub const ID_V2: u32 = 0x7109871a;
pub const ID_STAMP: u32 = 0x6dff800d;
pub const ID_ELF: u32 = 0x4c45534b;
pub const ID_PAD: u32 = 0x42726577;
pub fn le32(v: usize) -> [u8; 4] { (v as u32).to_le_bytes() }
pub fn le64(v: usize) -> [u8; 8] { (v as u64).to_le_bytes() }
pub fn get32(b: &[u8], i: usize) -> usize { u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize }
pub fn get64(b: &[u8], i: usize) -> u64 { let mut x = [0u8; 8]; x.copy_from_slice(&b[i..i + 8]); u64::from_le_bytes(x) }
/// u32 length prefix
pub fn lp(v: &[u8]) -> Vec<u8> { let mut o = le32(v.len()).to_vec(); o.extend_from_slice(v); o }
pub fn cat(l: &[&[u8]]) -> Vec<u8> { let mut o = vec![]; for x in l { o.extend_from_slice(x); } o }
/// {u32 algorithm id, length-prefixed data}, itself length-prefixed (digest and signature records)
pub fn rec(alg: u32, d: &[u8]) -> Vec<u8> { lp(&cat(&[&alg.to_le_bytes(), &lp(d)])) }
pub fn attr(id: u32, d: &[u8]) -> Vec<u8> { lp(&cat(&[&id.to_le_bytes(), d])) }
pub fn list(l: &[Vec<u8>]) -> Vec<u8> { let r: Vec<&[u8]> = l.iter().map(|x| &x[..]).collect(); lp(&cat(&r)) }
pub fn pair(id: u32, v: &[u8]) -> Vec<u8> { cat(&[&le64(v.len() + 4), &id.to_le_bytes(), v]) }
/// a complete signing block from encoded pairs
pub fn block(content: &[u8]) -> Vec<u8> { cat(&[&le64(content.len() + 24), content, &le64(content.len() + 24), KMAGIC]) }
pub fn v2_signed(digests: &[Vec<u8>], certs: &[Vec<u8>], attrs: &[Vec<u8>]) -> Vec<u8> { cat(&[&list(digests), &list(certs), &list(attrs), &[0u8; 4]]) }
pub fn stamp_signed(digests: &[Vec<u8>], certs: &[Vec<u8>], attrs: &[Vec<u8>]) -> Vec<u8> { cat(&[&list(digests), &list(certs), &list(attrs)]) }
/// signed data (without its length prefix) + signatures + public key -> one length-prefixed signer / stamp block
pub fn signer(signed: &[u8], sigs: &[Vec<u8>], pk: &[u8]) -> Vec<u8> { lp(&cat(&[&lp(signed), &list(sigs), &lp(pk)])) }
pub fn v2_pair(signers: &[Vec<u8>]) -> Vec<u8> { pair(ID_V2, &list(signers)) }
pub fn stamp_pair(b: &[u8]) -> Vec<u8> { pair(ID_STAMP, b) }
pub fn elf_pair(secs: &[(&[u8], u64, u64)]) -> Vec<u8> {
    let mut v = le32(secs.len()).to_vec();
    for (n, o, s) in secs { v.extend_from_slice(&(n.len() as u16).to_le_bytes()); v.extend_from_slice(n); v.extend_from_slice(&o.to_le_bytes()); v.extend_from_slice(&s.to_le_bytes()); }
    pair(ID_ELF, &v)
}
/// byte-equality as one solver term (no early exit)
pub fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i]; } d == 0 }
// ---- modules (ZIP files) ----
pub const EOCD: [u8; 4] = [0x50, 0x4b, 5, 6];
/// end of central directory record with free middle fields
pub fn eocd(mid: &[u8; 12], cd: u32, comment: &[u8]) -> Vec<u8> { cat(&[&EOCD, mid, &cd.to_le_bytes(), &(comment.len() as u16).to_le_bytes(), comment]) }
/// last well-formed record among the final 65,557 bytes, by definition
pub fn ref_eocd(f: &[u8]) -> Option<usize> {
    if f.len() < 22 { return None; } let lo = f.len().saturating_sub(65557); let mut p = f.len() - 22;
    loop { if same(&f[p..p + 4], &EOCD) && p + 22 + (f[p + 20] as usize | (f[p + 21] as usize) << 8) <= f.len() { return Some(p); } if p == lo { return None; } p -= 1; }
}
pub enum Zip { Bad, Unsigned { cd: usize, e: usize }, Signed { start: usize, cd: usize, e: usize }, Corrupt }
/// what a module file is, by definition; the pair decoder itself is judged by C01-C03
pub fn ref_zip(f: &[u8]) -> Zip {
    let e = match ref_eocd(f) { Some(e) => e, None => return Zip::Bad }; let cd = get32(f, e + 16); if cd > e { return Zip::Bad; }
    let cd = k::concrete(cd as u64) as usize;
    if cd < 16 || !same(&f[cd - 16..cd], KMAGIC) { return Zip::Unsigned { cd, e }; }
    if cd < 32 { return Zip::Corrupt; } let n = get64(f, cd - 24); if n < 24 || n > 16384 || n as usize + 8 > cd { return Zip::Corrupt; }
    let s = cd - 8 - k::concrete(n) as usize; if ksusig::SigningBlock::from_u8(&f[s..cd]).is_ok() { Zip::Signed { start: s, cd, e } } else { Zip::Corrupt }
}
pub fn chunks(d: &[u8], n: usize, h: fn(&[u8]) -> Vec<u8>, out: &mut Vec<Vec<u8>>) { for c in d.chunks(n) { out.push(h(&cat(&[&[0xa5], &le32(c.len()), c]))); } }
pub fn finish(l: &[Vec<u8>], h: fn(&[u8]) -> Vec<u8>) -> Vec<u8> { let r: Vec<&[u8]> = l.iter().map(|x| &x[..]).collect(); h(&cat(&[&[0x5a], &le32(l.len()), &cat(&r)])) }
pub fn sha256(d: &[u8]) -> Vec<u8> { use sha2::Digest; sha2::Sha256::digest(d).to_vec() }
pub fn sha512(d: &[u8]) -> Vec<u8> { use sha2::Digest; sha2::Sha512::digest(d).to_vec() }
pub fn hash_of(alg: &ksusig::Algorithms) -> fn(&[u8]) -> Vec<u8> { if *alg == ksusig::Algorithms::ECDSA_SHA2_256 { sha256 } else { sha512 } }
/// documented content digest of a module given its three regions (end record: cd offset field replaced by the content length)
pub fn ref_digest(content: &[u8], cd: &[u8], end: &[u8], h: fn(&[u8]) -> Vec<u8>) -> Vec<u8> {
    let mut l = vec![]; let mut e = end.to_vec(); e[16..20].copy_from_slice(&le32(content.len()));
    chunks(content, 1 << 20, h, &mut l); chunks(cd, 1 << 20, h, &mut l); chunks(&e, 1 << 20, h, &mut l); finish(&l, h)
}
pub fn algo() -> ksusig::Algorithms { if k::flag("sha512") { ksusig::Algorithms::ECDSA_SHA2_512 } else { ksusig::Algorithms::ECDSA_SHA2_256 } }
/// templates of signing blocks of moderate size, k = 0..=5
pub fn pairs(kind: usize) -> Vec<u8> {
    let d = rec(0x201, &[1, 2]); let c = lp(&[3, 4]); let a = attr(7, &[5]); let s = rec(0x201, &[6]);
    match kind { 0 => vec![], 1 => { let x = k::bytes("payload", 2); pair(0x1234, &x) } 2 => v2_pair(&[signer(&v2_signed(&[d], &[c], &[a]), &[s], &[8, 9])]), 3 => stamp_pair(&signer(&stamp_signed(&[d], &[c], &[a]), &[s], &[8, 9])),
        4 => cat(&[&pair(ID_PAD, &[0; 3]), &v2_pair(&[])]), _ => pair(9, &[]) }
}
/// signing key whose last bytes are free (valid for the real curves too)
pub fn key(p384: bool, name: &str) -> ksusig::PrivateKey { let mut s = vec![1u8; if p384 { 48 } else { 32 }]; let n = s.len(); k::fill(&mut s[n - 2..], name); key_of(&s) }
pub fn key_of(s: &[u8]) -> ksusig::PrivateKey { if s.len() == 48 { ksusig::PrivateKey::EcdsaP384(p384::ecdsa::SigningKey::from_slice(s).unwrap()) } else { ksusig::PrivateKey::EcdsaP256(p256::ecdsa::SigningKey::from_slice(s).unwrap()) } }
/// an unsigned module with free bytes in every region (content, directory, end record, comment, bytes after the comment)
#[derive(Clone)]
pub struct Mod { pub content: Vec<u8>, pub cd: Vec<u8>, pub end: Vec<u8> }
impl Mod {
    pub fn any(nc: usize, ncd: usize, nco: usize, nt: usize) -> Mod {
        let content = k::bytes("content", k::range("nc", 0, nc)); let cd = k::bytes("cd", k::range("ncd", 0, ncd)); let mut mid = [0u8; 12]; k::fill(&mut mid, "mid"); let comment = k::bytes("comment", k::range("nco", 0, nco)); let tail = k::bytes("tail", k::range("nt", 0, nt));
        let end = cat(&[&eocd(&mid, content.len() as u32, &comment), &tail]); let m = Mod { content, cd, end }; k::assume(ref_eocd(&m.bytes()) == Some(m.content.len() + m.cd.len())); m
    }
    pub fn bytes(&self) -> Vec<u8> { cat(&[&self.content, &self.cd, &self.end]) }
    /// the same module with this block between content and directory
    pub fn with(&self, b: &[u8]) -> Vec<u8> { let mut e = self.end.clone(); e[16..20].copy_from_slice(&le32(self.content.len() + b.len())); cat(&[&self.content, b, &self.cd, &e]) }
    pub fn digest(&self, a: &ksusig::Algorithms) -> Vec<u8> { ref_digest(&self.content, &self.cd, &self.end, hash_of(a)) }
}
/// reader that returns short reads, spurious interruptions and (optionally) one error at free points
pub struct Choppy<'a> { pub d: &'a [u8], pub at: usize, pub n: usize, pub fail: bool, pub failed: bool }
impl std::io::Read for Choppy<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let m = b.len().min(self.d.len().saturating_sub(self.at)); let mut t = m;
        if self.n > 0 && m > 0 { self.n -= 1; let c = k::range("split", 0, 4 + self.fail as usize); if c == 3 { return Err(std::io::ErrorKind::Interrupted.into()); } if c == 5 { self.failed = true; return Err(std::io::Error::other("io")); } t = match c { 0 => 1, 1 => 2.min(m), 2 => m - m / 2, _ => m } }
        b[..t].copy_from_slice(&self.d[self.at..self.at + t]); self.at += t; Ok(t)
    }
}
impl std::io::Seek for Choppy<'_> { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.at = match p { std::io::SeekFrom::Start(x) => x as usize, std::io::SeekFrom::Current(x) => (self.at as i64 + x) as usize, std::io::SeekFrom::End(x) => (self.d.len() as i64 + x) as usize }; Ok(self.at as u64) } }
