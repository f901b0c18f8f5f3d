//! Container stand-in: "P12T" pwlen pw nkeys {len key}* ncerts {len16 cert}*; same interface as p12::PFX.
#[derive(Debug, Clone, PartialEq, Eq)] pub struct ASN1Error;
#[derive(Debug, Clone)] pub struct PFX { pw: Vec<u8>, keys: Vec<Vec<u8>>, certs: Vec<Vec<u8>> }
struct R<'a>(&'a [u8]);
impl<'a> R<'a> { fn take(&mut self, n: usize) -> Result<&'a [u8], ASN1Error> { if self.0.len() < n { return Err(ASN1Error); } let (a, b) = self.0.split_at(n); self.0 = b; Ok(a) } fn u8(&mut self) -> Result<usize, ASN1Error> { Ok(self.take(1)?[0] as usize) } fn u16(&mut self) -> Result<usize, ASN1Error> { let b = self.take(2)?; Ok(b[0] as usize | (b[1] as usize) << 8) } }
impl PFX {
    pub fn parse(d: &[u8]) -> Result<PFX, ASN1Error> { let mut r = R(d); if r.take(4)? != b"P12T" { return Err(ASN1Error); } let n = r.u8()?; let pw = r.take(n)?.to_vec(); let mut keys = vec![]; for _ in 0..r.u8()? { let n = r.u16()?; keys.push(r.take(n)?.to_vec()) } let mut certs = vec![]; for _ in 0..r.u8()? { let n = r.u16()?; certs.push(r.take(n)?.to_vec()) } Ok(PFX { pw, keys, certs }) }
    pub fn new(c: &[u8], k: &[u8], ca: Option<&[u8]>, p: &str, n: &str) -> Option<PFX> { let v: Vec<&[u8]> = ca.into_iter().collect(); Self::new_with_cas(c, k, &v, p, n) }
    pub fn new_with_cas(c: &[u8], k: &[u8], ca: &[&[u8]], p: &str, _n: &str) -> Option<PFX> { let mut certs = vec![c.to_vec()]; for x in ca { certs.push(x.to_vec()) } Some(PFX { pw: p.as_bytes().to_vec(), keys: vec![k.to_vec()], certs }) }
    pub fn to_der(&self) -> Vec<u8> { let mut o = b"P12T".to_vec(); o.push(self.pw.len() as u8); o.extend_from_slice(&self.pw); for l in [&self.keys, &self.certs] { o.push(l.len() as u8); for x in l { o.push(x.len() as u8); o.push((x.len() >> 8) as u8); o.extend_from_slice(x) } } o }
    fn ok(&self, p: &str) -> Result<(), ASN1Error> { if p.as_bytes() == &self.pw[..] { Ok(()) } else { Err(ASN1Error) } }
    pub fn key_bags(&self, p: &str) -> Result<Vec<Vec<u8>>, ASN1Error> { self.ok(p)?; Ok(self.keys.clone()) }
    pub fn cert_x509_bags(&self, p: &str) -> Result<Vec<Vec<u8>>, ASN1Error> { self.ok(p)?; Ok(self.certs.clone()) }
    pub fn cert_bags(&self, p: &str) -> Result<Vec<Vec<u8>>, ASN1Error> { self.cert_x509_bags(p) }
    pub fn verify_mac(&self, p: &str) -> bool { self.ok(p).is_ok() }
}
