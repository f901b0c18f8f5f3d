//! independent ELF writer and reader (both classes, both byte orders) for the ELF harnesses
use crate::{k, util::*};
#[derive(Clone, Copy, PartialEq)] pub struct C { pub c64: bool, pub le: bool }
#[derive(Clone, Debug, PartialEq)] pub struct Sh { pub name: u64, pub ty: u64, pub flags: u64, pub addr: u64, pub off: u64, pub size: u64, pub link: u64, pub info: u64, pub align: u64, pub ent: u64 }
/// (offset, width) of section header fields: name type flags addr offset size link info align entsize
pub const F64: [(usize, usize); 10] = [(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 4), (44, 4), (48, 8), (56, 8)];
pub const F32: [(usize, usize); 10] = [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4)];
impl C {
    pub fn any() -> C { match k::range("class", 0, 3) { 0 => C { c64: true, le: true }, 1 => C { c64: false, le: true }, 2 => C { c64: true, le: false }, _ => C { c64: false, le: false } } }
    pub fn f(self) -> [(usize, usize); 10] { if self.c64 { F64 } else { F32 } }
    pub fn shs(self) -> usize { if self.c64 { 64 } else { 40 } }
    pub fn ehs(self) -> usize { if self.c64 { 64 } else { 52 } }
    pub fn put(self, b: &mut [u8], at: usize, w: usize, v: u64) { for i in 0..w { b[at + if self.le { i } else { w - 1 - i }] = (v >> (8 * i)) as u8; } }
    pub fn get(self, b: &[u8], at: usize, w: usize) -> u64 { let mut v = 0u64; for i in 0..w { v |= (b[at + if self.le { i } else { w - 1 - i }] as u64) << (8 * i); } v }
    pub fn e_shoff(self) -> (usize, usize) { if self.c64 { (40, 8) } else { (32, 4) } }
    pub fn e_shentsize(self) -> (usize, usize) { (if self.c64 { 58 } else { 46 }, 2) }
    pub fn e_shnum(self) -> (usize, usize) { (if self.c64 { 60 } else { 48 }, 2) }
    pub fn e_shstrndx(self) -> (usize, usize) { (if self.c64 { 62 } else { 50 }, 2) }
    pub fn gf(self, b: &[u8], p: (usize, usize)) -> u64 { self.get(b, p.0, p.1) }
    pub fn sh(self, b: &[u8], i: usize) -> Sh { let o = self.shat(b, i); let g = |j: usize| { let (a, w) = self.f()[j]; self.get(b, o + a, w) }; Sh { name: g(0), ty: g(1), flags: g(2), addr: g(3), off: g(4), size: g(5), link: g(6), info: g(7), align: g(8), ent: g(9) } }
    pub fn shnum(self, b: &[u8]) -> usize { k::concrete(self.gf(b, self.e_shnum())) as usize }
    pub fn shat(self, b: &[u8], i: usize) -> usize { k::concrete(self.gf(b, self.e_shoff())) as usize + i * self.shs() }
    /// name of section i (bytes up to the NUL)
    pub fn name(self, b: &[u8], i: usize) -> Vec<u8> { let s = self.sh(b, self.gf(b, self.e_shstrndx()) as usize); let o = (s.off + self.sh(b, i).name) as usize; let mut e = o; while e < b.len() && b[e] != 0 { e += 1; } b[o.min(b.len())..e].to_vec() }
    pub fn find(self, b: &[u8], n: &[u8]) -> Option<usize> { (0..self.shnum(b)).find(|i| self.name(b, *i) == n) }
    pub fn data<'a>(self, b: &'a [u8], i: usize) -> &'a [u8] { let s = self.sh(b, i); &b[s.off as usize..(s.off + s.size) as usize] }
    /// sections in this order after the null section, then .shstrtab; section type 8 has no data in the file
    pub fn build(self, secs: &[(&str, u64, &[u8])], tail: &[u8]) -> Vec<u8> {
        let mut b = vec![0u8; self.ehs()]; b[..4].copy_from_slice(b"\x7fELF"); b[4] = 1 + self.c64 as u8; b[5] = 2 - self.le as u8; b[6] = 1;
        self.put(&mut b, 16, 2, 2); self.put(&mut b, 18, 2, 0xb7); self.put(&mut b, 20, 4, 1); let o = if self.c64 { 52 } else { 40 }; self.put(&mut b, o, 2, self.ehs() as u64);
        let mut st = vec![0u8]; let mut h: Vec<(u64, u64, u64, u64)> = vec![(0, 0, 0, 0)];
        for (n, t, d) in secs { let no = st.len() as u64; st.extend_from_slice(n.as_bytes()); st.push(0); let off = b.len() as u64; if *t != 8 { b.extend_from_slice(d); } h.push((no, *t, off, d.len() as u64)); }
        let no = st.len() as u64; st.extend_from_slice(b".shstrtab\0"); let off = b.len() as u64; b.extend_from_slice(&st); h.push((no, 3, off, st.len() as u64));
        let shoff = b.len(); let n = h.len(); b.resize(shoff + n * self.shs(), 0); let (a, w) = self.e_shoff(); self.put(&mut b, a, w, shoff as u64); let (a, w) = self.e_shentsize(); self.put(&mut b, a, w, self.shs() as u64); let (a, w) = self.e_shnum(); self.put(&mut b, a, w, n as u64); let (a, w) = self.e_shstrndx(); self.put(&mut b, a, w, n as u64 - 1);
        for (i, (no, t, off, sz)) in h.into_iter().enumerate() { for (j, v) in [(0usize, no), (1, t), (4, off), (5, sz), (8, (i > 0) as u64)] { self.setf(&mut b, i, j, v); } }
        b.extend_from_slice(tail); b
    }
    pub fn setf(self, b: &mut [u8], i: usize, j: usize, v: u64) { let o = self.shat(b, i); let (a, w) = self.f()[j]; self.put(b, o + a, w, v); }
    pub fn anyf(self, b: &mut [u8], i: usize, j: usize, name: &str) { let o = self.shat(b, i); let (a, w) = self.f()[j]; k::fill(&mut b[o + a..o + a + w], name); }
}
